// zir: normalises an LLVM module (everything of interest inlined into the entry
// functions, SSA form, memory promoted) and dumps it as JSON for the analyser.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/MapVector.h>
#include <set>
#include <map>
#include <string>
#include <vector>
using namespace llvm;
namespace J = llvm::json;

static std::vector<std::string> opaquePrefixes, keepPrefixes, bodyPrefixes;
static const DataLayout* DL;

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }

// strip a leading return type from a demangled template function name
static std::string baseName(const std::string& d) {
  // find the '(' that opens the parameter list at depth 0 of <>; then walk back
  int depth = 0; size_t paren = std::string::npos;
  for (size_t i = 0; i < d.size(); ++i) {
    char c = d[i];
    if (c == '<') { if (i>=8 && d.compare(i-8,8,"operator")==0) { continue; } if (i>=9 && d.compare(i-9,9,"operator<")==0) continue; ++depth; }
    else if (c == '>') { if (i>0 && d[i-1]=='-') continue; if (depth>0) --depth; }
    else if (c == '(' && depth == 0) {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      if (i>=8 && d.compare(i-8,8,"operator")==0) continue;
      paren = i; break;
    }
  }
  std::string s = paren == std::string::npos ? d : d.substr(0, paren);
  depth = 0; size_t last = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c=='<'||c=='('||c=='{'||c=='[') ++depth; else if (c=='>'||c==')'||c=='}'||c==']') { if(depth>0) --depth; }
    else if (c==' ' && depth==0) {
      if (i>=8 && s.compare(i-8,8,"operator")==0) continue;
      last = i+1;
    }
  }
  return s.substr(last);
}
static bool matches(const std::string& b, const std::vector<std::string>& v) {
  for (auto& p : v) {
    if (!p.empty() && p[0]=='*') { if (b.find(p.substr(1)) != std::string::npos) return true; }
    else if (b.compare(0, p.size(), p) == 0) return true;
  }
  return false;
}

static J::Value tyJ(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "p";
  if (auto* it = dyn_cast<IntegerType>(t)) return J::Value("i" + std::to_string(it->getBitWidth()));
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isHalfTy()) return "f16";
  if (t->isX86_FP80Ty()) return "f80";
  if (auto* st = dyn_cast<StructType>(t)) {
    J::Array f;
    if (!st->isOpaque()) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        f.push_back(J::Array{(int64_t)sl->getElementOffset(i).getFixedValue(), tyJ(st->getElementType(i))});
    }
    return J::Array{"S", std::move(f), st->isSized() ? (int64_t)DL->getTypeAllocSize(st).getFixedValue() : 0};
  }
  if (auto* at = dyn_cast<ArrayType>(t))
    return J::Array{"A", (int64_t)at->getNumElements(), tyJ(at->getElementType()), (int64_t)DL->getTypeAllocSize(at->getElementType()).getFixedValue()};
  if (auto* vt = dyn_cast<FixedVectorType>(t))
    return J::Array{"V", (int64_t)vt->getNumElements(), tyJ(vt->getElementType()), (int64_t)DL->getTypeAllocSize(vt->getElementType()).getFixedValue()};
  return "other";
}

struct Dumper {
  std::map<const Value*, int> ids; int next = 0;
  std::set<const GlobalVariable*>* usedG;
  int id(const Value* v) { auto it = ids.find(v); if (it != ids.end()) return it->second; ids[v] = next; return next++; }

  J::Value cst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      SmallString<40> s; ci->getValue().toString(s, 10, false);
      return J::Array{"i", (int64_t)ci->getBitWidth(), std::string(s.str())};
    }
    if (isa<ConstantPointerNull>(c)) return J::Array{"null"};
    if (isa<UndefValue>(c)) return J::Array{"undef", tyJ(c->getType())};
    if (auto* f = dyn_cast<ConstantFP>(c)) {
      SmallString<40> s; f->getValueAPF().bitcastToAPInt().toString(s, 10, false);
      return J::Array{"f", tyJ(f->getType()), std::string(s.str())};
    }
    if (auto* fn = dyn_cast<Function>(c)) return J::Array{"fn", fn->getName().str()};
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
    if (auto* g = dyn_cast<GlobalVariable>(c)) { usedG->insert(g); return J::Array{"g", g->getName().str(), 0}; }
    if (c->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto* g = dyn_cast<GlobalVariable>(b)) { usedG->insert(g); return J::Array{"g", g->getName().str(), off.getSExtValue()}; }
      if (isa<ConstantPointerNull>(b)) return J::Array{"nulloff", off.getSExtValue()};
      if (auto* fn = dyn_cast<Function>(b)) return J::Array{"fn", fn->getName().str()};
    }
    if (c->isNullValue()) return J::Array{"zero", tyJ(c->getType())};
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      J::Array a; for (unsigned i = 0; i < ca->getNumOperands(); ++i) a.push_back(cst(cast<Constant>(ca->getOperand(i))));
      return J::Array{"agg", tyJ(c->getType()), std::move(a)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      J::Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cst(cd->getElementAsConstant(i)));
      return J::Array{"agg", tyJ(c->getType()), std::move(a)};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::PtrToInt) return J::Array{"p2i", cst(ce->getOperand(0))};
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    return J::Array{"cunk", s};
  }
  J::Value op(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    if (auto* m = dyn_cast<MetadataAsValue>(v)) return J::Array{"md"};
    if (isa<InlineAsm>(v)) return J::Array{"asm"};
    return J::Array{"v", id(v)};
  }
};

static void globalBytes(const Constant* c, uint64_t off, std::vector<int>& bytes, J::Array& rel, Dumper& D) {
  Type* t = c->getType();
  uint64_t sz = DL->getTypeAllocSize(t).getFixedValue();
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    APInt v = ci->getValue().zextOrTrunc(((ci->getBitWidth()+7)/8)*8);
    for (unsigned i = 0; i < v.getBitWidth()/8 && off+i < bytes.size(); ++i) bytes[off+i] = (int)v.extractBitsAsZExtValue(8, i*8);
    return;
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    APInt v = f->getValueAPF().bitcastToAPInt();
    for (unsigned i = 0; i < v.getBitWidth()/8 && off+i < bytes.size(); ++i) bytes[off+i] = (int)v.extractBitsAsZExtValue(8, i*8);
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
    for (unsigned i = 0; i < cd->getNumElements(); ++i) globalBytes(cd->getElementAsConstant(i), off + i*es, bytes, rel, D);
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) globalBytes(ca->getOperand(i), off + i*es, bytes, rel, D);
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) globalBytes(cs->getOperand(i), off + sl->getElementOffset(i).getFixedValue(), bytes, rel, D);
    return;
  }
  if (t->isPointerTy()) { rel.push_back(J::Array{(int64_t)off, D.cst(c)}); return; }
  (void)sz;
}

int main(int argc, char** argv) {
  // zir in.bc out.json entryPrefix policyfile
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::string entryPrefix = argv[3]; bool keepInit = false;
  {
    auto mb = MemoryBuffer::getFile(argv[4]);
    if (!mb) { errs() << "no policy\n"; return 2; }
    SmallVector<StringRef, 0> lines; (*mb)->getBuffer().split(lines, '\n', -1, false);
    for (auto l : lines) {
      l = l.trim(); if (l.empty() || l.starts_with("#")) continue;
      if (l.starts_with("opaque ")) opaquePrefixes.push_back(l.drop_front(7).trim().str());
      if (l.starts_with("body ")) bodyPrefixes.push_back(l.drop_front(5).trim().str());
      if (l == "init") keepInit = true;
      if (l.starts_with("keep ")) keepPrefixes.push_back(l.drop_front(5).trim().str());
    }
  }
  // the initialiser of the unit's global objects is an entry point where the policy asks for it
  auto isEntry = [&](const Function& F) { return F.getName().starts_with(entryPrefix) || (keepInit && F.getName().starts_with("_GLOBAL__sub_I_")); };

  for (auto& F : *M) {
    if (F.isDeclaration() || isEntry(F)) continue;
    std::string b = baseName(dem(F.getName()));
    if (matches(b, keepPrefixes)) continue;
    if (matches(b, opaquePrefixes) && !matches(b, bodyPrefixes)) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
  }
  // linkage: everything except entries internal
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
    if (isEntry(F)) F.setLinkage(GlobalValue::ExternalLinkage);
    if (!isEntry(F)) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); F.setDSOLocal(true);}
  }
  for (auto& G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); G.setVisibility(GlobalValue::DefaultVisibility); }
  // drop llvm.global_ctors and used lists
  for (auto n : {"llvm.global_ctors", "llvm.used", "llvm.compiler.used", "llvm.global_dtors"}) if (auto* g = M->getNamedGlobal(n)) g->eraseFromParent();

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto run = [&](const char* pipe) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
  };
  run("globaldce,function(lower-expect,sroa,early-cse,simplifycfg)");
  for (int round = 0; round < 4; ++round) {
    // recursion
    CallGraph CG(*M); std::set<Function*> rec;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle()) for (auto* n : *it) if (n->getFunction()) rec.insert(n->getFunction());
    }
    bool any = false;
    for (auto& F : *M) {
      F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::NoInline);
      if (F.isDeclaration() || isEntry(F)) continue;
      std::string b = baseName(dem(F.getName()));
      if (rec.count(&F) || matches(b, keepPrefixes)) { F.addFnAttr(Attribute::NoInline); continue; }
      F.addFnAttr(Attribute::AlwaysInline); any = true;
    }
    if (!any) break;
    run("always-inline,globaldce,function(sroa,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>,sccp,gvn,instsimplify,sroa,adce,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>,memcpyopt,sroa,early-cse<memssa>,gvn,dse,adce,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>),globaldce");
  }
  run("function(early-cse<memssa>,gvn,bdce,adce,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>,loop-simplify,lcssa),globaldce");
  if (argc > 5) { std::error_code ec; raw_fd_ostream o(argv[5], ec); M->print(o, nullptr); }
  if (verifyModule(*M, &errs())) return 2;

  std::set<const GlobalVariable*> usedG;
  J::Object root; J::Object funcs; J::Object decls;
  for (auto& F : *M) {
    if (F.isDeclaration()) {
      decls[F.getName().str()] = J::Object{{"dem", dem(F.getName())}, {"base", baseName(dem(F.getName()))},
        {"nounwind", F.doesNotThrow()}, {"noreturn", F.doesNotReturn()}, {"readnone", F.doesNotAccessMemory()}};
      continue;
    }
    Dumper D; D.usedG = &usedG;
    J::Array args;
    for (auto& A : F.args()) {
      J::Object a{{"id", D.id(&A)}, {"ty", tyJ(A.getType())}};
      if (A.hasStructRetAttr()) { a["sret"] = true; a["srty"] = tyJ(A.getParamStructRetType()); }
      if (A.hasByValAttr()) { a["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue(); a["byvalty"] = tyJ(A.getParamByValType()); }
      if (uint64_t d = A.getDereferenceableBytes()) a["deref"] = (int64_t)d;
      if (A.hasNonNullAttr()) a["nonnull"] = true;
      args.push_back(std::move(a));
    }
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto& B : F) bid[&B] = nb++;
    DominatorTree DT(F); LoopInfo LI(DT);
    J::Array blocks;
    for (auto& B : F) {
      J::Array ins;
      for (auto& In : B) {
        if (isa<DbgInfoIntrinsic>(In)) continue;
        J::Object o; o["op"] = In.getOpcodeName();
        if (!In.getType()->isVoidTy()) { o["id"] = D.id(&In); o["ty"] = tyJ(In.getType()); }
        if (const DebugLoc& dl = In.getDebugLoc()) {
          J::Array loc;
          for (DILocation* l = dl.get(); l; l = l->getInlinedAt()) {
            std::string fn; if (auto* sp = l->getScope()->getSubprogram()) fn = sp->getName().str();
            loc.push_back(J::Array{l->getFilename().str(), (int64_t)l->getLine(), fn});
            if (loc.size() > 24) break;
          }
          o["loc"] = std::move(loc);
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&In)) {
          MapVector<Value*, APInt> var; APInt c(64, 0);
          if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, var, c)) { o["bad"] = true; }
          J::Array vs; for (auto& kv : var) vs.push_back(J::Array{D.op(kv.first), kv.second.getSExtValue(), tyJ(kv.first->getType())});
          o["base"] = D.op(g->getPointerOperand()); o["vars"] = std::move(vs); o["off"] = c.getSExtValue(); o["inb"] = g->isInBounds();
        } else if (auto* p = dyn_cast<PHINode>(&In)) {
          J::Array inc; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) inc.push_back(J::Array{bid[p->getIncomingBlock(i)], D.op(p->getIncomingValue(i))});
          o["in"] = std::move(inc);
        } else if (auto* b = dyn_cast<BranchInst>(&In)) {
          if (b->isConditional()) { o["c"] = D.op(b->getCondition()); o["t"] = bid[b->getSuccessor(0)]; o["f"] = bid[b->getSuccessor(1)]; }
          else o["t"] = bid[b->getSuccessor(0)];
        } else if (auto* s = dyn_cast<SwitchInst>(&In)) {
          o["c"] = D.op(s->getCondition()); o["d"] = bid[s->getDefaultDest()];
          J::Array cs; for (auto& c : s->cases()) { cs.push_back(J::Array{D.cst(c.getCaseValue()), bid[c.getCaseSuccessor()]}); }
          o["cases"] = std::move(cs);
        } else if (auto* cb = dyn_cast<CallBase>(&In)) {
          if (auto* F2 = cb->getCalledFunction()) {
            o["callee"] = F2->getName().str();
            if (F2->isIntrinsic()) o["intr"] = true;
          } else o["fp"] = D.op(cb->getCalledOperand());
          J::Array as; for (auto& a : cb->args()) as.push_back(D.op(a.get()));
          o["args"] = std::move(as);
          if (cb->doesNotThrow()) o["nounwind"] = true;
          if (auto* iv = dyn_cast<InvokeInst>(cb)) { o["t"] = bid[iv->getNormalDest()]; o["u"] = bid[iv->getUnwindDest()]; }
        } else if (auto* c = dyn_cast<CmpInst>(&In)) {
          o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          o["a"] = D.op(c->getOperand(0)); o["b"] = D.op(c->getOperand(1)); o["oty"] = tyJ(c->getOperand(0)->getType());
        } else if (auto* l = dyn_cast<LandingPadInst>(&In)) {
          o["cleanup"] = l->isCleanup(); J::Array cl; for (unsigned i = 0; i < l->getNumClauses(); ++i) cl.push_back(J::Array{l->isCatch(i), D.cst(l->getClause(i))});
          o["clauses"] = std::move(cl);
        } else if (auto* a = dyn_cast<AllocaInst>(&In)) {
          auto sz = a->getAllocationSize(*DL); o["size"] = sz ? (int64_t)sz->getFixedValue() : -1; o["aty"] = tyJ(a->getAllocatedType());
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&In)) {
          o["a"] = D.op(ev->getAggregateOperand()); J::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix);
        } else if (auto* iv = dyn_cast<InsertValueInst>(&In)) {
          o["a"] = D.op(iv->getAggregateOperand()); o["b"] = D.op(iv->getInsertedValueOperand()); J::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix);
        } else {
          J::Array as; for (auto& a : In.operands()) as.push_back(D.op(a.get()));
          o["ops"] = std::move(as);
          if (isa<CastInst>(In)) o["oty"] = tyJ(In.getOperand(0)->getType());
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&In)) { if (ob->hasNoUnsignedWrap()) o["nuw"] = true; if (ob->hasNoSignedWrap()) o["nsw"] = true; }
          if (auto* st = dyn_cast<StoreInst>(&In)) { o["sty"] = tyJ(st->getValueOperand()->getType()); o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); }
          if (auto* rm = dyn_cast<AtomicRMWInst>(&In)) { o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str(); o["sty"] = tyJ(rm->getValOperand()->getType()); }
          if (isa<LoadInst>(In)) o["size"] = (int64_t)DL->getTypeStoreSize(In.getType()).getFixedValue();
        }
        ins.push_back(std::move(o));
      }
      Loop* L = LI.getLoopFor(&B); int hdr = L ? bid[L->getHeader()] : -1;
      J::Array nest; for (Loop* l = L; l; l = l->getParentLoop()) nest.push_back(bid[l->getHeader()]);
      (void)hdr;
      blocks.push_back(J::Object{{"i", std::move(ins)}, {"loops", std::move(nest)}});
    }
    J::Object fo{{"args", std::move(args)}, {"blocks", std::move(blocks)}, {"ret", tyJ(F.getReturnType())}, {"dem", dem(F.getName())}, {"base", baseName(dem(F.getName()))}};
    if (auto* sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
    fo["entry"] = isEntry(F);
    funcs[F.getName().str()] = std::move(fo);
  }
  J::Object globs; std::set<const GlobalVariable*> doneG;
  while (doneG.size() < usedG.size()) {
    std::vector<const GlobalVariable*> todo; for (auto* g : usedG) if (!doneG.count(g)) todo.push_back(g);
    for (auto* g : todo) {
      doneG.insert(g);
      Dumper D; D.usedG = &usedG;
      uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0;
      J::Object o{{"size", (int64_t)sz}, {"const", g->isConstant()}, {"dem", dem(g->getName())}};
      if (g->hasInitializer() && sz <= 65536) {
        std::vector<int> bytes(sz, 0); J::Array rel;
        globalBytes(g->getInitializer(), 0, bytes, rel, D);
        J::Array b; for (int x : bytes) b.push_back(x);
        o["bytes"] = std::move(b); o["rel"] = std::move(rel);
      }
      globs[g->getName().str()] = std::move(o);
    }
  }
  root["funcs"] = std::move(funcs); root["decls"] = std::move(decls); root["globals"] = std::move(globs);
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  out << J::Value(std::move(root));
  return 0;
}
