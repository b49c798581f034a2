"""Shared plumbing of the checks: building, compiling driver units, running the
abstract interpreter over entry points, collecting obligations, evidence, verdicts."""
import hashlib
import json
import multiprocessing
import os
import signal
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))

import lin                       # noqa: E402
from lin import T, Lin, atom, show, ZERO, ONE     # noqa: E402
import absint                    # noqa: E402
from absint import Engine, State, Module, loc_of  # noqa: E402

ZIR = os.path.join(VERIF, 'build', 'zir')
INC = ['-include', 'memory', '-I' + REPO + '/include', '-I/opt/vp/compat', '-isystem', '/usr/include/eigen3']


BUDGET = float(os.environ.get('VERIF_BUDGET', '120'))      # seconds per entry point


class Broken(Exception):
    """the analysis itself cannot be carried out (not a verdict)"""


def build_zir():
    src = os.path.join(VERIF, 'engine', 'zir.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = ZIR + '.stamp'
    if os.path.exists(ZIR) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(os.path.dirname(ZIR), exist_ok=True)
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    fl = [f for f in fl if f not in ('-std=c++17', '-fno-exceptions')]
    ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', '--system-libs'], text=True).split()
    tmp = ZIR + '.tmp%d' % os.getpid()
    subprocess.check_call(['clang++-18', '-std=c++17', '-O1', '-fno-rtti', src, '-o', tmp] + fl + ld)
    os.replace(tmp, ZIR)
    open(stamp, 'w').write(h)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='zchk-')
        self.viol = []          # (key, text)
        self.undecided = []
        self.oblig = {}         # (kind, loc) -> [ok,bad]
        self.instances = {}     # rule -> count
        self.samples = []
        self.functions = set()
        self.entries = 0
        self.stats = {}
        self.units = []
        self.assumptions = []
        self.rules = []

    # ---------------------------------------------------------------- building
    def compile(self, src, extra=(), policy='policy.txt', name=None, heap=False, init=False):
        if heap:        # containers as stand-ins with modelled storage
            extra = ['-I' + os.path.join(VERIF, 'standin')] + list(extra)
            policy = 'policy_heap.txt'
        if init:
            policy = policy.replace('.txt', '_init.txt')
        build_zir()
        base = name or os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.work, base)
        p = src if os.path.isabs(src) else os.path.join(VERIF, 'drivers', src)
        cmd = ['clang++-18', '-std=gnu++20', '-O2', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-emit-llvm', '-c',
               '-gline-tables-only', '-DNDEBUG', '-I' + os.path.join(VERIF, 'drivers')] + list(extra) + INC + [p, '-o', out + '.bc']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken('driver unit %s does not compile against the current tree:\n%s' % (base, r.stdout[-4000:]))
        r = subprocess.run([ZIR, out + '.bc', out + '.json', 'drv_', os.path.join(VERIF, 'engine', policy), out + '.ll'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken('normaliser failed on %s:\n%s' % (base, r.stdout[-3000:]))
        os.unlink(out + '.bc')
        m = Module(out + '.json')
        m.unit = base
        m.heap = heap
        self.units.append(base)
        return m

    # ---------------------------------------------------------------- analysis
    def analyse(self, mod, task, names=None, prefix='drv_', jobs=None):
        """task(mod, name) -> Result, for every entry point; parallel."""
        if names is None:
            names = sorted(n for n in mod.funcs if n.startswith(prefix))
        if not names:
            raise Broken('no entry points in %s' % mod.unit)
        res = []
        global _TASK
        _TASK = (mod, task)
        jobs = jobs or min(8, len(names))
        if jobs == 1 or os.environ.get('VERIF_SERIAL'):
            res = [_one(n) for n in names]
        else:
            mp = multiprocessing.get_context('fork')
            with mp.Pool(jobs, maxtasksperchild=1) as pool:
                res = pool.map(_one, names, chunksize=1)
        return self.collect(res)

    def analyse_list(self, mod, tasks, jobs=8):
        """tasks: (entry point, task) pairs"""
        global _TASK
        _TASK = (mod, tasks)
        if os.environ.get('VERIF_SERIAL'):
            res = [_one_i(i) for i in range(len(tasks))]
        else:
            mp = multiprocessing.get_context('fork')
            with mp.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
                res = pool.map(_one_i, range(len(tasks)), chunksize=1)
        return self.collect(res)

    def collect(self, res):
        """a few entry points the interpreter fails on are undecided; many, and the analysis itself is broken"""
        bad = [r for r in res if r.error]
        if len(bad) > max(2, len(res) // 4) or bad and os.environ.get('VERIF_STRICT'):
            raise Broken('analysis of %s failed:\n%s' % (bad[0].name, bad[0].error))
        for r in res:
            if r.error:
                r.unk('%s: the interpreter failed: %s' % (r.name, r.error.strip().splitlines()[-1]))
            self.merge(r)
        return res

    def merge(self, r):
        self.entries += 1
        for k, o in r.obl.items():
            x = self.oblig.setdefault(k, [0, 0, None])
            x[0] += o[0]
            x[1] += o[1]
            if x[2] is None:
                x[2] = o[2]
        for k in r.gives:
            self.undecided.append('%s: %s at %s' % (r.name, k[0], k[1]))
        self.functions |= r.functions
        for k, v in r.stats.items():
            self.stats[k] = max(self.stats.get(k, 0), v) if k == 'partitions' else self.stats.get(k, 0) + v
        for k, v in r.instances.items():
            self.instances[k] = self.instances.get(k, 0) + v
        for v in r.viol:
            self.violation(*v)
        self.undecided.extend(r.undecided)
        for s in r.samples:
            if len(self.samples) < 12:
                self.samples.append(s)

    def violation(self, key, text):
        if (key, text) not in self.viol:
            self.viol.append((key, text))

    def use_obligations(self, kinds=None):
        """turn unproved memory obligations into violations"""
        n = 0
        for (kind, loc), o in sorted(self.oblig.items()):
            if kinds is not None and kind not in kinds:
                continue
            n += o[0] + o[1]
            if o[1]:
                self.violation('%s %s' % (kind, loc), '%s: unproved %s obligation: %s' % (loc, kind, o[2]))
        return n

    def need(self, rule, n):
        """a rule that matches fewer instances than confirmed by hand is broken, not passed"""
        if self.instances.get(rule, 0) < n and not self.undecided and not self.viol:
            raise Broken('rule %s matched %d instances, expected at least %d' % (rule, self.instances.get(rule, 0), n))


class Result:
    def __init__(self, name):
        self.name = name
        self.obl = {}
        self.gives = {}
        self.functions = set()
        self.stats = {}
        self.instances = {}
        self.viol = []
        self.undecided = []
        self.samples = []
        self.error = None
        self.data = None

    def take(self, eng, bounds=True):
        if bounds:
            self.obl = {k: list(v) for k, v in eng.obl.items() if bounds != 'lifetime' or k[0] in ('lifetime', 'nullderef')}
        self.gives = dict(eng.gives)
        self.functions = set(f for f in collect_functions(eng))
        self.stats = dict(eng.stats)

    def inst(self, rule, n=1):
        self.instances[rule] = self.instances.get(rule, 0) + n

    def bad(self, key, text):
        self.viol.append((key, text))

    def unk(self, text):
        if text not in self.undecided:
            self.undecided.append(text)


_SRCFN = {}


def collect_functions(eng):
    """source functions of the repository whose code (inlined or not) was analysed"""
    out = set()
    for n in eng.analysed:
        key = (id(eng.mod), n)
        s = _SRCFN.get(key)
        if s is None:
            s = set()
            for b in eng.mod.funcs[n]['blocks']:
                for i in b['i']:
                    for f, line, fn in i.get('loc') or ():
                        if REPO in f:
                            s.add('%s:%s' % (os.path.basename(f), fn))
            _SRCFN[key] = s
        out |= s
    return out


_TASK = None
MEM = 4 << 30      # address space of one worker
TOTAL = float(os.environ.get('VERIF_TOTAL', '420' if os.environ.get('VERIF_TIER', 'quick') == 'quick' else '780'))      # seconds for all entry points of a check
_START = time.time()
_SEEN = multiprocessing.Value('d', 0.0)     # when the first violation was found


def alarm():
    """an entry point that outlives its share of time ends as undecided, not as a hang"""
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))

    def expire(*_):
        raise absint.Budget()
    signal.signal(signal.SIGALRM, expire)
    signal.setitimer(signal.ITIMER_REAL, max(0.5, min(1.5 * BUDGET, TOTAL - (time.time() - _START), _SEEN.value + 30 - time.time() if _SEEN.value else TOTAL)))


def _one(name):
    mod, task = _TASK
    t0 = time.time()
    alarm()
    try:
        r = task(mod, name)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if r.viol and not _SEEN.value:
            _SEEN.value = time.time()
    except absint.Budget:
        r = Result(name)
        r.unk('%s: time budget exhausted' % name)
    except Exception:
        r = Result(name)
        r.error = traceback.format_exc()[-3000:]
    if os.environ.get('VERIF_TRACE'):
        print('%-40s %.2fs' % (name, time.time() - t0), r.stats, file=sys.stderr)
    return r


def _one_i(i):
    global _TASK
    mod, tasks = _TASK
    name, task = tasks[i]
    if name not in mod.funcs:
        r = Result(name)
        r.error = 'no entry point ' + name
        return r
    t0 = time.time()
    alarm()
    try:
        r = task(mod, name)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if r.viol and not _SEEN.value:
            _SEEN.value = time.time()
    except absint.Budget:
        r = Result(name)
        r.unk('%s: time budget exhausted' % name)
    except Exception:
        r = Result(name)
        r.error = traceback.format_exc()[-3000:]
    if os.environ.get('VERIF_TRACE'):
        print('%-40s %.2fs' % (r.name, time.time() - t0), r.stats, file=sys.stderr)
    return r


# -------------------------------------------------------------------- entry-point set-up
def setup_entry(eng, name, spec=None):
    """arguments of a driver: (const uint8_t*, size_t) pairs become symbolic input
    regions, integers become symbolic values.  Returns (state, args, syms)"""
    F = eng.mod.fn(name)
    eng.entry = name
    st = State()
    args = []
    syms = {}
    i = 0
    A = F.args
    rname = ['in', 'key', 'in3', 'in4', 'in5', 'in6', 'in7', 'in8']
    nr = 0
    while i < len(A):
        ty = A[i]['ty']
        if ty == 'p':
            rn = rname[nr]
            nr += 1
            n = T.get('sym', ('n:' + rn,), 0, 1 << 62)
            eng.new_region(st, rn, 'input', atom(n), ('bytes', rn), ro=True)
            args += [eng.ptr(rn), atom(n)]
            syms[rn] = atom(n)
            i += 2
        elif ty[0] == 'f':
            v = absint.FV(ty, ('sym', i))
            args.append(v)
            syms[i] = v
            i += 1
        else:
            w = int(ty[1:])
            a = T.get('sym', ('a%d' % i, ty), 0, (1 << w) - 1)
            v = atom(a)
            if w == 1:
                v = ('ge', v - 1)
            args.append(v)
            syms[i] = v
            i += 1
    return st, args, syms


def run_entry(mod, name, hooks=None, prep=None, cls=Engine):
    cons = {}
    t0 = time.time()
    for attempt in range(12):
        eng = cls(mod, hooks)
        eng.contracts = cons
        eng.deadline = t0 + BUDGET
        st, args, syms = setup_entry(eng, name)
        eng.syms = syms
        if prep:
            r = prep(eng, st, args, syms)
            if r is not None:
                st = r
        eng.exits = []
        eng.run_function(name, args, st)
        for con in cons.values():       # obligations of recursive bodies, recorded when they were solved
            for k, o in getattr(con, 'obl', {}).items():
                eng.obl.setdefault(k, list(o))
        if not eng.restart:
            return eng
    raise Broken('contracts of %s do not stabilise' % name)


def sink_hook(eng, F, st, ins, callee, args):
    if callee.startswith('sink_'):
        st.event((callee,) + tuple(args) + (ins,))
        return [('ret', st, None, None)]
    return None


# -------------------------------------------------------------------- verdicts
def known_findings(prop):
    """committed list: 'known: property=<id> key=<key> | text' (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN-FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, explanation, rules, level='other', extra=None):
    kn = known_findings(ctx.prop)
    live = []
    for key, text in ctx.viol:
        k2 = re.sub(r':\d+ ', ' ', key)
        hit = next((k for k in kn if k and k in (key, k2)), None)
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, kn[hit]))
        else:
            live.append((key, text))
    ob = sum(o[0] + o[1] for o in ctx.oblig.values())
    ok = sum(o[0] for o in ctx.oblig.values())
    cov = {
        'explanation': explanation,
        'rules': rules,
        'entry_points': ctx.entries,
        'translation_units': ctx.units,
        'functions_analysed': len(ctx.functions),
        'function_names': sorted(ctx.functions)[:200],
        'memory_obligation_sites': len(ctx.oblig),
        'memory_obligations': ob,
        'memory_obligations_discharged': ok,
        'rule_instances': ctx.instances,
        'engine': ctx.stats,
        'undecided': sorted(set(ctx.undecided))[:60],
        'samples': ctx.samples,
    }
    if extra:
        cov.update(extra)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(live)}
    os.makedirs(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), ctx.prop + '.json'), 'w'), indent=1, default=str)
    shutil.rmtree(ctx.work, ignore_errors=True)
    if live:
        rp = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), ctx.prop + '.violations.txt')
        with open(rp, 'w') as f:
            for key, text in live:
                f.write('[%s]\n%s\n\n' % (key, text))
        for key, text in live[:20]:
            print(text)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    print('%s: held; %d entry points, %d functions, %d memory obligations at %d sites, instances %s, undecided %d (%.1fs)' % (
        ctx.prop, ctx.entries, len(ctx.functions), ob, len(ctx.oblig), ctx.instances, len(set(ctx.undecided)), time.time() - ctx.t0))
    return 0
