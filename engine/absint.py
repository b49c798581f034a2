"""Abstract interpreter over the normalised IR dumped by zir.

Abstract domain: per program point a (bounded) disjunction of partitions; each
partition maps SSA values to linear expressions over symbolic atoms, constrained
by a conjunction of linear (in)equalities (lin.Facts), together with an abstract
memory (regions with symbolic sizes, layered contents).  Loops are solved by
fixpoint: candidate linear invariants are inferred from one abstract pass over the
body and dropped until inductive.  Recursive functions are solved by template
contracts, computed the same way.
"""
import json
import re
import sys
import time
from lin import (Lin, T, ZERO, ONE, Facts, atom, const, show)
import lin

sys.setrecursionlimit(10000)

M64 = 1 << 64
ADDR_MAX = (1 << 63) - 1


class Budget(BaseException):
    """time budget of one entry point exhausted"""


class Give(Exception):
    """The analysis cannot continue on this partition (construct not modelled)."""
    def __init__(self, msg, ins=None):
        Exception.__init__(self, msg)
        self.ins = ins


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FV:
    """opaque floating value, hash-consed by key"""
    __slots__ = ('ty', 'key')

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key

    def __eq__(self, o):
        return isinstance(o, FV) and self.ty == o.ty and self.key == o.key

    def __hash__(self):
        return hash((self.ty, self.key))

    def __repr__(self):
        return 'FV(%s,%s)' % (self.ty, self.key)


# ---------------------------------------------------------------------------
# conditions:  True | False | ('ge',Lin) | ('eq',Lin) | ('ne',Lin) | ('and',(..)) | ('or',(..))
# ---------------------------------------------------------------------------
def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ('ge', (-c[1]) - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return ('or', tuple(c_not(x) for x in c[1]))
    if k == 'or':
        return ('and', tuple(c_not(x) for x in c[1]))
    raise Give('cond ' + str(c))


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            out.extend(c[1])
        elif c not in out:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == 'or':
            out.extend(c[1])
        elif c not in out:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', tuple(out))


def c_ge(l):
    if not l.t:
        return l.c >= 0
    return ('ge', l)


def c_eq(l):
    if not l.t:
        return l.c == 0
    return ('eq', l)


def c_ne(l):
    return c_not(c_eq(l))


CONDOF = {}     # b01 atom -> cond


def cond_atom(c):
    a = T.get('b01', (c,), 0, 1)
    CONDOF[a] = c
    return a


# ---------------------------------------------------------------------------
# memory
# ---------------------------------------------------------------------------
class Region:
    """static identity of a memory object"""
    __slots__ = ('name', 'kind', 'addr', 'ro', 'align', 'meta')

    def __init__(self, name, kind, ro=False, align=1):
        self.name = name
        self.kind = kind
        self.ro = ro
        self.align = align
        self.addr = T.get('addr', (name,), 1, ADDR_MAX)
        self.meta = {}

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Cont:
    """contents of a region in one partition.  layers: newest last."""
    __slots__ = ('size', 'layers', 'bottom', 'alive', 'objs')

    def __init__(self, size, bottom):
        self.size = size
        self.layers = []
        self.bottom = bottom      # ('bytes',name) ('uninit',) ('const',name) ('zero',) ('unk',name)
        self.alive = True
        self.objs = {}            # const off -> abstract object value (vec/str/..)

    def copy(self):
        c = Cont(self.size, self.bottom)
        c.layers = [dict(l) if isinstance(l, dict) else l for l in self.layers]
        c.alive = self.alive
        c.objs = dict(self.objs)
        return c


class State:
    __slots__ = ('facts', 'env', 'mem', 'own', 'ev', 'pred', 'exc', 'approx', 'loopctx', 'glob')

    def __init__(self):
        self.facts = Facts()
        self.env = {}
        self.mem = {}
        self.own = set()
        self.ev = None
        self.pred = None
        self.exc = None
        self.approx = ()
        self.loopctx = ()
        self.glob = {}

    def copy(self):
        s = State()
        s.facts = self.facts.copy()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        self.own = set()
        s.ev = self.ev
        s.pred = self.pred
        s.exc = self.exc
        s.approx = self.approx
        s.loopctx = self.loopctx
        s.glob = dict(self.glob)
        return s

    def cont(self, r):
        """writable contents"""
        c = self.mem[r]
        if r not in self.own:
            c = c.copy()
            self.mem[r] = c
            self.own.add(r)
        return c

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


# ---------------------------------------------------------------------------
# preprocessed functions
# ---------------------------------------------------------------------------
class Fn:
    def __init__(self, name, j):
        self.name = name
        self.j = j
        self.args = j['args']
        self.blocks = j['blocks']
        self.dem = j['dem']
        self.base = j['base']
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            t = self.blocks[b]['i'][-1]
            s = []
            if t['op'] == 'br':
                s = [t['t']] + ([t['f']] if 'f' in t else [])
            elif t['op'] == 'switch':
                s = [t['d']] + [x[1] for x in t['cases']]
            elif t['op'] == 'invoke':
                s = [t['t'], t['u']]
            for x in dict.fromkeys(s):
                self.succ[b].append(x)
                self.pred[x].append(b)
        # rpo
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for x in it:
                if not seen[x]:
                    seen[x] = True
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.rpoidx = {b: i for i, b in enumerate(order)}
        self.loops = [tuple(b['loops']) for b in self.blocks]   # innermost first
        self.loopblocks = {}
        for b in range(n):
            for h in self.loops[b]:
                self.loopblocks.setdefault(h, set()).add(b)
        # fix RPO so that loop bodies are contiguous wrt collapsed processing: not needed
        self.live = None

    def region_of(self, b):
        return self.loops[b][0] if self.loops[b] else None

    def chain(self, b):
        return self.loops[b]

    def liveness(self):
        if self.live is not None:
            return self.live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]   # block -> pred -> uses

        def ops(o, acc):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
                    acc.add(o[1])
                else:
                    for x in o:
                        ops(x, acc)
        for b in range(n):
            for ins in self.blocks[b]['i']:
                if ins['op'] == 'phi':
                    for pb, o in ins['in']:
                        acc = set()
                        ops(o, acc)
                        phiuse[b].setdefault(pb, set()).update(acc)
                else:
                    acc = set()
                    for k, v in ins.items():
                        if k in ('op', 'id', 'ty', 'loc', 'oty', 'sty', 'aty'):
                            continue
                        ops(v, acc)
                    use[b] |= acc - de[b]
                if 'id' in ins:
                    de[b].add(ins['id'])
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= livein[s]
                    out |= phiuse[s].get(b, set())
                li = use[b] | (out - de[b])
                # phi defs
                if li != livein[b]:
                    livein[b] = li
                    changed = True
        # values needed on entry incl. phi operands per pred
        self.live = (livein, phiuse)
        return self.live


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        self.decls = j['decls']
        self.globals = j['globals']
        self.funcs = {}
        for n, f in j['funcs'].items():
            self.funcs[n] = f
        self._fn = {}
        # recursion (SCC over direct calls)
        calls = {}
        for n, f in j['funcs'].items():
            cs = set()
            for b in f['blocks']:
                for i in b['i']:
                    if i['op'] in ('call', 'invoke') and i.get('callee') in j['funcs']:
                        cs.add(i['callee'])
            calls[n] = cs
        self.calls = calls
        self.rec = set()
        for n in calls:
            seen = set()
            st = list(calls[n])
            while st:
                x = st.pop()
                if x == n:
                    self.rec.add(n)
                    break
                if x in seen:
                    continue
                seen.add(x)
                st.extend(calls[x])

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = Fn(name, self.funcs[name])
            self._fn[name] = f
        return f

    def base(self, name):
        if name in self.funcs:
            return self.funcs[name]['base']
        if name in self.decls:
            return self.decls[name]['base']
        return name

    def dem(self, name):
        if name in self.funcs:
            return self.funcs[name]['dem']
        if name in self.decls:
            return self.decls[name]['dem']
        return name


def loc_of(ins, want='/repo/'):
    """most specific repo location of an instruction"""
    if not ins:
        return '?'
    l = ins.get('loc')
    if not l:
        return '?'
    for f, line, fn in l:
        if 'zerialize' in f and ('/repo' in f or f.endswith('.hpp')) and '/verif/' not in f:
            return '%s:%d (%s)' % (f.replace('/repo/', ''), line, fn)
    f, line, fn = l[0]
    return '%s:%d (%s)' % (f, line, fn)


def width(ty):
    return int(ty[1:])


def tysize(ty):
    if isinstance(ty, str):
        if ty[0] == 'i' and ty[1:].isdigit():
            return (int(ty[1:]) + 7) // 8
        if ty == 'p':
            return 8
        return {'f32': 4, 'f64': 8, 'f80': 16, 'f16': 2}.get(ty, 0)
    if ty[0] == 'S':
        return ty[2]
    return ty[1] * ty[3]


class Exit:
    __slots__ = ('kind', 'st', 'val', 'ins', 'extra')

    def __init__(self, kind, st, val=None, ins=None, extra=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.ins = ins
        self.extra = extra


class LoopRec:
    """summary of an analysed loop (for event rules)"""
    def __init__(self, fn, hdr, counter):
        self.fn = fn
        self.hdr = hdr
        self.counter = counter
        self.entry = {}
        self.backs = []      # states at back edges (final pass)
        self.inv = []
        self.loc = '?'


class Engine:
    STRCELLS = False        # track the contents of std::string objects as views
    QUOT = False        # quotients by powers of two share one canonical form (see quot)
    JOINAT = 24         # partitions agreeing on values and memory are joined beyond this
    MAXSTATES = 400
    PEEL = 20
    SPLIT = ('tab', 'bitq', 'bitr')     # atoms replaced by their bit fields ('byte' atoms are not: they occur in addresses)
    PEELEXIT = False    # peel also loops with data-dependent exits
    UNROLL = 0
    EXPAND = 0          # compare byte strings of up to this length byte by byte
    PUREREC = False     # remember how a summarised call on read-only bytes ended
    PEELW = 8           # partitions after an iteration beyond which a loop is not peeled further
    UNROLL_WORK = 3000      # blocks after which recursive calls are only summarised

    def __init__(self, mod, hooks=None):
        self.exact_phi = set()
        self.DEPTH = 40
        self.mod = mod
        self.hooks = hooks or {}
        self.regions = {}
        self.addr2reg = {}
        self.obl = {}            # (kind, loc, fn) -> [ok, bad, sample]
        self.quiet = 0
        self.qbase = 0
        self.restart = False
        self.notes = {}
        self.counter = 0
        self.contracts = {}
        self.depth = 0
        self.gives = {}
        self.stats = {'blocks': 0, 'instrs': 0, 'loops': 0, 'partitions': 0, 'calls': 0}
        self.track_uninit = False
        self.entry = None
        self.rec_active = {}
        self.analysed = set()
        self.vecmodel = None
        self.unroll = {}
        self.inloop = 0
        self.ambsrc = {}
        self.deadline = None
        self.check_bounds = True

    # ---------------------------------------------------------------- util
    def fresh(self, kind, lo, hi, tag=None, st=None):
        self.counter += 1
        ctx = st.loopctx if st is not None else ()
        a = T.get(kind, (self.counter, tag) + tuple(ctx), lo, hi)
        return a

    def region(self, name, kind, ro=False):
        r = self.regions.get(name)
        if r is None:
            r = Region(name, kind, ro)
            self.regions[name] = r
            self.addr2reg[r.addr] = r
        return r

    def new_region(self, st, name, kind, size, bottom, ro=False):
        r = self.region(name, kind, ro)
        c = Cont(size, bottom)
        st.mem[name] = c
        st.own.add(name)
        return r

    def ptr(self, name, off=0):
        l = atom(self.regions[name].addr)
        return l + off

    def split_ptr(self, st, p):
        """(region, offset) or None"""
        if not isinstance(p, Lin):
            return None
        for pp in (p, st.facts.norm(p)):
            hit = None
            for a, v in pp.t:
                if T.info[a][0] == 'addr':
                    if v != 1 or hit is not None:
                        hit = None
                        break
                    hit = a
            if hit is not None:
                r = self.addr2reg.get(hit)
                if r is not None:
                    return r, pp.drop(hit)
        return None

    def oblige(self, st, cond_lins, kind, ins, detail=''):
        """every Lin in cond_lins must be provably >= 0.  Records; returns bool."""
        ok = True
        for l in cond_lins:
            if not st.facts.entails_ge(l):
                ok = False
                bad = l
                break
        if self.quiet:
            return ok
        if not ok and st.facts.infeasible():
            return True
        loc = loc_of(ins)
        k = (kind, loc)
        o = self.obl.setdefault(k, [0, 0, None])
        if ok:
            o[0] += 1
        else:
            o[1] += 1
            if o[2] is None:
                o[2] = '%s: cannot show %s >= 0 [%s]' % (detail, show(st.facts.norm(bad)), self.entry)
        return ok

    def note(self, k, ins=None):
        if self.quiet:
            return
        key = (k, loc_of(ins))
        self.notes[key] = self.notes.get(key, 0) + 1

    # ---------------------------------------------------------------- values
    def val(self, st, o, ty=None):
        k = o[0]
        if k == 'v':
            try:
                return st.env[o[1]]
            except KeyError:
                raise Give('undefined value')
        if k == 'i':
            if o[1] == 1:
                return o[2] != '0'
            return Lin(int(o[2]))
        if k == 'null':
            return ZERO
        if k == 'nulloff':
            return Lin(o[1])
        if k == 'undef':
            return UNDEF
        if k == 'f':
            return FV(o[1], ('bits', Lin(int(o[2]))))
        if k == 'fn':
            return atom(T.get('fnaddr', (o[1],), 1, ADDR_MAX))
        if k == 'g':
            return self.global_ptr(st, o[1]) + o[2]
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            return tuple(self.val(st, x) for x in o[2])
        if k == 'p2i':
            return self.val(st, o[1])
        if k == 'md':
            return UNDEF
        raise Give('operand ' + str(o)[:80])

    def zero(self, ty):
        if isinstance(ty, str):
            if ty == 'i1':
                return False
            if ty[0] == 'f':
                return FV(ty, ('bits', ZERO))
            return ZERO
        if ty[0] == 'S':
            return tuple(self.zero(t) for _, t in ty[1])
        return tuple(self.zero(ty[2]) for _ in range(ty[1]))

    def undef_of(self, ty):
        if isinstance(ty, str):
            return UNDEF
        if ty[0] == 'S':
            return tuple(self.undef_of(t) for _, t in ty[1])
        return tuple(self.undef_of(ty[2]) for _ in range(ty[1]))

    def global_ptr(self, st, name):
        r = 'g:' + name
        if r not in self.regions:
            g = self.mod.globals.get(name, {})
            self.region(r, 'global', ro=bool(g.get('const')))
            self.regions[r].meta['g'] = g
        if r not in st.mem:
            g = self.regions[r].meta['g']
            if 'bytes' in g:
                c = Cont(Lin(g['size']), ('const', r) if g.get('const') else ('unk', r))
                if g.get('rel'):
                    d = {}
                    for off, o in g['rel']:
                        if g.get('const'):
                            d[off] = (8, o)   # lazily evaluated operand
                    self.regions[r].meta['rel'] = d
            else:
                c = Cont(Lin(g.get('size', 0) or (1 << 20)), ('unk', r))
            st.mem[r] = c
        return self.ptr(r)

    def as_cond(self, v):
        if v is True or v is False or (isinstance(v, tuple) and v and isinstance(v[0], str)):
            return v
        if isinstance(v, Lin):
            if v.is_const():
                return v.c != 0
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0] in CONDOF:
                return CONDOF[v.t[0][0]]
            return ('ge', v - 1)
        if v is UNDEF:
            return ('ge', atom(self.fresh('undef', 0, 1)) - 1)
        raise Give('cond value %r' % (v,))

    def as_lin(self, st, v, w=64):
        """integer view of a value (cond -> 0/1 atom)"""
        if isinstance(v, Lin):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            if v[0] == 'ge' and len(v[1].t) == 1 and v[1].c == -1 and v[1].t[0][1] == 1:
                a = v[1].t[0][0]
                if T.hi[a] == 1 and T.lo[a] == 0:
                    return atom(a)
            if v[0] == 'ne' and isinstance(v[1], Lin) and len(v[1].t) == 1 and v[1].c == 0 and abs(v[1].t[0][1]) == 1:
                a = v[1].t[0][0]
                if T.hi[a] == 1 and T.lo[a] == 0:
                    return atom(a)
            r = self.decide(st, v)
            if r is not None:
                return ONE if r else ZERO
            return atom(cond_atom(v))
        if v is UNDEF:
            return atom(self.fresh('undef', 0, (1 << w) - 1))
        if isinstance(v, FV):
            return self.fbits(st, v)
        raise Give('not an integer: %r' % (v,))

    def fbits(self, st, v):
        if v.key[0] == 'bits':
            return v.key[1]
        w = {'f32': 32, 'f64': 64}.get(v.ty, 64)
        return atom(T.get('fbits', (v.ty, v.key), 0, (1 << w) - 1))

    def decide(self, st, c):
        """True/False/None by entailment"""
        if c is True or c is False:
            return c
        f = st.facts
        k = c[0]
        if k == 'ge':
            if f.entails_ge(c[1]):
                return True
            if f.entails_ge((-c[1]) - 1):
                return False
            return None
        if k == 'eq' or k == 'ne':
            if f.entails_ne(c[1]):
                return k == 'ne'
            if f.entails_eq(c[1]):
                return k == 'eq'
            return None
        rs = [self.decide(st, x) for x in c[1]]
        if k == 'and':
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None

    def assume(self, st, c):
        """partitions of st satisfying c (st is consumed)"""
        if c is True:
            return [st]
        if c is False:
            return []
        k = c[0]
        f = st.facts
        if k == 'ge':
            if len(c[1].t) <= 2:
                for a, v in c[1].t:
                    if a in CONDOF:
                        # expand condition atoms to their definition
                        return self.assume_b01(st, c, a)
            if f.entails_ge((-c[1]) - 1):
                return []
            f.add_ge(c[1])
            return [] if f.dead else [st]
        if k == 'eq':
            for a, v in c[1].t:
                if a in CONDOF:
                    return self.assume_b01(st, c, a)
            if f.entails_ne(c[1]):
                return []
            f.add_eq(c[1])
            return [] if f.dead or f.infeasible() else [st]
        if k == 'ne':
            for a, v in c[1].t:
                if a in CONDOF:
                    return self.assume_b01(st, c, a)
            if f.entails_eq(c[1]):
                return []
            f.add_ne(c[1])
            return [] if f.dead else [st]
        if k == 'and':
            ss = [st]
            for x in c[1]:
                ns = []
                for s in ss:
                    ns.extend(self.assume(s, x))
                ss = ns
            return ss
        if k == 'or':
            out = []
            cur = [st]
            for i, x in enumerate(c[1]):
                nxt = []
                for s in cur:
                    if i < len(c[1]) - 1:
                        s2 = s.copy()
                        out.extend(self.assume(s, x))
                        nxt.extend(self.assume(s2, c_not(x)))
                    else:
                        out.extend(self.assume(s, x))
                cur = nxt
            return out
        raise Give('assume')

    def assume_b01(self, st, c, a):
        out = []
        k = c[0]
        for v in (1, 0):
            s2 = st.copy()
            d = CONDOF[a]
            for s3 in self.assume(s2, d if v else c_not(d)):
                l = c[1].drop(a) + c[1].coef(a) * v
                s3.facts.set_bound(a, v, v)
                if s3.facts.dead:
                    continue
                out.extend(self.assume(s3, (k, l) if l.t else (l.c >= 0 if k == 'ge' else (l.c == 0) == (k == 'eq'))))
        return out

    # ---------------------------------------------------------------- arithmetic
    def wrap(self, st, s, w):
        """list of (state, lin) with lin == s mod 2^w in [0,2^w)"""
        M = 1 << w
        f = st.facts
        s = f.norm(s)
        lo, hi = f.interval(s)
        if lo is not None and hi is not None:
            klo, khi = lo // M, hi // M
            if klo == khi:
                return [(st, s - klo * M if klo else s)]
        else:
            klo = khi = None
        # try to tighten with entailment
        if f.entails_ge(s):
            klo = 0 if klo is None or klo < 0 else klo
        if f.entails_ge((M - 1) - s if False else (-s) + (M - 1)):
            khi = 0 if khi is None or khi > 0 else khi
        if klo is not None and klo == khi:
            return [(st, s - klo * M if klo else s)]
        if klo is not None and khi is not None and khi - klo <= 1:
            out = []
            for k in range(klo, khi + 1):
                s2 = st.copy()
                for s3 in self.assume(s2, c_and(c_ge(s - k * M), c_ge((-s) + ((k + 1) * M - 1)))):
                    out.append((s3, s - k * M))
            return out
        if self.QUOT:
            return [(st, f.norm(s - self.quot(st, s, w).scale(M)))]
        q = T.get('wrap', (s, w), None, None)       # atom bounds are global: this partition's go into its own facts
        f.set_bound(q, klo, khi)
        r = s - atom(q, M)
        f.add_ge(r)
        f.add_ge((-r) + (M - 1))
        return [(st, r)]

    def wrap1(self, st, s, w):
        """deterministic wrap (no partitioning)"""
        M = 1 << w
        f = st.facts
        s = f.norm(s)
        lo, hi = f.interval(s)
        if lo is not None and hi is not None and lo // M == hi // M:
            k = lo // M
            return s - k * M
        if f.entails_ge(s) and f.entails_ge((-s) + (M - 1)):
            return s
        if self.QUOT:
            return f.norm(s - self.quot(st, s, w).scale(M))
        q = T.get('wrap', (s, w), None, None)
        f.set_bound(q, None if lo is None else lo // M, None if hi is None else hi // M)
        r = s - atom(q, M)
        f.add_ge(r)
        f.add_ge((-r) + (M - 1))
        return r

    def signed(self, st, l, w):
        """list of (state, signed lin)"""
        H = 1 << (w - 1)
        M = 1 << w
        f = st.facts
        lo, hi = f.interval(f.norm(l))
        if hi is not None and hi < H:
            return [(st, l)]
        if lo is not None and lo >= H:
            return [(st, l - M)]
        if f.entails_ge((-l) + (H - 1)):
            return [(st, l)]
        if f.entails_ge(l - H):
            return [(st, l - M)]
        out = []
        s2 = st.copy()
        for s in self.assume(st, c_ge((-l) + (H - 1))):
            out.append((s, l))
        for s in self.assume(s2, c_ge(l - H)):
            out.append((s, l - M))
        return out

    def div2k(self, st, l, k):
        """floor(l / 2^k) for l >= 0, deterministic"""
        if k == 0:
            return l
        f = st.facts
        K = 1 << k
        l = f.norm(l)
        if not self.QUOT and self.fields(f, l) and self.bitsplit(st, l, k):
            l = f.norm(l)
        for attempt in range(3):
            if l.is_const():
                return Lin(l.c >> k)
            hi = []
            lo = []
            for a, v in l.t:
                (hi if v % K == 0 else lo).append((a, v))
            cl = l.c % K
            ch = (l.c - cl) // K
            lopart = Lin(cl, tuple(lo))
            # move multiples of K out of the coefficients when the low atoms allow it
            x, y = f.interval(lopart)
            if x is not None and y is not None and x // K == y // K:
                return Lin(ch + x // K, tuple((a, v // K) for a, v in hi))
            if x is not None and y is not None and f.entails_ge(lopart) and f.entails_ge((-lopart) + (K - 1)):
                return Lin(ch, tuple((a, v // K) for a, v in hi))
            if self.QUOT:
                return f.norm(self.quot(st, l, k))
            if attempt == 0:
                if not self.bytesplit(st, lopart, k):
                    break
                l = f.norm(l)
            elif attempt == 1:
                l = f.norm(l)
                if not self.bitsplit(st, l, k):
                    break
                l = f.norm(l)
        q = T.get('div', (l, K), None, None)
        x, y = f.interval(l)
        f.set_bound(q, None if x is None else x // K, None if y is None else y // K)
        f.add_ge(l - atom(q, K))
        f.add_ge(atom(q, K) - l + (K - 1))
        return f.norm(atom(q))

    def quot(self, st, l, k):
        """floor(l / 2^k) in canonical form: multiples of 2^k leave the quotient, common powers of
        two cancel, quotients of quotients merge; so the pieces of a number add up to it again"""
        f = st.facts
        l = f.norm(l)
        K = 1 << k
        rem = lambda v, m: (v + m // 2 - 1) % m - (m // 2 - 1)     # balanced remainder
        h = Lin((l.c - l.c % K) // K, tuple((a, (v - rem(v, K)) // K) for a, v in l.t if v != rem(v, K)))
        lo = Lin(l.c % K, tuple((a, rem(v, K)) for a, v in l.t if v % K))
        x, y = f.interval(lo)
        if x is not None and y is not None and x // K == y // K:
            return h + x // K
        if f.entails_ge(lo) and f.entails_ge((-lo) + (K - 1)):
            return h
        g = self.tz(Lin(0, lo.t))
        if g:       # floor((2^g y + c) / 2^k) = floor((y + floor(c / 2^g)) / 2^(k-g))
            lo = Lin(lo.c >> g, tuple((a, v >> g) for a, v in lo.t))
            k -= g
            K = 1 << k
        for g in sorted({(v & -v).bit_length() - 1 for _, v in lo.t}, reverse=True):
            if not 0 < g < k:
                continue
            G = 1 << g      # floor((A + 2^g B) / 2^k) = floor(B / 2^(k-g)) for 0 <= A < 2^g
            A = Lin(lo.c % G, tuple((a, rem(v, G)) for a, v in lo.t if v % G))
            x, y = f.interval(A)
            if (x is not None and y is not None and x // G == y // G) or (x is not None and y is not None and f.entails_ge(A) and f.entails_ge((-A) + (G - 1))):
                m = x // G if x // G == y // G else 0
                B = Lin(lo.c // G + m, tuple((a, (v - rem(v, G)) // G) for a, v in lo.t if v != rem(v, G)))
                return h + self.quot(st, B, k - g)
        if len(lo.t) == 1 and lo.t[0][1] == 1 and lo.c == 0 and T.info[lo.t[0][0]][0] == 'div':
            base, d = T.info[lo.t[0][0]][1]
            if d & (d - 1) == 0:
                nb = f.norm(base)
                if nb == base:
                    return h + self.quot(st, base, k + d.bit_length() - 1)
        q = T.get('div', (lo, K), None, None)
        x, y = f.interval(lo)
        f.set_bound(q, None if x is None else x // K, None if y is None else y // K)
        f.add_ge(lo - atom(q, K))
        f.add_ge(atom(q, K) - lo + (K - 1))
        for k2 in range(1, 64):     # digits between two quotients of the same number
            K2 = 1 << k2
            q2 = T.key2id.get(('div', (lo, K2)))
            if q2 is None or K2 == K or q2 not in f.bd:
                continue
            s, b, m = (q2, q, K // K2) if K2 < K else (q, q2, K2 // K)
            f.add_ge(atom(s) - atom(b, m))
            f.add_ge(atom(b, m) - atom(s) + (m - 1))
        return h + f.norm(atom(q))

    def fields(self, f, l):
        """a sum of non-overlapping bit fields"""
        if l.c < 0:
            return False
        acc = l.c
        for a, v in sorted(l.t, key=lambda t: t[1]):
            if v <= 0 or v & (v - 1):
                return False
            lo, hi = f.abounds(a)
            if lo is None or hi is None or lo < 0 or acc >= v:
                return False
            acc += v * hi
        return True

    def bytesplit(self, st, lo, k):
        """introduce byte decomposition of a low part so that it splits at bit k"""
        f = st.facts
        x, y = f.interval(lo)
        if x is None or y is None or x < 0 or y < 256 or y >= M64:
            return len(lo.t) == 1
        n = 1
        while (1 << (8 * n)) <= y:
            n += 1
        g = 0
        if len(lo.t) == 1 and lo.t[0][1] == 1 and lo.c == 0:
            base = lo
        else:
            # whole-value decomposition
            base = lo
        e = ZERO
        for i in range(n):
            h = 255 if i < n - 1 else y >> (8 * i)
            e = e + atom(T.get('byteof', (base, i), 0, 255), 1 << (8 * i))
        f.add_eq(base - e)
        return True

    def bitsplit(self, st, l, k):
        """split a single byte-sized atom crossing bit k"""
        f = st.facts
        K = 1 << k
        # find the atom whose contribution crosses bit k
        for a, v in l.t:
            if v <= 0 or v % K == 0:
                continue
            # v is a power of two?
            if v & (v - 1):
                continue
            lo, hi = f.abounds(a)
            if lo is None or hi is None or lo < 0 or hi > 0xffffffffffffffff:
                continue
            if v * hi >= K:
                j = k - (v.bit_length() - 1)
                q = T.get('bitq', (a, j), None, None)
                f.set_bound(q, lo >> j, hi >> j)
                r = T.get('bitr', (a, j), 0, (1 << j) - 1)
                if T.info[a][0] in self.SPLIT and a not in f.eq:
                    f.set_eq(a, atom(q, 1 << j) + atom(r))      # the fields replace the atom
                else:
                    f.add_eq(atom(a) - atom(q, 1 << j) - atom(r))
                return True
        return False

    def bits(self, st, l, i, j):
        """(l >> i) mod 2^(j-i)"""
        q = self.div2k(st, l, i)
        h = self.div2k(st, q, j - i)
        # re-normalise q: div2k may have introduced definitions
        q = st.facts.norm(q)
        return st.facts.norm(q - h.scale(1 << (j - i)))

    def and_const(self, st, l, c, w):
        f = st.facts
        full = (1 << w) - 1
        c &= full
        if c == 0:
            return ZERO
        lo, hi = f.interval(f.norm(l))
        if c == full:
            return l
        res = ZERO
        i = 0
        top = w
        if hi is not None:
            top = max(hi.bit_length(), 0)
        while i < w:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while j < w and (c >> j) & 1:
                j += 1
            if i >= top:
                break
            if j >= top:
                res = res + self.div2k(st, l, i).scale(1 << i)
            else:
                res = res + self.bits(st, l, i, j).scale(1 << i)
            i = j
        return f.norm(res)

    def trunc(self, st, l, w):
        """l mod 2^w for l>=0 (deterministic)"""
        f = st.facts
        l = f.norm(l)
        M = 1 << w
        lo, hi = f.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return l
        t = tuple((a, v) for a, v in l.t if v % M)
        r = Lin(l.c % M, t)
        lo, hi = f.interval(r)
        if lo is not None and hi is not None and lo // M == hi // M:
            return r - (lo // M) * M
        if f.entails_ge(r) and f.entails_ge((-r) + (M - 1)):
            return r
        lo, hi = f.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << 128):
            h = self.div2k(st, l, w)
            return f.norm(f.norm(l) - h.scale(M))
        return self.wrap1(st, r, w)

    def tz(self, l):
        """largest k such that 2^k divides every coefficient and the constant"""
        k = 64
        for v in [l.c] + [v for _, v in l.t]:
            if v:
                k = min(k, (v & -v).bit_length() - 1)
        return k

    def bitor(self, st, a, b, w):
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        for x, y in ((a, b), (b, a)):
            if x.is_const() and x.c == 0:
                return y
            k = self.tz(x)
            lo, hi = f.interval(y)
            if lo is not None and hi is not None and lo >= 0 and hi < (1 << k):
                return x + y
            if (self.QUOT or self.PUREREC) and k and f.entails_ge(y) and f.entails_ge((-y) + ((1 << k) - 1)):
                return x + y
        for x, y in ((a, b), (b, a)):
            if y.is_const():
                return f.norm(x) + y.c - self.and_const(st, x, y.c, w)
        # interleaved digits: per-bit-range disjointness on the union of terms
        if self.disjoint_terms(f, a, b):
            return a + b
        z = atom(T.get('and', tuple(sorted((a, b), key=lambda q: hash(q))), 0, (1 << w) - 1))
        f.add_ge(a - z)
        f.add_ge(b - z)
        return a + b - z

    def disjoint_terms(self, f, a, b):
        m = 0
        for l in (a, b):
            if l.c < 0:
                return False
            ml = l.c
            for x, v in l.t:
                if v <= 0 or v & (v - 1):
                    return False
                lo, hi = f.abounds(x)
                if lo is None or lo < 0 or hi is None:
                    return False
                mask = ((1 << hi.bit_length()) - 1) * v
                if mask & ml:
                    return False
                ml |= mask
            if ml & m:
                return False
            m |= ml
        return True

    def udiv(self, st, a, b):
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        if b.is_const() and b.c > 0:
            d = b.c
            if d & (d - 1) == 0:
                return self.div2k(st, a, d.bit_length() - 1)
            if a.is_const():
                return Lin(a.c // d)
            if a.c % d == 0 and all(v % d == 0 for _, v in a.t):
                return Lin(a.c // d, tuple((x, v // d) for x, v in a.t))
            q = T.get('div', (a, d), None, None)
            lo, hi = f.interval(a)
            f.set_bound(q, None if lo is None else lo // d, None if hi is None else hi // d)
            f.add_ge(a - atom(q, d))
            f.add_ge(atom(q, d) - a + (d - 1))
            return f.norm(atom(q))
        if a == b and f.entails_ge(a - 1):
            return ONE
        lo, hi = f.interval(a)
        q = T.get('vdiv', (a, b), 0, None)
        f.set_bound(q, 0, hi)
        f.add_ge(a - atom(q))
        return atom(q)

    def urem(self, st, a, b):
        f = st.facts
        b = f.norm(b)
        if b.is_const() and b.c > 0:
            q = self.udiv(st, a, b)
            return f.norm(f.norm(a) - q.scale(b.c))
        a = f.norm(a)
        lo, hi = f.interval(a)
        r = atom(T.get('vrem', (a, b), 0, None))
        f.add_ge(a - r)
        f.add_ge(b - r - 1)
        return r

    def mul(self, st, a, b, w):
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        if a.is_const():
            return self.wrap(st, b.scale(a.c), w)
        if b.is_const():
            return self.wrap(st, a.scale(b.c), w)
        p = self.prod(st, a, b)
        return self.wrap(st, p, w)

    def prod(self, st, a, b):
        f = st.facts
        la, ha = f.interval(a)
        lb, hb = f.interval(b)
        hi = None if ha is None or hb is None else ha * hb
        key = tuple(sorted(self.factors(a) + self.factors(b), key=lambda l: (l.c, l.t)))
        m = T.get('mul', key, 0, None)
        if la is not None and lb is not None and la >= 0 and lb >= 0:
            f.set_bound(m, la * lb, hi)
            # division facts:  a <= floor(C/b)  =>  a*b <= C
            for x, y in ((a, b), (b, a)):
                for q, arg in self.vdivs(f, y):
                    if f.entails_ge(atom(q) - x):
                        f.add_ge(arg - atom(m))
                    elif f.entails_ge(x - atom(q) - 1):     # a > floor(C/b)  =>  a*b > C
                        f.add_ge(atom(m) - arg - 1)
            if lb >= 1:
                f.add_ge(atom(m) - a)
            if la >= 1:
                f.add_ge(atom(m) - b)
        return f.norm(atom(m))

    def factors(self, l):
        if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and T.info[l.t[0][0]][0] == 'mul':
            return T.info[l.t[0][0]][1]
        return (l,)

    def vdivs(self, f, y):
        out = []
        for (k, args), i in list(T.key2id.items()):
            if k == 'vdiv' and f.norm(args[1]) == y:
                out.append((i, args[0]))
        return out

    # ---------------------------------------------------------------- memory access
    def check_access(self, st, r, off, n, ins, what):
        """bounds obligation for n (Lin) bytes at off in region r"""
        c = st.mem.get(r.name)
        if c is None:
            raise Give('dangling region %s' % r.name, ins)
        if not c.alive:
            self.oblige(st, [Lin(-1)], 'lifetime', ins, '%s of dead object %s' % (what, r.name))
            return
        if r.kind == 'opaque' or not self.check_bounds:
            return
        self.oblige(st, [off, c.size - off - n], 'bounds', ins, '%s of %s bytes at %s in %s (size %s)' % (
            what, show(n), show(off), r.name, show(c.size)))

    def resolve(self, st, p, ins, what):
        rp = self.split_ptr(st, p)
        if rp is None:
            if isinstance(p, Lin) and p.is_const():
                if not st.facts.infeasible():
                    self.oblige(st, [Lin(-1)], 'nullderef', ins, '%s through null/constant pointer' % what)
                raise Give('null pointer access', ins)
            rp = self.opaque_target(st, p) if isinstance(p, Lin) else None
            if rp is None:
                raise Give('unresolved pointer %s' % (show(p) if isinstance(p, Lin) else p), ins)
        return rp

    def opaque_target(self, st, p):
        """an opaque pointer value (result of an unmodelled call): its own region"""
        pp = st.facts.norm(p)
        for a, v in pp.t:
            if v == 1 and T.info[a][0] in ('ret', 'ld', 'optr', 'sym'):
                name = 'o:%d' % a
                r = self.regions.get(name)
                if r is None:
                    r = self.region(name, 'opaque')
                if name not in st.mem:
                    st.mem[name] = Cont(Lin(1 << 40), ('unk', name))
                return r, pp.drop(a)
        return None

    def load(self, st, p, ty, ins=None):
        r, off = self.resolve(st, p, ins, 'load')
        n = tysize(ty)
        self.check_access(st, r, off, Lin(n), ins, 'load')
        return self.read(st, r.name, off, ty, ins)

    def read(self, st, rn, off, ty, ins=None):
        if not isinstance(ty, str):
            if ty[0] == 'S':
                return tuple(self.read(st, rn, off + o, t, ins) for o, t in ty[1])
            return tuple(self.read(st, rn, off + i * ty[3], ty[2], ins) for i in range(ty[1]))
        c = st.mem[rn]
        off = st.facts.norm(off)
        return self.read_cont(st, rn, c, off, ty, ins)

    def read_cont(self, st, rn, c, off, ty, ins=None, top=None):
        n = tysize(ty)
        f = st.facts
        i = len(c.layers) if top is None else top
        while i > 0:
            i -= 1
            L = c.layers[i]
            if isinstance(L, dict):
                if off.is_const():
                    e = L.get(off.c)
                    if e is not None and e[0] == n:
                        return self.retype(st, e[1], ty)
                    # overlapping cells?
                    ov = False
                    for o, (sz, v) in L.items():
                        if o < off.c + n and off.c < o + sz:
                            ov = True
                            break
                    if not ov:
                        continue
                    return self.read_bytes(st, rn, c, off, ty, ins, i + 1)
                else:
                    amb = False
                    for o, (sz, v) in L.items():
                        d = off - o
                        if sz == n and f.entails_eq(d):
                            return self.retype(st, v, ty)
                        if f.entails_ge(d - sz) or f.entails_ge((-d) - n):
                            continue
                        amb = True
                        break
                    if amb:
                        if n > 1:
                            return self.read_bytes(st, rn, c, off, ty, ins, i + 1)
                        return self.ambiguous(st, rn, off, ty, c)
                    continue
            kind = L[0]
            if kind == 'cell':      # symbolic offset cell
                _, o, sz, v = L
                d = f.norm(off - o)
                if sz == n and f.entails_eq(d):
                    return self.retype(st, v, ty)
                if f.entails_ge(d - sz) or f.entails_ge((-d) - n):
                    continue
                if n > 1 and d.is_const():
                    return self.read_bytes(st, rn, c, off, ty, ins, i + 1)
                if n == 1 and d.is_const() and 0 <= d.c < sz:
                    return self.slice(st, v, d.c, 1, sz)
                return self.ambiguous(st, rn, off, ty, c)
            if kind == 'range':
                _, start, ln, src = L
                d = f.norm(off - start)
                if f.entails_ge(d) and f.entails_ge(ln - d - n):
                    return self.read_src(st, src, d, ty, ins)
                if f.entails_ge((-d) - n) or f.entails_ge(d - ln):
                    continue
                if n > 1:
                    return self.read_bytes(st, rn, c, off, ty, ins, i + 1)
                return self.ambiguous(st, rn, off, ty, c)
        b = c.bottom
        if b[0] == 'bytes':
            if ty == 'p' or n > 16:
                return atom(T.get('ld', (b[1], off, ty), 0, ADDR_MAX))
            e = ZERO
            for k in range(n):
                e = e + atom(self.byte_atom(f, b[1], off + k), 1 << (8 * k))
            return self.retype(st, f.norm(e), ty)
        if b[0] == 'zero':
            return self.zero(ty)
        if b[0] == 'fill':
            e = ZERO
            for k in range(n):
                e = e + b[1].scale(1 << (8 * k))
            return self.retype(st, e, ty)
        if b[0] == 'const':
            g = self.regions[b[1]].meta['g']
            if off.is_const():
                rel = self.regions[b[1]].meta.get('rel')
                if rel and off.c in rel and ty == 'p':
                    return self.val(st, rel[off.c][1])
                bs = g['bytes'][off.c:off.c + n]
                if len(bs) == n:
                    e = sum(x << (8 * k) for k, x in enumerate(bs))
                    return self.retype(st, Lin(e), ty)
            if n == 1:
                return self.table_lookup(st, b[1], g, off)
            return atom(T.get('tab', (b[1], off, ty), 0, (1 << (8 * n)) - 1)) if ty[0] != 'f' else FV(ty, ('tab', b[1], off))
        if b[0] == 'uninit':
            if self.track_uninit:
                self.oblige(st, [Lin(-1)], 'uninit', ins, 'load of uninitialised %s at %s' % (rn, show(off)))
            return UNDEF
        # unknown contents
        if rn.endswith('__libc_single_threaded'):
            return atom(T.get('sym', ('single_threaded',), 0, 1))
        if ty == 'p':
            return atom(T.get('ld', (b[1], off, 'p'), 0, ADDR_MAX))
        if ty[0] == 'f':
            return FV(ty, ('ld', b[1], off))
        if ty == 'i1':
            return ('ge', atom(T.get('ld', (b[1], off, ty), 0, 1)) - 1)
        w = width(ty)
        return atom(T.get('ld', (b[1], off, ty), 0, (1 << w) - 1))

    def table_lookup(self, st, name, g, off):
        bs = g['bytes']
        lo, hi = st.facts.interval(off)
        if lo is not None and hi is not None and lo >= 0 and hi < len(bs):
            vals = bs[lo:hi + 1]
            a = T.get('tab', (bytes(bs), off, 'i8'), 0, 255)
            st.facts.set_bound(a, min(vals), max(vals))
            return st.facts.norm(atom(a))
        return atom(T.get('tab', (bytes(bs), off, 'i8'), 0, 255))

    def byte_atom(self, f, src, off):
        """the atom of a byte of an input; an offset that became equal to an earlier one names the same byte"""
        a = T.get('byte', (src, off), 0, 255)
        if a in f.eq or a in f.bd:
            return a
        if any(v.t and T.info[q][0] == 'byte' for q, v in f.eq.items()):
            for q in (*f.eq, *f.bd):
                if T.info[q][0] == 'byte':
                    s, o = T.info[q][1]
                    if s == src and q != a and f.norm(o) == off:
                        return q
        return a

    def ambiguous(self, st, rn, off, ty, c):
        n = tysize(ty)
        self.counter += 1
        if not self.inloop:
            self.ambsrc[self.counter] = c.copy()        # lets a concrete member be evaluated
        if ty[0] == 'f':
            return FV(ty, ('amb', self.counter))
        if ty == 'i1':
            return ('ge', atom(T.get('amb', (rn, off, self.counter), 0, 1)) - 1)
        return atom(T.get('amb', (rn, off, self.counter), 0, (1 << (8 * n)) - 1))

    def read_bytes(self, st, rn, c, off, ty, ins, top):
        n = tysize(ty)
        if n == 1:
            if off.is_const():
                L = c.layers[top - 1]
                if isinstance(L, dict):
                    for o, (sz, v) in L.items():
                        if o <= off.c < o + sz:
                            return self.retype(st, self.slice(st, v, off.c - o, 1, sz), ty)
            return self.ambiguous(st, rn, off, ty, c)
        e = ZERO
        # a pointer/float cell read whole from a wider aggregate is handled by retype
        for k in range(n):
            b = self.read_cont(st, rn, c, st.facts.norm(off + k), 'i8', ins, top)
            b = self.as_lin(st, b, 8)
            e = e + b.scale(1 << (8 * k))
        return self.retype(st, st.facts.norm(e), ty)

    def slice(self, st, v, i, n, sz):
        """bytes [i,i+n) of a stored value of sz bytes, as Lin"""
        if isinstance(v, FV):
            v = self.fbits(st, v)
        if v is UNDEF:
            return UNDEF
        l = self.as_lin(st, v, 8 * sz)
        for a, k in l.t:
            if T.info[a][0] in ('addr', 'fnaddr'):
                return atom(T.get('psl', (l, i, n), 0, (1 << (8 * n)) - 1))
        if n == sz:
            return l
        return self.bits(st, l, 8 * i, 8 * (i + n))

    def read_src(self, st, src, d, ty, ins):
        k = src[0]
        if k == 'copy':
            _, rn, cont, soff = src
            return self.read_cont(st, rn, cont, st.facts.norm(soff + d), ty, ins)
        if k == 'fill':
            n = tysize(ty)
            e = ZERO
            for i in range(n):
                e = e + src[1].scale(1 << (8 * i))
            return self.retype(st, e, ty)
        if k == 'unk':
            n = tysize(ty)
            if ty[0] == 'f':
                return FV(ty, ('ld', src[1], d))
            return self.retype(st, atom(T.get('ld', (src[1], d, ty), 0, (1 << (8 * n)) - 1)), ty)
        raise Give('src ' + k)

    def retype(self, st, v, ty):
        if v is UNDEF:
            return v
        if ty[0] == 'f':
            if isinstance(v, FV):
                return v
            return FV(ty, ('bits', self.as_lin(st, v)))
        if isinstance(v, FV):
            return self.fbits(st, v)
        if ty == 'i1':
            return self.as_cond(v)
        if isinstance(v, (bool, tuple)):
            return self.as_lin(st, v)
        return v

    def store(self, st, p, v, ty, ins=None):
        r, off = self.resolve(st, p, ins, 'store')
        if not isinstance(ty, str):
            if v is UNDEF:
                return
            if ty[0] == 'S':
                for (o, t), x in zip(ty[1], v):
                    self.store(st, p + o, x, t, ins)
            else:
                for i, x in enumerate(v):
                    self.store(st, p + i * ty[3], x, ty[2], ins)
            return
        n = tysize(ty)
        if r.ro:
            self.oblige(st, [Lin(-1)], 'rostore', ins, 'store into read-only region %s' % r.name)
            return
        self.check_access(st, r, off, Lin(n), ins, 'store')
        self.write(st, r.name, off, v, ty, n)

    def write(self, st, rn, off, v, ty, n):
        if isinstance(v, (bool,)) or (isinstance(v, tuple) and ty == 'i1'):
            v = self.as_lin(st, v, 8)
        c = st.cont(rn)
        off = st.facts.norm(off)
        if isinstance(v, Lin):
            v = st.facts.norm(v)
        if c.objs and off.is_const():
            for o in [o for o in c.objs if o == off.c]:
                del c.objs[o]
        if off.is_const():
            if not c.layers or not isinstance(c.layers[-1], dict):
                c.layers.append({})
            L = c.layers[-1]
            for o in [o for o, (sz, _) in L.items() if o < off.c + n and off.c < o + sz and (o, sz) != (off.c, n)]:
                sz, ov = L.pop(o)
                # keep the non-overwritten bytes
                for k in range(sz):
                    if not (off.c <= o + k < off.c + n):
                        L[o + k] = (1, self.slice(st, ov, k, 1, sz))
            L[off.c] = (n, v)
        else:
            c.layers.append(('cell', off, n, v))
            if len(c.layers) > 200:
                raise Give('too many symbolic stores')

    def write_range(self, st, rn, off, ln, src):
        c = st.cont(rn)
        off = st.facts.norm(off)
        ln = st.facts.norm(ln)
        if ln.is_const() and ln.c == 0:
            return
        c.layers.append(('range', off, ln, src))

    def memcpy(self, st, d, s, n, ins, what='memcpy'):
        n = st.facts.norm(n)
        if n.is_const() and n.c == 0:
            return
        # zero-length copies touch nothing: obligations hold vacuously under n >= 1
        chk = st
        if not st.facts.entails_ge(n - 1):
            if st.facts.entails_eq(n):
                return
            chk = st.copy()
            chk.facts.add_ge(n - 1)
            if chk.facts.dead:
                return
        rd, od = self.resolve(st, d, ins, what)
        if rd.ro:
            self.oblige(chk, [Lin(-1)], 'rostore', ins, '%s into read-only region %s' % (what, rd.name))
            return
        rs, os = self.resolve(st, s, ins, what)
        self.check_access(chk, rd, od, n, ins, what + ' destination')
        self.check_access(chk, rs, os, n, ins, what + ' source')
        self.copy_bytes(st, rd.name, od, rs.name, os, n)

    def copy_bytes(self, st, rd, od, rs, os, n):
        od = st.facts.norm(od)
        os = st.facts.norm(os)
        sc = st.mem[rs]
        if n.is_const() and n.c <= 512 and os.is_const() and sc.bottom[0] != 'bytes':
            # cell-wise
            cells = self.flat_cells(sc, os.c, n.c)
            if cells is not None:
                objs = {o: v for o, v in sc.objs.items() if os.c <= o < os.c + n.c}
                for o, sz, v in cells:
                    self.write(st, rd, od + (o - os.c), v, 'i%d' % (8 * sz), sz)
                if objs and od.is_const():
                    c = st.cont(rd)
                    for o, v in objs.items():
                        c.objs[od.c + o - os.c] = v
                return
        snap = sc.copy()
        self.write_range(st, rd, od, n, ('copy', rs, snap, os))

    def flat_cells(self, c, off, n):
        """cells covering [off,off+n) if the content there is only const cells over uninit/zero"""
        if c.bottom[0] not in ('uninit', 'zero'):
            # need full coverage by cells
            pass
        cov = {}
        for L in c.layers:
            if not isinstance(L, dict):
                return None
            for o, (sz, v) in L.items():
                if o < off + n and off < o + sz:
                    if o < off or o + sz > off + n:
                        return None
                    for k in [k for k, (s2, _) in cov.items() if k < o + sz and o < k + s2]:
                        if k >= o and k + cov[k][0] <= o + sz:
                            del cov[k]
                        else:
                            return None
                    cov[o] = (sz, v)
        out = []
        pos = off
        for o in sorted(cov):
            if o > pos:
                out.append((pos, o - pos, None))
            out.append((o, cov[o][0], cov[o][1]))
            pos = o + cov[o][0]
        if pos < off + n:
            out.append((pos, off + n - pos, None))
        res = []
        for o, sz, v in out:
            if v is None:
                if c.bottom[0] == 'uninit':
                    continue
                if c.bottom[0] == 'zero':
                    for k in range(sz):
                        res.append((o + k, 1, ZERO))
                    continue
                return None
            res.append((o, sz, v))
        return res

    def memset(self, st, d, b, n, ins):
        n = st.facts.norm(n)
        if n.is_const() and n.c == 0:
            return
        rd, od = self.resolve(st, d, ins, 'memset')
        self.check_access(st, rd, od, n, ins, 'memset')
        b = self.as_lin(st, b, 8)
        od = st.facts.norm(od)
        if n.is_const() and n.c <= 64 and od.is_const():
            for k in range(n.c):
                self.write(st, rd.name, od + k, b, 'i8', 1)
        else:
            self.write_range(st, rd.name, od, n, ('fill', b))

    # ---------------------------------------------------------------- instructions
    def icmp(self, st, pred, a, b, oty):
        """list of (state, cond)"""
        if oty == 'i1':
            ca, cb = self.as_cond(a), self.as_cond(b)
            if pred in ('eq', 'ne'):
                if cb is True or cb is False:
                    c = ca if cb else c_not(ca)
                elif ca is True or ca is False:
                    c = cb if ca else c_not(cb)
                else:
                    c = c_or(c_and(ca, cb), c_and(c_not(ca), c_not(cb)))
                return [(st, c if pred == 'eq' else c_not(c))]
            a = self.as_lin(st, ca)
            b = self.as_lin(st, cb)
        w = 64 if oty == 'p' else width(oty)
        a = self.as_lin(st, a, w)
        b = self.as_lin(st, b, w)
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        # condition atoms: resolve back
        d = a - b
        if len(d.t) == 1 and d.t[0][0] in CONDOF:
            at, v = d.t[0]
            cc = CONDOF[at]
            r1 = self.cmp_const(pred, a, b, at, 1, w)
            r0 = self.cmp_const(pred, a, b, at, 0, w)
            if r1 and r0:
                return [(st, True)]
            if not r1 and not r0:
                return [(st, False)]
            return [(st, cc if r1 else c_not(cc))]
        if oty == 'p':
            ra = self.addr_of(a)
            rb = self.addr_of(b)
            if ra is not None and rb is not None and ra != rb and pred in ('eq', 'ne'):
                return [(st, pred == 'ne')]
            if pred in ('eq', 'ne') and ((ra is not None and b == ZERO) or (rb is not None and a == ZERO)):
                # a live object's address is never null (offsets stay inside)
                return [(st, pred == 'ne')]
        if pred == 'eq':
            return [(st, c_eq(d))]
        if pred == 'ne':
            return [(st, c_ne(d))]
        if pred == 'ult':
            return [(st, c_ge((-d) - 1))]
        if pred == 'ule':
            return [(st, c_ge(-d))]
        if pred == 'ugt':
            return [(st, c_ge(d - 1))]
        if pred == 'uge':
            return [(st, c_ge(d))]
        # signed
        H = 1 << (w - 1)
        M = 1 << w
        if pred in ('sgt', 'sge'):
            a, b = b, a
            pred = {'sgt': 'slt', 'sge': 'sle'}[pred]
        # a < b (signed) / a <= b
        def sge_const(x, c):        # signed x >= c
            if c <= -H:
                return True
            if c > H - 1:
                return False
            if c >= 0:
                return c_and(c_ge(x - c), c_ge((-x) + (H - 1)))
            return c_or(c_ge((-x) + (H - 1)), c_ge(x - (M + c)))
        if b.is_const():
            c = b.c - M if b.c >= H else b.c
            lim = c if pred == 'slt' else c + 1
            return [(st, c_not(sge_const(a, lim)))]
        if a.is_const():
            c = a.c - M if a.c >= H else a.c
            lim = c + 1 if pred == 'slt' else c
            return [(st, sge_const(b, lim))]
        out = []
        for s1, sa in self.signed(st, a, w):
            for s2, sb in self.signed(s1, b, w):
                d = sb - sa
                out.append((s2, c_ge(d - 1) if pred == 'slt' else c_ge(d)))
        return out

    def addr_of(self, l):
        hit = None
        for a, v in l.t:
            if T.info[a][0] in ('addr', 'fnaddr'):
                if v != 1 or hit is not None:
                    return None
                hit = a
        return hit

    def cmp_const(self, pred, a, b, at, v, w):
        x = (a.drop(at) + a.coef(at) * v)
        y = (b.drop(at) + b.coef(at) * v)
        if x.t or y.t:
            raise Give('cmp_const')
        x, y = x.c, y.c
        if pred[0] == 's':
            H = 1 << (w - 1)
            x = x - (1 << w) if x >= H else x
            y = y - (1 << w) if y >= H else y
            pred = 'u' + pred[1:]
        return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]

    def exec_instr(self, F, st, ins):
        """list of states"""
        op = ins['op']
        self.stats['instrs'] += 1
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Give('instruction ' + op, ins)
        return m(F, st, ins)

    def setv(self, st, ins, v):
        st.env[ins['id']] = v
        return [st]

    def binop(self, st, ins, w, fn):
        pass

    def ops2(self, st, ins):
        w = width(ins['ty'])
        a = self.as_lin(st, self.val(st, ins['ops'][0]), w)
        b = self.as_lin(st, self.val(st, ins['ops'][1]), w)
        return a, b, w

    def isvec(self, ins):
        return not isinstance(ins['ty'], str)

    def i_add(self, F, st, ins):
        if self.isvec(ins):
            return self.vecop(F, st, ins)
        a, b, w = self.ops2(st, ins)
        out = []
        if b.is_const() and b.c >= (1 << (w - 1)):
            b = b - (1 << w)        # x + (-c)
        for s, l in self.wrap(st, a + b, w):
            out += self.setv(s, ins, l)
        return out

    def i_sub(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        out = []
        for s, l in self.wrap(st, a - b, w):
            out += self.setv(s, ins, l)
        return out

    def i_mul(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        out = []
        for s, l in self.mul(st, a, b, w):
            out += self.setv(s, ins, l)
        return out

    def i_udiv(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        self.div_ob(st, b, ins)
        return self.setv(st, ins, self.udiv(st, a, b))

    def i_urem(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        self.div_ob(st, b, ins)
        return self.setv(st, ins, self.urem(st, a, b))

    def div_ob(self, st, b, ins):
        self.oblige(st, [b - 1], 'divzero', ins, 'division by zero')
        st.facts.add_ge(b - 1)

    def i_sdiv(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        out = []
        if not b.is_const() or b.c >= 1 << (w - 1) or b.c == 0:
            if not b.is_const():        # both non-negative: as unsigned
                top = Lin((1 << (w - 1)) - 1)
                for s in self.assume(st.copy(), c_and(c_ge(top - a), c_ge(top - b), c_ge(b - 1))):
                    out += self.setv(s, ins, self.udiv(s, s.facts.norm(a), s.facts.norm(b)))
                for s in self.assume(st, c_or(c_ge(a - top - 1), c_ge(b - top - 1), c_ge(-b))):
                    out += self.setv(s, ins, atom(T.get('sdiv', (a, b, w), 0, (1 << w) - 1)))
                return out
            return self.setv(st, ins, atom(T.get('sdiv', (a, b, w), 0, (1 << w) - 1)))
        for s, l in self.signed(st, a, w):
            lo, hi = s.facts.interval(s.facts.norm(l))
            if s.facts.entails_ge(l):
                out += self.setv(s, ins, self.udiv(s, l, b))
            else:
                # exact division (pointer difference) or truncation toward zero of a negative
                nl = s.facts.norm(-l)
                if nl.c % b.c == 0 and all(v % b.c == 0 for _, v in nl.t):
                    q = -Lin(nl.c // b.c, tuple((x, v // b.c) for x, v in nl.t))
                else:
                    q = -self.udiv(s, nl, b)
                for s2, r in self.wrap(s, q, w):
                    out += self.setv(s2, ins, r)
        return out

    def i_srem(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        out = []
        if not b.is_const() or b.c >= 1 << (w - 1) or b.c == 0:
            return self.setv(st, ins, atom(T.get('srem', (a, b, w), 0, (1 << w) - 1)))
        for s, l in self.signed(st, a, w):
            if s.facts.entails_ge(l):
                out += self.setv(s, ins, self.urem(s, l, b))
            else:
                r = self.urem(s, -l, b)
                for s2, r2 in self.wrap(s, -r, w):
                    out += self.setv(s2, ins, r2)
        return out

    def i_shl(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        b = st.facts.norm(b)
        if b.is_const():
            if b.c >= w:
                return self.setv(st, ins, UNDEF)
            l = a.scale(1 << b.c)
            lo, hi = st.facts.interval(st.facts.norm(l))
            if hi is not None and hi < (1 << w):
                return self.setv(st, ins, l)
            return self.setv(st, ins, self.trunc(st, l, w))
        return self.setv(st, ins, atom(T.get('shl', (a, b, w), 0, (1 << w) - 1)))

    def i_lshr(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        b = st.facts.norm(b)
        if b.is_const():
            if b.c >= w:
                return self.setv(st, ins, UNDEF)
            return self.setv(st, ins, self.div2k(st, a, b.c))
        q = atom(T.get('lshr', (a, b, w), 0, (1 << w) - 1))
        st.facts.add_ge(a - q)
        return self.setv(st, ins, q)

    def i_ashr(self, F, st, ins):
        a, b, w = self.ops2(st, ins)
        b = st.facts.norm(b)
        if not b.is_const():
            return self.setv(st, ins, atom(T.get('ashr', (a, b, w), 0, (1 << w) - 1)))
        out = []
        for s, l in self.signed(st, a, w):
            if s.facts.entails_ge(l):
                out += self.setv(s, ins, self.div2k(s, l, b.c))
            else:
                q = self.div2k(s, l + (1 << w), b.c)    # floor((l+2^w)/2^b) = floor(l/2^b)+2^(w-b)
                out += self.setv(s, ins, q - (1 << (w - b.c)) + (1 << w))
        return out

    def i_and(self, F, st, ins):
        if ins['ty'] == 'i1':
            return self.setv(st, ins, c_and(self.as_cond(self.val(st, ins['ops'][0])), self.as_cond(self.val(st, ins['ops'][1]))))
        if self.isvec(ins):
            return self.vecop(F, st, ins)
        a, b, w = self.ops2(st, ins)
        a = st.facts.norm(a)
        b = st.facts.norm(b)
        if a.is_const():
            a, b = b, a
        if b.is_const():
            return self.setv(st, ins, self.and_const(st, a, b.c, w))
        if a == b:
            return self.setv(st, ins, a)
        z = atom(T.get('and', tuple(sorted((a, b), key=lambda q: (q.c, q.t))), 0, (1 << w) - 1))
        st.facts.add_ge(a - z)
        st.facts.add_ge(b - z)
        return self.setv(st, ins, z)

    def i_or(self, F, st, ins):
        if ins['ty'] == 'i1':
            return self.setv(st, ins, c_or(self.as_cond(self.val(st, ins['ops'][0])), self.as_cond(self.val(st, ins['ops'][1]))))
        a, b, w = self.ops2(st, ins)
        return self.setv(st, ins, self.bitor(st, a, b, w))

    def i_xor(self, F, st, ins):
        if ins['ty'] == 'i1':
            a = self.as_cond(self.val(st, ins['ops'][0]))
            b = self.as_cond(self.val(st, ins['ops'][1]))
            if b is True or b is False:
                return self.setv(st, ins, c_not(a) if b else a)
            if a is True or a is False:
                return self.setv(st, ins, c_not(b) if a else b)
            return self.setv(st, ins, c_or(c_and(a, c_not(b)), c_and(c_not(a), b)))
        a, b, w = self.ops2(st, ins)
        a = st.facts.norm(a)
        b = st.facts.norm(b)
        if a.is_const():
            a, b = b, a
        if b.is_const():
            if b.c == (1 << w) - 1:
                return self.setv(st, ins, (-a) + b.c)
            z = self.and_const(st, a, b.c, w)
            return self.setv(st, ins, st.facts.norm(a) + b.c - z.scale(2))
        if a == b:
            return self.setv(st, ins, ZERO)
        return self.setv(st, ins, atom(T.get('xor', tuple(sorted((a, b), key=lambda q: (q.c, q.t))), 0, (1 << w) - 1)))

    def i_zext(self, F, st, ins):
        v = self.val(st, ins['ops'][0])
        if self.isvec(ins):
            raise Give('vector zext', ins)
        return self.setv(st, ins, self.as_lin(st, v, width(ins['oty'])))

    def i_sext(self, F, st, ins):
        w1, w2 = width(ins['oty']), width(ins['ty'])
        v = self.val(st, ins['ops'][0])
        if w1 == 1:
            l = self.as_lin(st, v, 1)
            return self.setv(st, ins, l.scale((1 << w2) - 1))
        l = self.as_lin(st, v, w1)
        out = []
        for s, x in self.signed(st, l, w1):
            if s.facts.norm(x) == s.facts.norm(l):
                out += self.setv(s, ins, l)
            else:
                out += self.setv(s, ins, x + (1 << w2))
        return out

    def i_trunc(self, F, st, ins):
        v = self.val(st, ins['ops'][0])
        if self.isvec(ins):
            raise Give('vector trunc', ins)
        w1, w2 = width(ins['oty']), width(ins['ty'])
        if v is UNDEF:
            return self.setv(st, ins, UNDEF)
        l = self.as_lin(st, v, w1)
        if w2 == 1:
            if isinstance(v, (bool, tuple)):
                return self.setv(st, ins, v)
            if len(l.t) == 1 and l.t[0][0] in CONDOF and l.c == 0 and l.t[0][1] == 1:
                return self.setv(st, ins, CONDOF[l.t[0][0]])
            lo, hi = st.facts.interval(st.facts.norm(l))
            if hi is not None and hi <= 1 and lo >= 0:
                return self.setv(st, ins, c_ge(l - 1))
            r = self.trunc(st, l, 1)
            return self.setv(st, ins, c_ge(r - 1))
        return self.setv(st, ins, self.trunc(st, l, w2))

    def i_ptrtoint(self, F, st, ins):
        return self.setv(st, ins, self.val(st, ins['ops'][0]))

    def i_inttoptr(self, F, st, ins):
        return self.setv(st, ins, self.val(st, ins['ops'][0]))

    def i_bitcast(self, F, st, ins):
        v = self.val(st, ins['ops'][0])
        ty = ins['ty']
        if not isinstance(ty, str) or not isinstance(ins['oty'], str):
            raise Give('vector bitcast', ins)
        return self.setv(st, ins, self.retype(st, v, ty))

    def i_freeze(self, F, st, ins):
        v = self.val(st, ins['ops'][0])
        if v is UNDEF:
            w = width(ins['ty']) if ins['ty'] != 'p' else 64
            v = atom(self.fresh('undef', 0, (1 << w) - 1))
        return self.setv(st, ins, v)

    def fop(self, F, st, ins, name=None):
        vs = tuple(self.val(st, o) for o in ins['ops'])
        if any(v is UNDEF for v in vs):
            return self.setv(st, ins, UNDEF)
        ty = ins['ty']
        op = name or ins['op']
        if not isinstance(ty, str):
            raise Give('vector fp', ins)
        vs = tuple(st.facts.norm(v) if isinstance(v, Lin) else v for v in vs)
        if op == 'fptrunc' and isinstance(vs[0], FV) and vs[0].key[0] == 'fpext' and vs[0].key[2].ty == ty:
            return self.setv(st, ins, vs[0].key[2])
        if ty[0] == 'f':
            return self.setv(st, ins, FV(ty, (op, ins.get('oty') if isinstance(ins.get('oty'), str) else None) + vs))
        w = width(ty)
        return self.setv(st, ins, atom(T.get(op, (ty, ins.get('oty')) + vs, 0, (1 << w) - 1)))

    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = i_fneg = fop
    i_fptrunc = i_fpext = i_sitofp = i_uitofp = i_fptosi = i_fptoui = fop

    def i_fcmp(self, F, st, ins):
        a = self.val(st, ins['a'])
        b = self.val(st, ins['b'])
        if not isinstance(ins['oty'], str):
            raise Give('vector fcmp', ins)
        p = ins['pred']
        if p in ('true', 'false'):
            return self.setv(st, ins, p == 'true')
        at = T.get('fcmp', (p, a if isinstance(a, FV) else None, b if isinstance(b, FV) else None), 0, 1)
        return self.setv(st, ins, ('ge', atom(at) - 1))

    def i_icmp(self, F, st, ins):
        if not isinstance(ins['oty'], str):
            raise Give('vector icmp', ins)
        a = self.val(st, ins['a'])
        b = self.val(st, ins['b'])
        out = []
        for s, c in self.icmp(st, ins['pred'], a, b, ins['oty']):
            out += self.setv(s, ins, c)
        return out

    def i_select(self, F, st, ins):
        c = self.as_cond(self.val(st, ins['ops'][0]))
        a = self.val(st, ins['ops'][1])
        b = self.val(st, ins['ops'][2])
        if ins['ty'] == 'i1':
            a = self.as_cond(a) if a is not UNDEF else False
            b = self.as_cond(b) if b is not UNDEF else False
            if b is False:
                return self.setv(st, ins, c_and(c, a))
            if a is True:
                return self.setv(st, ins, c_or(c, b))
            if a is False:
                return self.setv(st, ins, c_and(c_not(c), b))
            if b is True:
                return self.setv(st, ins, c_or(c_not(c), a))
            return self.setv(st, ins, c_or(c_and(c, a), c_and(c_not(c), b)))
        d = self.decide(st, c)
        if d is not None:
            return self.setv(st, ins, a if d else b)
        if a is UNDEF:
            return self.setv(st, ins, b)
        if b is UNDEF:
            return self.setv(st, ins, a)
        out = []
        s2 = st.copy()
        for s in self.assume(st, c):
            out += self.setv(s, ins, a)
        for s in self.assume(s2, c_not(c)):
            out += self.setv(s, ins, b)
        return out

    def i_getelementptr(self, F, st, ins):
        if ins.get('bad'):
            raise Give('gep', ins)
        b = self.val(st, ins['base'])
        if b is UNDEF:
            return self.setv(st, ins, UNDEF)
        if not isinstance(b, Lin):
            raise Give('gep base', ins)
        sts = [(st, b + ins['off'])]
        for o, sc, ty in ins['vars']:
            ns = []
            for s, acc in sts:
                v = self.as_lin(s, self.val(s, o), width(ty) if isinstance(ty, str) and ty[0] == 'i' else 64)
                for s2, x in self.signed(s, v, width(ty)):
                    ns.append((s2, acc + x.scale(sc)))
            sts = ns
        out = []
        for s, l in sts:
            out += self.setv(s, ins, s.facts.norm(l))
        return out

    def i_alloca(self, F, st, ins):
        n = 'a:%s:%d%s' % (F.name, ins['id'], ('@%d' % self.depth) if self.depth > 1 else '')
        self.new_region(st, n, 'alloca', Lin(ins['size']), ('uninit',))
        return self.setv(st, ins, self.ptr(n))

    def i_load(self, F, st, ins):
        p = self.val(st, ins['ops'][0])
        h = self.hooks.get('load')
        if h:
            r = h(self, st, p, ins)
            if r is not None:
                return self.setv(st, ins, r)
        return self.setv(st, ins, self.load(st, p, ins['ty'], ins))

    def i_store(self, F, st, ins):
        v = self.val(st, ins['ops'][0])
        p = self.val(st, ins['ops'][1])
        self.store(st, p, v, ins['sty'], ins)
        return [st]

    def i_atomicrmw(self, F, st, ins):
        # one thread: a read followed by a write
        p, v = (self.val(st, o) for o in ins['ops'][:2])
        ty = ins['sty']
        old = self.load(st, p, ty, ins)
        w = width(ty)
        op = ins.get('rmw')
        if op == 'xchg':
            new = v
        elif op in ('add', 'sub'):
            a, b = self.as_lin(st, old, w), self.as_lin(st, v, w)
            if op == 'sub' and b.is_const():
                a, b, op = a, Lin((-b.c) % (1 << w)), 'add'
            new = self.wrap1(st, a + b if op == 'add' else a - b, w)
        else:
            raise Give('atomicrmw ' + str(op), ins)
        self.store(st, p, new, ty, ins)
        return self.setv(st, ins, old)

    def i_extractvalue(self, F, st, ins):
        v = self.val(st, ins['a'])
        for i in ins['ix']:
            if v is UNDEF:
                break
            v = v[i]
        return self.setv(st, ins, v)

    def i_insertvalue(self, F, st, ins):
        a = self.val(st, ins['a'])
        b = self.val(st, ins['b'])
        if a is UNDEF:
            a = self.undef_of(ins['ty'])

        def put(x, ix, t):
            if x is UNDEF:
                x = self.undef_of(t)
            x = list(x)
            if len(ix) == 1:
                x[ix[0]] = b
            else:
                sub = t[1][ix[0]][1] if t[0] == 'S' else t[2]
                x[ix[0]] = put(x[ix[0]], ix[1:], sub)
            return tuple(x)
        return self.setv(st, ins, put(a, ins['ix'], ins['ty']))

    def i_fence(self, F, st, ins):
        return [st]

    def i_landingpad(self, F, st, ins):
        e = st.exc
        return self.setv(st, ins, (e[0] if e else UNDEF, e[1] if e else UNDEF))

    def vecop(self, F, st, ins):
        raise Give('vector op', ins)

    def i_call(self, F, st, ins):
        outs = []
        for kind, s, v, extra in self.do_call(F, st, ins):
            if kind == 'ret':
                if 'id' in ins:
                    s.env[ins['id']] = v
                outs.append(s)
            else:
                self.exits.append(Exit(kind, s, v, extra if extra else ins))
        return outs

    # ---------------------------------------------------------------- calls
    def do_call(self, F, st, ins):
        """list of (kind, state, value, ins): kind in ret/throw/stop"""
        self.stats['calls'] += 1
        callee = ins.get('callee')
        args = [self.val(st, a) for a in ins['args']]
        if callee is None:
            fp = self.val(st, ins['fp'])
            if isinstance(fp, Lin):
                for a, v in st.facts.norm(fp).t:
                    if T.info[a][0] == 'fnaddr':
                        callee = T.info[a][1][0]
            if callee is None:
                h = self.hooks.get('indirect')
                if h:
                    r = h(self, F, st, ins, fp, args)
                    if r is not None:
                        return r
                raise Give('indirect call', ins)
        h = self.hooks.get('call')
        if h:
            r = h(self, F, st, ins, callee, args)
            if r is not None:
                return r
        import models
        r = models.call(self, F, st, ins, callee, args)
        if r is not None:
            return r
        if callee in self.mod.funcs:
            if callee in self.mod.rec:
                d = self.unroll.get(callee, 0)
                if d < self.UNROLL and not self.inloop and self.stats['blocks'] < self.UNROLL_WORK:
                    self.unroll[callee] = d + 1
                    try:
                        return self.call_body(callee, args, st, ins)
                    finally:
                        self.unroll[callee] = d
                import contracts
                return contracts.call(self, F, st, ins, callee, args)
            return self.call_body(callee, args, st, ins)
        h = self.hooks.get('extern')
        if h:
            r = h(self, F, st, ins, callee, args)
            if r is not None:
                return r
        raise Give('call to unmodelled function ' + self.mod.dem(callee)[:160], ins)

    def call_body(self, callee, args, st, ins):
        if self.depth > self.DEPTH:
            raise Give('call depth', ins)
        saved_env = st.env
        saved_exits = self.exits
        self.exits = []
        st.env = {}
        try:
            self.run_function(callee, args, st)
            outs = []
            for e in self.exits:
                e.st.env = dict(saved_env)
                outs.append((e.kind, e.st, e.val, e.ins))
        finally:
            self.exits = saved_exits
        return outs

    def ret(self, st, v=None):
        return [('ret', st, v, None)]

    # ---------------------------------------------------------------- control
    def run_function(self, name, args, st):
        """executes the body; terminal states appended to self.exits"""
        F = self.mod.fn(name)
        self.analysed.add(name)
        self.depth += 1
        try:
            for a, v in zip(F.args, args):
                if 'byval' in a:
                    rn = 'bv:%s:%d@%d' % (name, a['id'], self.depth)
                    self.new_region(st, rn, 'alloca', Lin(a['byval']), ('uninit',))
                    self.memcpy(st, self.ptr(rn), v, Lin(a['byval']), None)
                    v = self.ptr(rn)
                st.env[a['id']] = v
            st.pred = None
            exits, backs = self.run_region(F, None, {0: [st]})
            assert not exits and not backs
        finally:
            self.depth -= 1

    def run_region(self, F, loop, init):
        blocks = F.loopblocks[loop] if loop is not None else None
        pending = {b: list(s) for b, s in init.items()}
        exits = []
        backs = []
        first = loop

        def route(tgt, s):
            if loop is not None and tgt == loop:
                backs.append(s)
            elif blocks is not None and tgt not in blocks:
                exits.append((tgt, s))
            else:
                pending.setdefault(tgt, []).append(s)
        import heapq
        while pending:
            b = min(pending, key=lambda x: F.rpoidx[x])
            states = pending.pop(b)
            ch = F.loops[b]
            inner = None
            if loop is None:
                if ch:
                    inner = ch[-1]
            else:
                i = ch.index(loop)
                if i > 0:
                    inner = ch[i - 1]
            if inner is not None:
                if b != inner:
                    raise Give('irreducible loop entry')
                for tgt, s in self.do_loop(F, inner, self.reduce(F, b, states)):
                    route(tgt, s)
                continue
            states = self.reduce(F, b, states)
            for s in states:
                for tgt, s2 in self.exec_block(F, b, s):
                    s2.pred = b
                    route(tgt, s2)
        return exits, backs

    def reduce(self, F, b, states):
        """bound the number of partitions: drop dead values, merge equal ones"""
        if len(states) <= 1:
            return states
        livein, phiuse = F.liveness()
        groups = {}
        for s in states:
            need = livein[b] | phiuse[b].get(s.pred, set())
            key = (tuple(sorted((k, self.vkey(s.env[k])) for k in need if k in s.env)), s.pred if any(i['op'] == 'phi' for i in F.blocks[b]['i'][:1]) else None,
                   id(s.ev), tuple(sorted((n, id(c)) for n, c in s.mem.items())))
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1 or len(states) <= self.JOINAT:
                out.extend(g)
            else:
                out.append(self.join(g))
        if len(out) > self.MAXSTATES:
            raise Give('too many partitions at %s' % loc_of(F.blocks[b]['i'][0]))
        self.stats['partitions'] = max(self.stats['partitions'], len(out))
        return out

    def vkey(self, v):
        return v if not isinstance(v, list) else tuple(v)

    def join(self, g):
        """join of partitions that agree on values and memory: intersect their facts"""
        a = g[0]
        parts = ('join', tuple((s.facts, s.approx) for s in g))
        for b in g[1:]:
            fa, fb = a.facts, b.facts
            nf = Facts()
            cand = []
            for x, e in fa.eq.items():
                cand.append(atom(x) - e)
                cand.append(e - atom(x))
            cand.extend(fa.ineq)
            for x, (lo, hi) in fa.bd.items():
                if lo is not None:
                    cand.append(atom(x) - lo)
                if hi is not None:
                    cand.append((-atom(x)) + hi)
            for x, (lo, hi) in fb.bd.items():
                la, ha = fa.interval(fa.norm(atom(x)))
                if lo is not None and la is not None:
                    cand.append(atom(x) - min(lo, la))
                if hi is not None and ha is not None:
                    cand.append((-atom(x)) + max(hi, ha))
            for c in cand:
                if fb.entails_ge(c) and fa.entails_ge(c):
                    nf.add_ge(c)
            for n in fa.neq:
                if fb.entails_ne(n):
                    nf.add_ne(n)
            a = a.copy()
            a.facts = nf
        a.approx = (parts,)
        return a

    def exec_block(self, F, b, st):
        self.stats['blocks'] += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        instrs = F.blocks[b]['i']
        # phis in parallel
        newv = {}
        i = 0
        while i < len(instrs) and instrs[i]['op'] == 'phi':
            ins = instrs[i]
            if ins['id'] in st.glob.get('phi_done', ()):
                i += 1
                continue
            for pb, o in ins['in']:
                if pb == st.pred:
                    newv[ins['id']] = self.val(st, o)
                    break
            else:
                raise Give('phi without pred', ins)
            i += 1
        st.glob.pop('phi_done', None)
        st.env.update(newv)
        sts = [st]
        for ins in instrs[i:-1]:
            ns = []
            for s in sts:
                try:
                    ns.extend(self.exec_instr(F, s, ins))
                except Give as g:
                    self.give(s, g, ins)
            sts = ns
            if not sts:
                return []
        out = []
        t = instrs[-1]
        for s in sts:
            try:
                out.extend(self.terminator(F, b, s, t))
            except Give as g:
                self.give(s, g, t)
        return out

    def give(self, st, g, ins):
        """a partition that the domain cannot follow: recorded as an unknown exit"""
        if st.facts.infeasible():
            return
        i = g.ins or ins
        if not self.quiet:
            key = (str(g), loc_of(i))
            self.gives[key] = self.gives.get(key, 0) + 1
        self.exits.append(Exit('unknown', st, str(g), i))

    def terminator(self, F, b, st, t):
        op = t['op']
        if op == 'br':
            if 'c' not in t:
                return [(t['t'], st)]
            c = self.as_cond(self.val(st, t['c']))
            d = self.decide(st, c) if c not in (True, False) else c
            if d is True:
                return [(t['t'], s) for s in self.assume(st, c)]
            if d is False:
                return [(t['f'], s) for s in self.assume(st, c_not(c))]
            s2 = st.copy()
            return [(t['t'], s) for s in self.assume(st, c)] + [(t['f'], s) for s in self.assume(s2, c_not(c))]
        if op == 'switch':
            return self.switch(F, st, t)
        if op == 'ret':
            v = self.val(st, t['ops'][0]) if t['ops'] else None
            self.exits.append(Exit('ret', st, v, t))
            return []
        if op == 'unreachable':
            self.exits.append(Exit('unreachable', st, None, t))
            return []
        if op == 'invoke':
            out = []
            for kind, s, v, extra in self.do_call(F, st, t):
                if kind == 'ret':
                    if 'id' in t:
                        s.env[t['id']] = v
                    out.append((t['t'], s))
                elif kind == 'throw':
                    out.extend(self.unwind(F, s, t, v, extra))
                else:
                    self.exits.append(Exit(kind, s, v, extra or t))
            return out
        if op == 'resume':
            e = st.exc
            self.exits.append(Exit('throw', st, e[2] if e else None, (e[3] if e else None) or t))
            return []
        raise Give('terminator ' + op, t)

    def unwind(self, F, st, t, what, ins):
        """exception propagates to the unwind block: enter it when it can catch"""
        u = t['u']
        lp = None
        for i in F.blocks[u]['i']:
            if i['op'] == 'landingpad':
                lp = i
                break
        catches = lp is not None and any(c[0] for c in lp['clauses'])
        if not catches and not self.hooks.get('follow_cleanup'):
            self.exits.append(Exit('throw', st, what, ins or t))
            return []
        exo = T.get('exobj', (self.counter,), 1, ADDR_MAX)
        sel = T.get('exsel', (what,), 0, (1 << 32) - 1)
        st.exc = (atom(exo), atom(sel), what, ins or t)
        return [(u, st)]

    def switch(self, F, st, t):
        v = self.val(st, t['c'])
        cases = [(int(c[2]), tgt) for c, tgt in t['cases']]
        if isinstance(v, (bool, tuple)):
            l = self.as_lin(st, v)
        else:
            l = v
        if l is UNDEF:
            raise Give('switch on undef', t)
        l = st.facts.norm(l)
        if l.is_const():
            for c, tgt in cases:
                if c == l.c:
                    return [(tgt, st)]
            return [(t['d'], st)]
        out = []
        by = {}
        for c, tgt in cases:
            by.setdefault(tgt, []).append(c)
        for tgt, cs in by.items():
            if tgt == t['d']:
                pass
            cs.sort()
            i = 0
            while i < len(cs):
                j = i
                while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                    j += 1
                s2 = st.copy()
                if i == j:
                    r = self.assume(s2, c_eq(l - cs[i]))
                else:
                    r = self.assume(s2, c_and(c_ge(l - cs[i]), c_ge((-l) + cs[j])))
                out.extend((tgt, s) for s in r)
                i = j + 1
        # default: complement as intervals
        allc = sorted(set(c for c, _ in cases))
        lo, hi = st.facts.interval(l)
        ds = [st]
        if hi is not None and lo is not None and hi - lo < 100000:
            ivs = []
            p = lo
            for c in allc:
                if c < p:
                    continue
                if c > hi:
                    break
                if c > p:
                    ivs.append((p, c - 1))
                p = c + 1
            if p <= hi:
                ivs.append((p, hi))
            if len(ivs) <= 24:
                for x, y in ivs:
                    s2 = st.copy()
                    r = self.assume(s2, c_and(c_ge(l - x), c_ge((-l) + y)))
                    out.extend((t['d'], s) for s in r)
                return out
        for c in allc:
            ns = []
            for s in ds:
                ns.extend(self.assume(s, c_ne(l - c)))
            ds = ns
        out.extend((t['d'], s) for s in ds)
        return out

    # ---------------------------------------------------------------- loops
    def do_loop(self, F, hdr, states):
        import loops
        out = []
        for s in states:
            out.extend(loops.analyse(self, F, hdr, s))
        return out
