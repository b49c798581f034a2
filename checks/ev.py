"""Writer-call traces: events recorded by the drivers' mock writer, compared with the calls a document prescribes."""
from core import *
from absint import FV, UNDEF, LoopRec, Give, c_ge, c_eq, c_ne, c_and, c_or, c_not
import rules

POOL = 'pool'


def jay():
    return atom(T.get('sym', ('j',), 0, 1 << 62))


def sym(name, *key, lo=0, hi=(1 << 64) - 1):
    return atom(T.get('sym', ('mk', name) + key, lo, hi))


def content(eng, st, p, n):
    """the byte at generic index j of the n bytes at p, as seen now (None if there is no such index)"""
    s = st.copy()
    n = eng.as_lin(s, n)
    s.facts.add_ge(n - jay() - 1)
    if s.facts.dead or s.facts.infeasible():
        return None
    try:
        rp = eng.split_ptr(s, s.facts.norm(p))
        if rp is None:
            return UNDEF
        if not s.mem[rp[0].name].alive:
            return 'dead'
        q = eng.quiet
        eng.quiet = q + 1
        try:
            v = eng.read(s, rp[0].name, rp[1] + jay(), 'i8')
        finally:
            eng.quiet = q
        return s.facts.norm(v) if isinstance(v, Lin) else v
    except Give:
        return UNDEF


def literal(eng, st, p, n):
    """the bytes, if they are few and constant"""
    if not isinstance(n, Lin) or not n.is_const() or n.c > 64:
        return None
    rp = eng.split_ptr(st, st.facts.norm(p)) if isinstance(p, Lin) else None
    if rp is None or not st.mem[rp[0].name].alive:
        return b'' if n.c == 0 else None
    out = []
    eng.quiet += 1
    try:
        for i in range(n.c):
            v = eng.read(st, rp[0].name, rp[1] + i, 'i8')
            if not isinstance(v, Lin) or not st.facts.norm(v).is_const():
                return None
            out.append(st.facts.norm(v).c & 255)
    except Give:
        return None
    finally:
        eng.quiet -= 1
    return bytes(out)


def resource(e):
    """a throwing exit for lack of memory"""
    return any(x in str(e.val) for x in ('bad_alloc', 'length_error', 'bad_array_new'))


def ensure_pool(eng, st):
    if POOL not in st.mem:
        eng.new_region(st, POOL, 'input', sym('poolsize', hi=1 << 62), ('bytes', POOL), ro=True)


def in_pool(eng, st, *key):
    """(pointer, length) of the string the mock keeps under key"""
    ensure_pool(eng, st)
    off = sym('off', *key, hi=1 << 62)
    n = sym('len', *key, hi=1 << 62)
    st.facts.add_ge(st.mem[POOL].size - off - n)
    return eng.ptr(POOL) + off, n


def norm(st, v):
    return st.facts.norm(v) if isinstance(v, Lin) else v


def hook(eng, F, st, ins, callee, args):
    if callee.startswith('ev_'):
        name = callee[3:]
        a = tuple(norm(st, x) for x in args)
        if name in ('string', 'binary', 'key', 'open', 'result'):
            a = a + (content(eng, st, args[0], args[1]), literal(eng, st, args[0], a[1]))
        st.event(('ev', name) + a + (ins,))
        return [('ret', st, None, None)]
    if callee.startswith('sink_'):
        st.event((callee,) + tuple(args) + (ins,))
        return [('ret', st, None, None)]
    if callee.startswith('mk_'):
        return [('ret', st, answer(eng, st, callee[3:], [norm(st, a) for a in args]), None)]
    return None


HOOKS = {'call': hook, 'counted': True}


def answer(eng, st, q, a):
    if q == 'kind':
        return sym('kind', a[0], hi=9)
    if q == 'bool':
        return c_ge(sym('bool', a[0], hi=1) - 1)
    if q in ('i64', 'u64'):
        return sym(q, a[0])
    if q == 'f64':
        return FV('f64', ('bits', sym('f64', a[0])))
    if q in ('str', 'blob'):
        return in_pool(eng, st, q, a[0])[0]
    if q in ('strlen', 'bloblen'):
        return in_pool(eng, st, q[:-3], a[0])[1]
    if q == 'count':
        return sym('count', a[0], hi=1 << 60)
    if q == 'key':
        return in_pool(eng, st, 'key', a[0], a[1])[0]
    if q == 'keylen':
        return in_pool(eng, st, 'key', a[0], a[1])[1]
    if q == 'elem':
        return sym('elem', a[0], a[1])
    if q == 'child':
        return sym('child', a[0], content(eng, st, a[1], a[2]), norm(st, a[2]))
    if q == 'bytes':
        return in_pool(eng, st, 'finished')[0]
    if q == 'byteslen':
        return in_pool(eng, st, 'finished')[1]
    raise Give('mock query ' + q)


def select(got):
    """writer calls and loops containing some"""
    out = []
    for g in got:
        if isinstance(g, LoopRec):
            if any(select(b.events()) for b, _ in g.backs):
                out.append(g)
        elif g[0] == 'ev':
            out.append(g[1:])
        elif isinstance(g, tuple) and g and g[0] in NAMES:
            out.append(g)
    return out


NAMES = ('null', 'boolean', 'int64', 'uint64', 'double', 'string', 'binary', 'key', 'begin_array', 'end_array', 'begin_map', 'end_map',
         'finish', 'open', 'result')


# ---------------------------------------------------------------- expected traces
class Rep:
    """n repetitions; body(i, st) gives the expected events of repetition i, as seen in state st"""
    def __init__(self, n, body):
        self.n, self.body = n, body


class Trace:
    """compares recorded traces with an expected one; rule instances and verdicts go to r"""
    def __init__(self, r, eng, rule, what):
        self.r, self.eng, self.rule, self.what = r, eng, rule, what
        self.R = rules.Rule(r, eng)

    def feasible(self, st):
        return not (st.facts.dead or st.facts.infeasible())

    def wrong(self, st, text, ins=None):
        """a trace that cannot be the prescribed one: reported if a concrete member of the partition shows it,
        or if the partition itself (after a loop fixpoint) is consistent"""
        self.R.never(st, self.rule, self.what + ' ' + text.split(':')[0], '%s: %s' % (self.what, text), ins)

    def compare(self, st, got, want):
        """got: recorded items (events, LoopRecs) in order; want: expected items"""
        got = select(got)
        gi = 0
        for wi, w in enumerate(want):
            if isinstance(w, Rep):
                n = norm(st, w.n)
                if isinstance(n, int):
                    n = Lin(n)
                if n.is_const():
                    got = list(got)
                    body = [x for k in range(n.c) for x in w.body(Lin(k), st)]
                    return self.compare(st, got[gi:], body + list(want[wi + 1:]))
                if gi < len(got) and isinstance(got[gi], LoopRec):
                    self.loop(st, got[gi], w, n)
                    gi += 1
                    continue
                # no loop was recorded: only right if there is nothing to repeat
                if gi >= len(got) or not self.R.must(st, c_eq(n), self.rule, self.what + ' elements missing',
                                                     '%s: %s elements are to be written, none is' % (self.what, show(n))):
                    if gi >= len(got):
                        self.wrong(st, 'the calls stop before the elements')
                    return
                continue
            if gi >= len(got):
                return self.wrong(st, 'a call is missing: %s' % (w[0],))
            g = got[gi]
            if isinstance(g, LoopRec):
                self.r.unk('%s: %s: a loop where %s is expected' % (self.r.name, self.what, w[0]))
                return
            if not self.one(st, g, w):
                return
            gi += 1
        if gi < len(got):
            g = got[gi]
            if isinstance(g, LoopRec):
                self.r.unk('%s: %s: a loop after the expected calls' % (self.r.name, self.what))
            else:
                self.wrong(st, 'a surplus call: %s' % g[0], g[-1])

    def one(self, st, g, w):
        ins = g[-1]
        if g[0] != w[0]:
            self.wrong(st, '%s is called where %s is due' % (g[0], w[0]), ins)
            return False
        if w[0] in ('string', 'binary', 'key', 'open', 'result'):
            ln, by = w[1], w[2]
            ok = self.R.equal(st, g[2], ln, self.rule, self.what + ' length', '%s: %s gets a different length' % (self.what, w[0]), ins)
            if not ok:
                return False
            s = st.copy()
            s.facts.add_ge(self.eng.as_lin(s, ln) - jay() - 1)
            if not self.feasible(s):
                return True
            if isinstance(by, tuple) and by and by[0] == 'ptr':
                return self.R.equal(st, g[1], by[1], self.rule, self.what + ' address', '%s: %s gets other bytes' % (self.what, w[0]), ins)
            if g[3] == 'dead':
                return self.wrong(s, '%s gets bytes whose owner is already gone' % w[0], ins)
            if isinstance(by, bytes):
                return self.literal(st, g, w, by)
            if self.feasible(s):
                if g[3] is None or g[3] is UNDEF or by is UNDEF or by is None:
                    self.r.unk('%s: %s: content of %s not tracked' % (self.r.name, self.what, w[0]))
                else:
                    return self.R.equal(s, g[3], by, self.rule, self.what + ' content', '%s: %s gets different bytes' % (self.what, w[0]), ins)
            return True
        for x, y in zip(g[1:-1], w[1:]):
            if not self.R.equal(st, x, y, self.rule, self.what + ' ' + w[0], '%s: %s gets a different value' % (self.what, w[0]), ins):
                return False
        if len(g) == 2:
            self.r.inst(self.rule)
        return True

    def literal(self, st, g, w, by):
        """the event carries exactly the given constant bytes"""
        src = g[4]
        if src is None:
            self.r.unk('%s: %s: content of %s not tracked' % (self.r.name, self.what, w[0]))
            return True
        if src == by:
            self.r.inst(self.rule)
            return True
        self.wrong(st, '%s gets %r instead of %r' % (w[0], src, by), g[-1])
        return False

    def loop(self, st, rec, w, n):
        k = atom(rec.counter)
        for b, m in rec.backs:
            if not self.feasible(b):
                continue
            self.compare(b, b.events(), w.body(k, b))
        c = c_eq(st.facts.norm(k - n))
        self.R.must(st, c, self.rule, self.what + ' loop count', '%s: the loop at %s ends after a number of repetitions other than the announced one' % (
            self.what, rec.loc))
