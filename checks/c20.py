"""MsgPack writer: the finished bytes decoded as the MessagePack specification prescribes."""
from core import *
from absint import FV, c_ge, c_eq, c_not
import docs
import mpw
import rt
import rules


class Stream:
    """token-by-token decoder of the MessagePack specification"""
    def __init__(self, R, eng, st, region, base, size, what, ins):
        self.R, self.eng, self.st, self.rn, self.base, self.size, self.what, self.ins = R, eng, st, region, base, size, what, ins
        self.o = ZERO

    def must(self, c, key, text):
        return self.R.must(self.st, c, 'encoding', key, '%s (calls: %s)' % (text, self.what), self.ins)

    def eq(self, got, want, key, text):
        return self.must(c_eq(self.st.facts.norm(got - want)), key, text)

    def take(self, n):
        """n bytes, big endian"""
        if not self.must(c_ge(self.size - self.o - n), 'truncated', 'the encoding is truncated'):
            return None
        v = ZERO
        for i in range(n):
            b = self.eng.read(self.st, self.rn, self.st.facts.norm(self.base + self.o + i), 'i8')
            v = v + self.eng.as_lin(self.st, b, 8).scale(1 << (8 * (n - 1 - i)))
        self.o = self.st.facts.norm(self.o + n)
        return self.st.facts.norm(v)

    def body(self, d, key):
        n = d[2]
        if not self.must(c_ge(self.size - self.o - n), 'truncated', 'the encoding is truncated'):
            return False
        for s in self.eng.assume(self.st.copy(), c_ge(n - 1)):
            j = atom(T.get('sym', ('j',), 0, 1 << 62))
            s.facts.add_ge(n - j - 1)
            got = self.eng.read(s, self.rn, s.facts.norm(self.base + self.o + j), 'i8')
            want = self.eng.read(s, d[1], j, 'i8')
            self.R.equal(s, got, want, 'encoding', key + ' bytes', 'the bytes of a %s are not those written (calls: %s)' % (key, self.what), self.ins)
        self.o = self.st.facts.norm(self.o + n)
        return True

    def tokens(self, ds):
        for k, d in enumerate(ds):
            if d[0] in ('earr', 'emap', 'finish'):
                continue
            m = self.take(1)
            if m is None:
                return
            for s, lo, hi in self.markers(m):
                q = Stream(self.R, self.eng, s, self.rn, self.base, self.size, self.what, self.ins)
                q.o = self.o
                if q.token(d, lo, hi, m):
                    q.tokens(ds[k + 1:])
            return
        self.eq(self.size, self.o, 'trailing', 'the buffer holds bytes after the last value')

    MARK = [(0, 0x7f), (0x80, 0x8f), (0x90, 0x9f), (0xa0, 0xbf)] + [(i, i) for i in range(0xc0, 0xe0)] + [(0xe0, 0xff)]

    def markers(self, m):
        if m.is_const():
            return [(self.st, lo, hi) for lo, hi in self.MARK if lo <= m.c <= hi]
        out = []
        a, b = self.st.facts.interval(m)
        for lo, hi in self.MARK:
            if (b is not None and b < lo) or (a is not None and a > hi):
                continue
            s = self.st.copy()
            s.facts.add_ge(m - lo)
            s.facts.add_ge(Lin(hi) - m)
            if not s.facts.dead and not s.facts.infeasible():
                out.append((s, lo, hi))
        return out

    def kind(self, d):
        self.must(False, 'marker ' + d[0], 'a %s is written with a marker of another kind' % d[0])
        return False

    def token(self, d, lo, hi, m):
        k = d[0]
        if k in ('null', 'bool'):
            if k == 'null':
                return self.kind(d) if lo != 0xc0 else True
            if lo not in (0xc2, 0xc3):
                return self.kind(d)
            return self.eq(self.eng.as_lin(self.st, d[1]), Lin(lo - 0xc2), 'bool', 'a boolean is written wrong')
        if k in ('i64', 'u64'):
            w = {0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8}.get(lo)
            if hi == 0x7f:
                v, n, neg = m, 64, False
            elif lo == 0xe0:
                v, n, neg = m, 8, True
            elif w:
                v, n, neg = self.take(w), 8 * w, lo >= 0xd0
                if v is None:
                    return False
            else:
                return self.kind(d)
            ok = True
            for s, x in (self.eng.signed(self.st.copy(), v, n) if neg else [(self.st, v)]):
                want = d[1]
                for s2, y in (self.eng.signed(s.copy(), want, 64) if k == 'i64' else [(s, want)]):
                    if s2.facts.dead or s2.facts.infeasible():
                        continue
                    ok &= self.R.must(s2, c_eq(s2.facts.norm(x - y)), 'encoding', 'value ' + k, 'an integer is written as another value (calls: %s)' % self.what, self.ins)
            return ok
        if k == 'f64':
            if lo != 0xcb:
                return self.kind(d)
            v = self.take(8)
            return v is not None and self.eq(v, d[1].key[1], 'f64', 'the bits of a double are written wrong')
        W = {'str': {0xd9: 1, 0xda: 2, 0xdb: 4}, 'key': {0xd9: 1, 0xda: 2, 0xdb: 4}, 'blob': {0xc4: 1, 0xc5: 2, 0xc6: 4},
             'barr': {0xdc: 2, 0xdd: 4}, 'bmap': {0xde: 2, 0xdf: 4}}[k]
        fix = {'str': 0xa0, 'key': 0xa0, 'barr': 0x90, 'bmap': 0x80}.get(k)
        if lo == fix:
            n = m - fix
        elif lo in W:
            n = self.take(W[lo])
            if n is None:
                return False
        else:
            return self.kind(d)
        size = d[1] if k in ('barr', 'bmap') else d[2]
        if not self.eq(n, size, 'length ' + k, 'the length or count of a %s is written wrong' % k):
            return False
        return self.body(d, k) if k in ('str', 'blob', 'key') else True


CALLS = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob', 'barr', 'bmap', 'key', 'earr', 'emap')


def case(ops, failing):
    def task(mod, nm):
        r = Result(('failing ' if failing else '') + ' '.join(ops))
        W = rt.Writer(mod, hooks={'call': mpw.append_hook(failing)})
        W.DIGITS = True
        R = rules.Rule(r, W.eng)

        def refused(e, h):
            if e.kind in ('unknown', 'stop') or rt.resource(e):
                return
            if e.kind == 'throw' and any(x[0] == 'append failed' for x in e.st.events() if isinstance(x, tuple)):
                r.inst('reported')
                return
            d = h[-1]
            n = d[1] if d[0] in ('barr', 'bmap') else d[2] if d[0] in ('str', 'blob', 'key') else None
            if e.kind != 'throw' or str(e.val) != rt.SERR or n is None:
                R.never(e.st, 'encoding', 'refused ' + d[0], 'the call ends in %s %s (calls: %s)' % (e.kind, e.val, rt.title(h)), e.ins)
                return
            R.must(e.st, c_ge(n - (1 << 32)), 'limit', 'refused ' + d[0], 'a value within the limits of the format is refused (calls: %s)' % rt.title(h), e.ins)
        for e, h in rt.run_history(W, list(ops) + ['finish'], hints={}, on_throw=refused):
            if any(x[0] == 'append failed' for x in e.st.events() if isinstance(x, tuple)):
                R.never(e.st, 'reported', 'dropped', 'bytes that could not be appended are dropped silently (calls: %s)' % rt.title(h), e.ins)
                continue
            b = rt.buffer_of(e)
            if b is None:
                R.never(e.st, 'encoding', 'no buffer', 'finish() hands out no buffer', e.ins)
                continue
            st = e.st.copy()
            p = st.facts.norm(b[1])
            rp = None if p.is_const() else W.eng.split_ptr(st, p)
            n = st.facts.norm(W.eng.as_lin(st, b[2]))
            if rp is None:
                if [d for d in h if d[0] not in ('earr', 'emap', 'finish')]:
                    R.never(st, 'encoding', 'empty', 'finish() hands out an empty buffer (calls: %s)' % rt.title(h), e.ins)
                else:
                    R.equal(st, n, ZERO, 'encoding', 'empty', 'the buffer of an empty document is not empty', e.ins)
                continue
            if not st.mem[rp[0].name].alive:
                R.never(st, 'encoding', 'owner', 'the finished buffer is already released', e.ins)
                continue
            Stream(R, W.eng, st, rp[0].name, rp[1], n, rt.title(h), e.ins).tokens(h)
            r.inst('buffer')
            # the writer's own end of life must not touch the result
            for x in W.call(st, 'drv_drop', [W.r]):
                if x.kind != 'ret' or not x.st.mem[rp[0].name].alive:
                    R.never(x.st, 'owner', 'owner', 'destroying the writer releases the finished buffer', x.ins)
                else:
                    r.inst('owner')
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def run(ctx):
    mod = ctx.compile('msgpack_rt.cpp', heap=True)
    seqs = [()] + [(c,) for c in CALLS] + [(a, b) for a in CALLS for b in CALLS]
    seqs += [('barr', 'str', 'earr'), ('bmap', 'key', 'blob', 'emap'), ('barr', 'bmap', 'key', 'i64', 'emap', 'earr'), ('blob', 'blob', 'blob'), ('str', 'u64', 'str')]
    if ctx.tier != 'quick':
        seqs += [(a, b, c) for a in CALLS[:10] for b in CALLS[:10] for c in CALLS[:10] if (a, b, c) not in seqs]
    tasks = [case(s, False) for s in seqs] + [case((c,), True) for c in CALLS[:10]]
    ctx.analyse_list(mod, tasks)
    ctx.need('buffer', 300)
    ctx.need('encoding', 2000)
    ctx.need('reported', 15)
    ctx.need('limit', 20)
    return finish(ctx, 'Abstract execution of %d sequences of MsgPack writer calls (arguments, lengths, counts and contents symbolic) on msgpack-c with its buffer taken as specified; the finished bytes decoded by the MessagePack specification.' % len(seqs),
                  ['each call appends a valid encoding of exactly its argument', 'lengths and counts beyond 32 bits are refused, all others accepted', 'a failed append is reported', 'the buffer holds nothing else and is owned by the result'])
