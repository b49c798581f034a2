"""ZERA.md as a decoder of finished buffers."""
from core import *
from absint import c_ge, c_eq, c_ne, c_and
import rules
from rt import grown, parse, title


class Decoder:
    """reads the finished buffer as ZERA.md prescribes and compares it with the document"""
    def __init__(self, R, eng, st, region, off, size, prop, what, ins):
        self.R, self.eng, self.st = R, eng, st
        self.rn, self.o0, self.size = region, off, size
        self.prop, self.what, self.ins = prop, what, ins

    def le(self, o, n):
        v = self.eng.read(self.st, self.rn, self.st.facts.norm(self.o0 + o), 'i%d' % (8 * n))
        return self.st.facts.norm(self.eng.as_lin(self.st, v, 8 * n))

    def must(self, c, key, text):
        return self.R.must(self.st, c, self.prop, key, '%s (document: %s)' % (text, self.what), self.ins)

    def eq(self, got, want, key, text):
        return self.must(c_eq(self.st.facts.norm(got - want)), key, text)

    def header(self):
        f = self.st.facts
        if not self.must(c_ge(self.size - 20), 'size', 'the buffer is shorter than its header'):
            return False
        for o, n, v, nm in ((0, 4, 0x564E455A, 'magic'), (4, 2, 1, 'version'), (6, 2, 1, 'flags')):
            self.eq(self.le(Lin(o), n), Lin(v), 'header ' + nm, 'wrong header field ' + nm)
        self.root, self.env, self.arena = (self.le(Lin(o), 4) for o in (8, 12, 16))
        ok = self.eq(self.eng.bits(self.st, self.arena, 0, 4), ZERO, 'arena alignment', 'the arena does not start at a multiple of 16')
        ok &= self.must(c_ge(self.arena - self.env - 20), 'arena start', 'the arena starts before the end of the envelope')
        ok &= self.must(c_ge(self.size - self.arena), 'arena inside', 'the arena starts past the end of the buffer')
        ok &= self.must(c_ge(self.env - self.root - 16), 'root inside', 'the root reference is outside the envelope')
        return ok

    def env_span(self, o, n, what):
        return self.must(c_ge(self.env - o - n), what + ' inside', '%s lies outside the envelope' % what)

    def same(self, o, region, n, key, text):
        """bytes [o, o+n) of the buffer equal bytes [0, n) of an input region"""
        R, eng = self.R, self.eng
        for s in eng.assume(self.st.copy(), c_ge(n - 1)):
            j = atom(T.get('sym', ('j',), 0, 1 << 62))
            s.facts.add_ge(n - j - 1)
            got = eng.read(s, self.rn, s.facts.norm(self.o0 + o + j), 'i8')
            want = eng.read(s, region, j, 'i8')
            R.equal(s, got, want, self.prop, key, '%s (document: %s)' % (text, self.what), self.ins)

    def value(self, o, d):
        """value reference at envelope offset o against document d"""
        if not self.env_span(o, 16, 'value reference'):
            return
        p = o + 20
        tag, fl, aux = self.le(p, 1), self.le(p + 1, 1), self.le(p + 2, 2)
        a, b, c = self.le(p + 4, 4), self.le(p + 8, 4), self.le(p + 12, 4)
        k = d[0]
        TAG = {'null': 0, 'bool': 1, 'i64': 2, 'f64': 3, 'str': 4, 'arr': 5, 'map': 6, 'blob': 7, 'u64': 8}
        if not self.eq(tag, Lin(TAG[k]), 'tag ' + k, 'a %s is stored with another tag' % k):
            return
        if k != 'str':
            self.eq(fl, ZERO, 'flags ' + k, 'a %s is stored with flags' % k)
        if k == 'bool':
            self.eq(aux, self.eng.as_lin(self.st, d[1]), 'bool', 'a boolean is stored wrong')
        elif k in ('i64', 'u64'):
            self.eq(a + b.scale(1 << 32), d[1], k, 'an integer is stored wrong')
        elif k == 'f64':
            self.eq(a + b.scale(1 << 32), d[1].key[1], k, 'the bits of a double are stored wrong')
        elif k == 'str':
            n = d[2]
            for s in self.split([c_eq(fl - 1), c_eq(fl), c_and(c_ne(fl), c_ne(fl - 1))]):
                q = self.at(s[1])
                if s[0] == 0:
                    q.eq(aux, n, 'inline length', 'the length of an inline string is stored wrong')
                    q.must(c_ge((-n) + 12), 'inline limit', 'a string longer than 12 bytes is stored inline')
                    q.same(p + 4, d[1], n, 'inline bytes', 'the bytes of an inline string are stored wrong')
                elif s[0] == 1:
                    q.eq(b, n, 'string length', 'the length of an arena string is stored wrong')
                    if q.must(c_ge(q.size - q.arena - a - b), 'string inside', 'an arena string extends past the buffer'):
                        q.same(q.arena + a, d[1], n, 'string bytes', 'the bytes of an arena string are stored wrong')
                else:
                    q.must(False, 'string flags', 'a string is stored with unknown flags')
        elif k == 'blob':
            n = d[2]
            self.eq(aux, Lin(2), 'blob dtype', 'a blob is not stored as u8')
            self.eq(b, n, 'blob length', 'the length of a blob is stored wrong')
            self.eq(self.eng.bits(self.st, self.st.facts.norm(self.arena + a), 0, 4), ZERO, 'blob alignment', 'a blob does not start at a multiple of 16')
            if self.must(c_ge(self.size - self.arena - a - b), 'blob inside', 'a blob extends past the buffer'):
                self.same(self.arena + a, d[1], n, 'blob bytes', 'the bytes of a blob are stored wrong')
            if self.env_span(c, 12, 'shape'):
                self.eq(self.le(c + 20, 4), ONE, 'rank', 'a blob is not stored with rank 1')
                self.eq(self.le(c + 24, 8), n, 'shape', 'the shape of a blob is not its length')
        elif k == 'arr':
            if self.env_span(a, 4, 'array'):
                many, items = grown(d)
                self.eq(self.le(a + 20, 4), many + len(items), 'array count', 'the element count of an array is stored wrong')
                self.bulk(a, d)
                for i, x in enumerate(items):
                    self.value(self.st.facts.norm(a + 4 + many.scale(16) + 16 * i), x)
        elif k == 'map':
            if self.env_span(a, 4, 'object'):
                many, items = grown(d)
                es = list(zip(items[0::2], items[1::2]))
                self.eq(self.le(a + 20, 4), many + len(es), 'object count', 'the entry count of an object is stored wrong')
                self.bulk(a, d)
                o = a + 4 + (d[1][0][2] if items is not d[1] else 0)
                for key, x in es:
                    if not self.env_span(o, key[2] + 20, 'object entry'):
                        return
                    self.eq(self.le(o + 20, 2), key[2], 'key length', 'the length of a key is stored wrong')
                    self.eq(self.le(o + 22, 2), ZERO, 'key reserved', 'the reserved field of an object entry is not zero')
                    self.same(o + 24, key[1], key[2], 'key bytes', 'the bytes of a key are stored wrong')
                    o = self.st.facts.norm(o + key[2] + 4)
                    self.value(o, x)
                    o = o + 16

    def bulk(self, a, d):
        if d[1] and d[1][0][0] in ('garr', 'gmap') and self.env_span(a + 4, d[1][0][2], 'container'):
            self.same(a + 24, d[1][0][1], d[1][0][2], 'elements', 'earlier elements are stored wrong')

    def split(self, conds):
        out = []
        for i, c in enumerate(conds):
            for s in self.eng.assume(self.st.copy(), c):
                if not s.facts.dead and not s.facts.infeasible():
                    out.append((i, s))
        return out

    def at(self, s):
        q = Decoder(self.R, self.eng, s, self.rn, self.o0, self.size, self.prop, self.what, self.ins)
        q.root, q.env, q.arena = self.root, self.env, self.arena
        return q


def decode_exit(r, eng, e, hist, prop):
    """judge the finished buffer of one normal exit of finish()"""
    R = rules.Rule(r, eng)
    views = [x for x in e.st.events() if isinstance(x, tuple) and x[0] == 'sink_view']
    st = e.st.copy()
    if len(views) != 1:
        R.never(st, prop, 'no buffer', 'finish() hands out no buffer', e.ins)
        return
    rp = eng.split_ptr(st, views[0][1])
    if rp is None:
        R.never(st, prop, 'null buffer', 'finish() hands out an empty buffer for document %s' % title(hist), e.ins)
        return
    D = Decoder(R, eng, st, rp[0].name, rp[1], st.facts.norm(eng.as_lin(st, views[0][2])), prop, title(hist), e.ins)
    if D.header():
        D.value(D.root, parse(hist))
