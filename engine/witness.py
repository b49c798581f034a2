"""Concrete members of an abstract partition.

A functional rule that cannot be proved by entailment is only reported as a violation
when the partition reaching it, together with the negated rule, has a concrete member:
an assignment of input bytes, lengths and argument values that satisfies every path
constraint (derived quantities are recomputed from it, not assumed).  Values that the
domain over-approximates (loop variables, results of unmodelled calls, ambiguous
memory) cannot be part of a witness; the rule instance is then 'undecided'."""
import random
import math
import struct
from lin import Lin, T, ZERO, atom
from absint import CONDOF, FV, c_not


class Opaque(Exception):
    pass


FREE = ('sym', 'addr', 'fbits', 'strnlen', 'memchr', 'undef')
SEARCH = ('strnlen', 'memchr')


class Model:
    def __init__(self, eng, rnd):
        self.eng = eng
        self.rnd = rnd
        self.v = {}
        self.bytes = {}
        self.cache = {}
        self.dirty = True

    def lin(self, l):
        r = l.c
        for a, k in l.t:
            r += k * self.at(a)
        return r

    def set(self, a, x):
        k, args = T.info[a]
        if k == 'byte':
            self.bytes[(args[0], self.lin(args[1]))] = x
        else:
            self.v[a] = x
        self.cache = {}

    def at(self, a):
        x = self.cache.get(a)
        if x is None:
            x = self._at(a)
            self.cache[a] = x
        return x

    def byte(self, rn, off):
        x = self.bytes.get((rn, off))
        if x is None:
            x = self.rnd.choice((0, 1, 2, 0x7f, 0x80, 0xff, self.rnd.randrange(256)))
            self.bytes[(rn, off)] = x
        return x

    def _at(self, a):
        k, g = T.info[a]
        if k in FREE or a in self.eng.exact_phi:
            x = self.v.get(a)
            if x is None:
                if k == 'addr':
                    x = (a + 1) << 44
                else:
                    lo = T.lo[a] if T.lo[a] is not None else 0
                    hi = T.hi[a] if T.hi[a] is not None else 1 << 64
                    x = pick(self.rnd, lo, hi)
                self.v[a] = x
            return x
        if k == 'byte':
            return self.byte(g[0], self.lin(g[1]))
        if k == 'b01':
            return 1 if self.cond(g[0]) else 0
        if k == 'wrap':
            return self.lin(g[0]) >> g[1]
        if k == 'div':
            return self.lin(g[0]) // g[1]
        if k == 'byteof':
            return (self.lin(g[0]) >> (8 * g[1])) & 255
        if k == 'bitq':
            return self.at(g[0]) >> g[1]
        if k == 'bitr':
            return self.at(g[0]) & ((1 << g[1]) - 1)
        if k == 'and':
            return self.lin(g[0]) & self.lin(g[1])
        if k == 'xor':
            return self.lin(g[0]) ^ self.lin(g[1])
        if k == 'vdiv':
            d = self.lin(g[1])
            if d == 0:
                raise Opaque('division by zero')
            return self.lin(g[0]) // d
        if k == 'vrem':
            d = self.lin(g[1])
            if d == 0:
                raise Opaque('division by zero')
            return self.lin(g[0]) % d
        if k == 'mul':
            v = 1
            for x in g:
                v *= self.lin(x)
            return v
        if k == 'shl':
            s = self.lin(g[1])
            return (self.lin(g[0]) << s) & ((1 << g[2]) - 1) if s < 64 else 0
        if k == 'lshr':
            s = self.lin(g[1])
            return self.lin(g[0]) >> s if s < 64 else 0
        if k == 'tab' and g[2] == 'i8':
            bs = g[0] if isinstance(g[0], bytes) else self.eng.regions[g[0]].meta['g']['bytes']
            o = self.lin(g[1])
            if 0 <= o < len(bs):
                return bs[o]
            raise Opaque('table')
        if k == 'memcmp':
            return self.memcmp(g)
        if k.startswith('ctlz.i') and k[6:].isdigit():
            return int(k[6:]) - self.lin(g[0]).bit_length()
        if k == 'amb' and g[2] in self.eng.ambsrc and T.hi[a] & (T.hi[a] + 1) == 0:
            c, o, v = self.eng.ambsrc[g[2]], self.lin(g[1]), 0
            for i in range(max(1, T.hi[a].bit_length() // 8)):
                v += self.cell(c, o + i) << (8 * i)
            return v
        if k == 'fcmp':
            if g[1] is None or g[2] is None:
                raise Opaque(k)
            x, y = self.num(g[1]), self.num(g[2])
            nan = x != x or y != y
            if g[0] in ('ord', 'uno', 'true', 'false'):
                return int({'ord': not nan, 'uno': nan, 'true': True, 'false': False}[g[0]])
            if nan:
                return int(g[0][0] == 'u')
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[g[0][1:]])
        if k in ('fptosi', 'fptoui'):
            x = self.num(g[2])
            if x != x or x in (float('inf'), float('-inf')):
                raise Opaque('fp conversion')
            w = int(g[0][1:])
            x = int(x)
            if k == 'fptosi' and not -(1 << (w - 1)) <= x < (1 << (w - 1)) or k == 'fptoui' and not 0 <= x < (1 << w):
                raise Opaque('fp conversion')
            return x % (1 << w)
        raise Opaque(k)

    def cell(self, c, o):
        """byte o of recorded memory contents"""
        for L in reversed(c.layers):
            if isinstance(L, dict):
                for x, (sz, v) in L.items():
                    if x <= o < x + sz:
                        return self.part(v, o - x)
            elif L[0] == 'cell':
                x = self.lin(L[1])
                if x <= o < x + L[2]:
                    return self.part(L[3], o - x)
            elif L[0] == 'range':
                x = self.lin(L[1])
                if x <= o < x + self.lin(L[2]):
                    src = L[3]
                    if src[0] == 'copy':
                        return self.cell(src[2], self.lin(src[3]) + o - x)
                    if src[0] == 'fill':
                        return self.lin(src[1]) & 255
                    raise Opaque('memory ' + src[0])
            else:
                raise Opaque('memory ' + str(L[0]))
        b = c.bottom
        if b[0] == 'bytes':
            return self.byte(b[1], o)
        if b[0] == 'zero':
            return 0
        if b[0] == 'fill':
            return self.lin(b[1]) & 255
        raise Opaque('memory ' + b[0])

    def part(self, v, i):
        if isinstance(v, FV):
            v = self.fv(v)
        elif v is True or v is False or isinstance(v, tuple):
            v = int(self.cond(v))
        elif isinstance(v, Lin):
            v = self.lin(v)
        else:
            raise Opaque('undef')
        return (v >> (8 * i)) & 255

    def num(self, v):
        b = self.fv(v)
        if v.ty == 'f64':
            return struct.unpack('<d', struct.pack('<Q', b))[0]
        if v.ty == 'f32':
            return struct.unpack('<f', struct.pack('<I', b))[0]
        raise Opaque('fp type')

    def fv(self, v):
        """bit pattern of a floating value"""
        k = v.key
        if k[0] == 'bits':
            return self.lin(k[1]) % (1 << (32 if v.ty == 'f32' else 64))
        if k[0] in ('sym', 'ret'):
            return self.at(T.get('fbits', (v.ty, v.key), 0, (1 << (32 if v.ty == 'f32' else 64)) - 1))
        if k[0] in ('fpext', 'fptrunc'):
            return enc(v.ty, self.num(k[2]))
        if k[0] == 'uitofp':
            return enc(v.ty, float(self.lin(k[2]))) if v.ty == 'f64' else self.bad()
        if k[0] == 'sitofp':
            x = self.lin(k[2])
            w = int(k[1][1:])
            if x >> (w - 1):
                x -= 1 << w
            return enc(v.ty, float(x)) if v.ty == 'f64' else self.bad()
        if k[0] == 'fneg':
            return self.fv(k[2]) ^ (1 << (31 if v.ty == 'f32' else 63))
        if k[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'ldexp'):
            return enc(v.ty, self.arith(v.ty, *k))
        raise Opaque('fp ' + str(k[0]))

    def arith(self, ty, op, *g):
        if ty != 'f64':
            raise Opaque('fp')
        try:
            if op == 'ldexp':
                e = self.lin(g[1])
                return math.ldexp(self.num(g[0]), e - (1 << 32) if e >> 31 else e)
            x, y = self.num(g[1]), self.num(g[2])
            return x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
        except (OverflowError, ZeroDivisionError):
            raise Opaque('fp')

    def bad(self):
        raise Opaque('fp')

    def memcmp(self, g):
        n = self.lin(g[2])
        if n > 4096:
            raise Opaque('memcmp')
        pa, pb = self.ptr(g[0]), self.ptr(g[1])
        for i in range(n):
            x, y = self.pbyte(pa, i), self.pbyte(pb, i)
            if x != y:
                return 1 if x > y else 0xffffffff
        return 0

    def ptr(self, p):
        for a, v in p.t:
            if T.info[a][0] == 'addr' and v == 1:
                r = self.eng.addr2reg[a]
                return r, self.lin(p.drop(a))
        raise Opaque('pointer')

    def pbyte(self, p, i):
        r, o = p
        g = r.meta.get('g')
        if g and g.get('const') and 'bytes' in g:
            if 0 <= o + i < len(g['bytes']):
                return g['bytes'][o + i]
            raise Opaque('const')
        if r.kind == 'input':
            return self.byte(r.name, o + i)
        raise Opaque('memory')

    def equate(self, a):
        """make a memcmp atom zero by copying bytes"""
        g = T.info[a][1]
        n = self.lin(g[2])
        if n > 4096:
            raise Opaque('memcmp')
        pa, pb = self.ptr(g[0]), self.ptr(g[1])
        for i in range(n):
            if pb[0].kind == 'input':
                self.bytes[(pb[0].name, pb[1] + i)] = self.pbyte(pa, i)
            elif pa[0].kind == 'input':
                self.bytes[(pa[0].name, pa[1] + i)] = self.pbyte(pb, i)
        self.cache = {}

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'fne':
            a, b = self.fv(c[1]), self.fv(c[2])
            if isnan(c[1].ty, a) and isnan(c[2].ty, b):
                return False
            return a != b
        if k == 'ge':
            return self.lin(c[1]) >= 0
        if k == 'eq':
            return self.lin(c[1]) == 0
        if k == 'ne':
            return self.lin(c[1]) != 0
        if k == 'and':
            return all(self.cond(x) for x in c[1])
        return any(self.cond(x) for x in c[1])


def isnan(ty, b):
    if ty == 'f64':
        return (b >> 52) & 0x7ff == 0x7ff and b & ((1 << 52) - 1) != 0
    return (b >> 23) & 0xff == 0xff and b & ((1 << 23) - 1) != 0


def enc(ty, x):
    if ty == 'f64':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def pick(rnd, lo, hi):
    if lo is None:
        lo = -(1 << 62)
    if hi is None:
        hi = 1 << 62
    if hi - lo <= 300:
        return rnd.randint(lo, hi)
    c = rnd.randrange(6)
    if c == 0:
        return lo
    if c == 1:
        return hi
    if c == 2:
        return lo + rnd.randrange(1 + min(hi - lo, 64))
    if c == 3:
        return hi - rnd.randrange(1 + min(hi - lo, 64))
    b = rnd.randrange((hi - lo).bit_length() + 1)
    return min(hi, lo + rnd.randrange(1 << b) if b else lo)


def atoms_of(f, goal):
    s = set()
    st = []

    def lin(l):
        for a, _ in l.t:
            if a not in s:
                s.add(a)
                st.append(a)

    def any_(x):
        if isinstance(x, Lin):
            lin(x)
        elif isinstance(x, FV):
            pass
        elif isinstance(x, tuple):
            for y in x:
                any_(y)
    def fv(x):
        if isinstance(x, FV):
            for y in x.key:
                if isinstance(y, FV):
                    fv(y)
                elif isinstance(y, Lin):
                    lin(y)
    for r in f.ineq:
        lin(r)
    for r in f.neq:
        lin(r)
    for a, e in f.eq.items():
        lin(atom(a))
        lin(e)
    for a in f.bd:
        lin(atom(a))
    for g in goal:
        if g[0] == 'fne':
            fv(g[1])
            fv(g[2])
        else:
            any_(g[1])
    while st:
        a = st.pop()
        k, g = T.info[a]
        if k in ('bitq', 'bitr'):
            lin(atom(g[0]))
        elif k in SEARCH or k not in FREE:
            any_(g)
    return s


def unjoin(st, rnd, limit=16):
    """a joined partition stands for the union of its parts: members are looked for in the parts"""
    if not any(isinstance(x, tuple) and x and x[0] == 'join' for x in st.approx):
        return [st]

    def pick(approx, f):
        for x in approx:
            if isinstance(x, tuple) and x and x[0] == 'join':
                g, ap = x[1][rnd.randrange(len(x[1]))]
                for a, e in g.eq.items():
                    f.add_eq(atom(a) - e)
                for a, (lo, hi) in g.bd.items():
                    if lo is not None:
                        f.add_ge(atom(a) - lo)
                    if hi is not None:
                        f.add_ge(Lin(hi) - atom(a))
                for c in g.ineq:
                    f.add_ge(c)
                for c in g.neq:
                    f.add_ne(c)
                pick(ap, f)
    out = []
    for i in range(limit):
        s = st.copy()
        pick(st.approx, s.facts)
        if not s.facts.dead and not s.facts.infeasible():
            out.append(s)
    return out


def find(eng, st, goal, tries=120, seed=1):
    """Model satisfying st.facts and all conditions of goal, or None.  Raises Opaque when
    the partition cannot have a faithful witness."""
    rnd = random.Random(seed)
    variants = [[]]
    for g in goal:
        if g[0] == 'ne':
            variants = [v + [('ge', g[1] - 1)] for v in variants] + [v + [('ge', (-g[1]) - 1)] for v in variants]
        elif g[0] == 'or':
            variants = [v + [x] for v in variants for x in g[1]]
        else:
            variants = [v + [g] for v in variants]
    starts = unjoin(st, rnd)
    for var in [(v, s) for v in variants for s in starts]:
        var, s = var
        s = s.copy()
        ss = [s]
        for g in var:
            if g[0] == 'fne':
                continue
            ss = [x for y in ss for x in eng.assume(y, g)]
        for s in ss:
            if s.facts.dead or s.facts.infeasible():
                continue
            m = search(eng, s.facts, goal, rnd, tries)
            if m is not None:
                return m
    return None


def search(eng, f, goal, rnd, tries):
    atoms = atoms_of(f, goal)
    for a in atoms:
        k = T.info[a][0]
        if k not in FREE and a not in eng.exact_phi and k not in ('byte', 'b01', 'wrap', 'div', 'byteof', 'bitq', 'bitr', 'and', 'xor', 'vdiv', 'vrem', 'mul', 'shl',
                                       'lshr', 'tab', 'memcmp', 'fptosi', 'fptoui', 'fcmp', 'amb') and not k.startswith('ctlz.i'):
            raise Opaque(k)
    free = [a for a in atoms if (T.info[a][0] in FREE and T.info[a][0] != 'addr') or a in eng.exact_phi]
    searches = [a for a in atoms if T.info[a][0] in SEARCH]
    bytes_ = [a for a in atoms if T.info[a][0] == 'byte']
    mems = [a for a in atoms if T.info[a][0] == 'memcmp']
    # bytes with constant offsets first: nested offsets depend on them
    bytes_.sort(key=lambda a: nest(a))
    for t in range(tries):
        m = Model(eng, rnd)
        try:
            for a in free + bytes_:
                if a in f.eq:
                    continue
                lo, hi = f.abounds(a)
                m.set(a, pick(rnd, lo, hi))
            for a in free + bytes_:
                e = f.eq.get(a)
                if e is not None:
                    m.set(a, m.lin(f.norm(e)))
            for rep in range(40):
                bad = violated(m, f, free, bytes_, mems)
                if bad is None:
                    break
                if not repair(m, f, bad, rnd):
                    break
            if searches and violated(m, f, free, bytes_, mems) is None and not realise(m, searches):
                continue
            if violated(m, f, free, bytes_, mems) is None and check(m, f) and all(m.cond(g) for g in goal):
                if not indifferent(m, f, goal, [a for a in free if T.info[a][0] == 'undef']):
                    raise Opaque('undef')
                return m
        except Opaque:
            if t > 20:
                raise
    return None


def indifferent(m, f, goal, undefs):
    """the member stays one whatever the undefined bits are"""
    keep = dict(m.v)
    for a in undefs:
        for x in (0, T.hi[a], m.rnd.randrange(T.hi[a] + 1), m.rnd.randrange(T.hi[a] + 1)):
            m.set(a, x)
            if not (check(m, f) and all(m.cond(g) for g in goal)):
                return False
        m.set(a, keep[a])
    return True


def realise(m, searches):
    """choose input bytes so that every search result is what the model says"""
    want = {}
    for a in searches:
        k, g = T.info[a]
        x = m.at(a)
        c = 0 if k == 'strnlen' else m.lin(g[1]) & 255
        n = m.lin(g[-1])
        if x < 0 or x > n:
            return False
        if x > 4096:
            raise Opaque(k)
        r, o = m.ptr(g[0])
        if r.kind != 'input':
            raise Opaque(k)
        for i in range(x + 1 if x < n else x):
            key = (r.name, o + i)
            w = ('eq', c) if i == x else ('ne', c)
            if want.get(key, w) != w:
                return False
            want[key] = w
    for key, (q, c) in want.items():
        if q == 'eq':
            m.bytes[key] = c
        elif m.bytes.get(key, c) == c:
            m.bytes[key] = (c + 1 + m.rnd.randrange(254)) & 255
    m.cache = {}
    return True


def nest(a):
    k, g = T.info[a]
    d = 0
    if k == 'byte':
        for x, _ in g[1].t:
            d = max(d, 1 + nest(x))
    return d


def violated(m, f, free, bytes_, mems):
    for a in mems:
        lo, hi = f.abounds(a)
        e = f.eq.get(a)
        if e is not None and e.is_const() and e.c == 0 and m.at(a) != 0:
            return ('mem', a)
    for a in free + bytes_:
        e = f.eq.get(a)
        if e is not None:
            x = m.lin(e)
            if m.at(a) != x:
                return ('eq', a, x)
    for a in f.bd:
        lo, hi = f.bd[a]
        x = m.at(a)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return ('bd', a, lo, hi)
    for r in f.ineq:
        x = m.lin(r)
        if x < 0:
            return ('ge', r, x)
    for a, e in f.eq.items():
        if m.at(a) != m.lin(e):
            return ('ge', e - atom(a), None)
    for r in f.neq:
        if m.lin(r) == 0:
            return ('ge', r, None)
    return None


def check(m, f):
    return violated(m, f, [], [], []) is None


def repair(m, f, bad, rnd):
    if bad[0] == 'mem':
        m.equate(bad[1])
        return True
    if bad[0] == 'eq':
        if 0 <= bad[2]:
            m.set(bad[1], bad[2])
            return True
        return False
    if bad[0] == 'bd':
        _, a, lo, hi = bad
        k = T.info[a][0]
        if k in FREE or k == 'byte' or a in m.eng.exact_phi:
            m.set(a, pick(rnd, lo, hi))
            return True
        # derived atom: resample something below it
        return resample(m, f, a, rnd)
    r = bad[1]
    c = [(a, v) for a, v in r.t if (T.info[a][0] in FREE or T.info[a][0] == 'byte' or a in m.eng.exact_phi) and T.info[a][0] != 'addr']
    if not c:
        for a, v in r.t:
            if resample(m, f, a, rnd):
                return True
        return False
    a, v = rnd.choice(c)
    if bad[2] is None:
        lo, hi = f.abounds(a)
        m.set(a, pick(rnd, lo, hi))
        return True
    need = -bad[2]
    step = -(-need // abs(v))
    x = m.at(a) + (step if v > 0 else -step)
    lo, hi = f.abounds(a)
    if lo is not None and x < lo:
        x = lo
    if hi is not None and x > hi:
        x = hi
    m.set(a, x)
    return True


def resample(m, f, a, rnd):
    k, g = T.info[a]
    st = [a]
    leaf = []
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        k, g = T.info[x]
        if k in FREE or k == 'byte' or x in m.eng.exact_phi:
            if k != 'addr':
                leaf.append(x)
            continue
        if k in ('bitq', 'bitr'):
            st.append(g[0])
        for y in g:
            if isinstance(y, Lin):
                st.extend(z for z, _ in y.t)
    if not leaf:
        return False
    x = rnd.choice(leaf)
    lo, hi = f.abounds(x)
    m.set(x, pick(rnd, lo, hi))
    return True


def describe(m):
    out = []
    for a, x in sorted(m.v.items()):
        if T.info[a][0] == 'sym':
            out.append('%s=%d' % (T.info[a][1][0], x))
    by = {}
    for (rn, o), x in m.bytes.items():
        if 0 <= o < 64:
            by.setdefault(rn, {})[o] = x
    for rn, d in sorted(by.items()):
        out.append('%s: %s' % (rn, ' '.join('[%d]=%02x' % (o, d[o]) for o in sorted(d))))
    return '; '.join(out)
