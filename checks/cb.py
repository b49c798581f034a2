"""RFC 8949 as a table: for the data item at offset o of the input, one entry per class of
initial byte.  Written from the RFC, not from the code."""
import struct
from core import *
from absint import FV, c_ge, c_eq, c_and
import mp
import rules
import witness
from mp import byte, be

CBOR = ['-I' + VERIF + '/standin_cbor']
MAJOR = ['uint', 'nint', 'bytes', 'text', 'array', 'map', 'tag']
ARG = {'': 0, '8': 1, '16': 2, '32': 4, '64': 8}
CLASSES = []
for _m, _n in enumerate(MAJOR):
    _b = _m << 5
    CLASSES.append((_n, _b, _b + 23))
    for _i, _w in enumerate(('8', '16', '32', '64')):
        CLASSES.append((_n + _w, _b + 24 + _i, _b + 24 + _i))
    CLASSES.append((_n + ' reserved', _b + 28, _b + 30))
    CLASSES.append((_n + (' indefinite' if 2 <= _m <= 5 else ' reserved31'), _b + 31, _b + 31))
CLASSES += [('simple', 0xe0, 0xf3), ('false', 0xf4, 0xf4), ('true', 0xf5, 0xf5), ('null', 0xf6, 0xf6), ('undefined', 0xf7, 0xf7),
            ('simple8', 0xf8, 0xf8), ('half', 0xf9, 0xf9), ('single', 0xfa, 0xfa), ('double', 0xfb, 0xfb), ('float reserved', 0xfc, 0xfe), ('break', 0xff, 0xff)]
BY = {c[0]: c for c in CLASSES}
FLT = {'half': 2, 'single': 4, 'double': 8}
KINDS = {'isNull': lambda k: k == 'null', 'isBool': lambda k: k in ('true', 'false'), 'isInt': lambda k: k in ('uint', 'nint'), 'isUInt': lambda k: k == 'uint',
         'isFloat': lambda k: k in FLT, 'isString': lambda k: k == 'text', 'isBlob': lambda k: k == 'bytes', 'isArray': lambda k: k == 'array', 'isMap': lambda k: k == 'map'}


def kind(cls):
    """(kind, argument width or None)"""
    for n in MAJOR:
        if cls.startswith(n):
            t = cls[len(n):]
            if t in ARG:
                return n, ARG[t]
            return n, None
    return cls, None


def argument(eng, st, cls, o):
    k, w = kind(cls)
    if w == 0:
        return 1, byte(eng, st, o) - (MAJOR.index(k) << 5)
    return 1 + w, be(eng, st, o + 1, w)


def spec(eng, st, cls, acc, o):
    k, w = kind(cls)
    bad = 'reserved' in cls
    if acc in KINDS:
        if cls == 'break':
            return []
        need = 1 + w if w is not None else 1 + FLT.get(cls, 1 if cls == 'simple8' else 0)
        return [(st, need, None if bad else [bool(KINDS[acc](k))])]
    no = [(st, 1, None)]
    if bad:
        return no
    if acc == 'asBool':
        return [(st, 1, [cls == 'true'] if cls in ('true', 'false') else None)]
    if acc in mp.INTACC:
        if k not in ('uint', 'nint'):
            return no
        bits, sg = mp.INTACC[acc]
        need, v = argument(eng, st, cls, o)
        if k == 'nint' and not sg:
            return no
        lim = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
        out = []
        for s in eng.assume(st.copy(), c_ge((-v) + lim)):
            out.append((s, need, [v if k == 'uint' else (-v) + ((1 << 64) - 1)]))
        for s in eng.assume(st.copy(), c_ge(v - lim - 1)):
            out.append((s, need, None))
        return out
    if acc in ('asDouble', 'asFloat'):
        if cls not in FLT:
            return no
        n = FLT[cls]
        bits = be(eng, st, o + 1, n)
        if cls == 'half':
            return [(st, 3, ['half', bits, acc])]
        f = FV('f%d' % (8 * n), ('bits', bits))
        if acc == 'asDouble':
            v = f if n == 8 else FV('f64', ('fpext', 'f32', f))
        else:
            v = f if n == 4 else FV('f32', ('fptrunc', 'f64', f))
        return [(st, 1 + n, [v])]
    for a, want in (('asStringView', 'text'), ('asBlob', 'bytes')):
        if acc == a:
            if k != want or w is None:
                return no           # indefinite-length strings have no contiguous view
            h, n = argument(eng, st, cls, o)
            return [(st, n + h, ['view', o + h, n])]
    if acc == 'arraySize':
        if k != 'array':
            return no
        if w is None:
            return []               # counted: see the element shapes
        h, n = argument(eng, st, cls, o)
        return [(st, h, [n])]
    raise Broken(acc)


def agrees(m, f):
    """the facts that speak about the fixed bytes only hold of them"""
    def known(l):
        return all(fixed(a) for a, _ in l.t)

    def fixed(a):
        k, g = T.info[a]
        if k == 'byte':
            return (g[0], m.lin(g[1])) in m.bytes if known(g[1]) else False
        if k in ('bitq', 'bitr'):
            return fixed(g[0])
        if k == 'div':
            return known(g[0])
        if k == 'and':
            return known(g[0]) and known(g[1])
        return False
    for a, x in f.eq.items():
        if fixed(a) and known(x) and m.at(a) != m.lin(x):
            return False
    for a in f.bd:
        lo, hi = f.bd[a]
        if fixed(a) and (lo is not None and m.at(a) < lo or hi is not None and m.at(a) > hi):
            return False
    return all(m.lin(l) >= 0 for l in f.ineq if known(l)) and all(m.lin(l) != 0 for l in f.neq if known(l))


def half_value(h):
    return struct.unpack('<e', struct.pack('<H', h))[0]


DEEP = False


def inclass(eng, st, lo, hi, o):
    """the initial byte lies in lo..hi (one major type): stated for the byte and for its two fields"""
    out = []
    for s in mp.inclass(eng, st, lo, hi, o):
        b = byte(eng, s, o)
        m = eng.bits(s, b, 5, 8)
        a = eng.bits(s, b, 0, 5)
        s.facts.add_eq(m - (lo >> 5))
        d = T.key2id.get(('div', (b, 32)))          # the engine's other name for the same field
        if d is not None:
            s.facts.add_eq(atom(d) - (lo >> 5))
        for x in eng.assume(s, c_and(c_ge(a - (lo & 31)), c_ge((-a) + (hi & 31)))):
            out.append(x)
    return out


def case(r, R, eng, e, q, need, out, acc, o, avail, where, prop):
    if acc in KINDS and e.kind == 'ret':
        need = 1            # a truncated value still has its kind; the reader may also reject it
    if out is None or out[0] != 'half':
        return mp.one(r, R, eng, e, q, need, out, acc, o, avail, where, prop)
    if e.kind != 'ret':
        return mp.one(r, R, eng, e, q, need, [ZERO], acc, o, avail, where, prop)
    if q.facts.infeasible():
        return
    R.must(q, c_ge(avail - need), prop, '%s %s length' % (acc, where), '%s on %s succeeds although the value is truncated' % (acc, where), e.ins)
    got = mp.sinks(q)[0][1]
    fr = range(1024) if DEEP else (0, 1, 2, 3, 0x55, 0x1ff, 0x200, 0x2aa, 0x3fe, 0x3ff)
    import random
    for h in (s << 15 | x << 10 | f for s in (0, 1) for x in range(32) for f in fr):
        s = q.copy()
        s.facts.add_eq(byte(eng, s, o + 1) - (h >> 8))
        s.facts.add_eq(byte(eng, s, o + 2) - (h & 255))
        if s.facts.dead:
            continue
        m = witness.Model(eng, random.Random(1))
        try:
            o0 = m.lin(o)
            m.bytes[('in', o0)] = 0xf9
            m.bytes[('in', o0 + 1)] = h >> 8
            m.bytes[('in', o0 + 2)] = h & 255
            if not agrees(m, s.facts):
                continue
            w = half_value(h)
            ty = 'f64' if acc == 'asDouble' else 'f32'
            a, b = m.fv(got) if isinstance(got, FV) else None, witness.enc(ty, w)
        except witness.Opaque as ex:
            r.unk('%s: half-precision value not evaluated (%s)' % (r.name, ex))
            return
        if a is None:
            r.unk('%s: half-precision result not tracked' % r.name)
            return
        if a != b and not (witness.isnan(ty, a) and witness.isnan(ty, b)):
            if s.facts.infeasible():
                continue
            r.bad('%s half' % acc, '%s: %s on the half-precision value %04x returns other bits (%x) than the RFC assigns (%x) [%s]' % (loc_of(e.ins), acc, h, a, b, r.name))
            return
        r.inst('half')


def judge(r, eng, acc, o, avail, where, **kw):
    mp.judge(r, eng, acc, o, avail, where, strict_throw=True, spec=spec, case=case, inclass=inclass, **dict({'classes': CLASSES}, **kw))
