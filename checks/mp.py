"""The MessagePack specification as a table: for the value at offset o of the input, one
entry per marker class.  Written from the specification, not from the code."""
from core import *
from absint import FV, c_ge, c_eq, c_and
import rules

# name, lo, hi, kind
CLASSES = [
    ('posfixint', 0x00, 0x7f), ('fixmap', 0x80, 0x8f), ('fixarray', 0x90, 0x9f), ('fixstr', 0xa0, 0xbf),
    ('nil', 0xc0, 0xc0), ('unused', 0xc1, 0xc1), ('false', 0xc2, 0xc2), ('true', 0xc3, 0xc3),
    ('bin8', 0xc4, 0xc4), ('bin16', 0xc5, 0xc5), ('bin32', 0xc6, 0xc6),
    ('ext8', 0xc7, 0xc7), ('ext16', 0xc8, 0xc8), ('ext32', 0xc9, 0xc9),
    ('float32', 0xca, 0xca), ('float64', 0xcb, 0xcb),
    ('uint8', 0xcc, 0xcc), ('uint16', 0xcd, 0xcd), ('uint32', 0xce, 0xce), ('uint64', 0xcf, 0xcf),
    ('int8', 0xd0, 0xd0), ('int16', 0xd1, 0xd1), ('int32', 0xd2, 0xd2), ('int64', 0xd3, 0xd3),
    ('fixext1', 0xd4, 0xd4), ('fixext2', 0xd5, 0xd5), ('fixext4', 0xd6, 0xd6), ('fixext8', 0xd7, 0xd7), ('fixext16', 0xd8, 0xd8),
    ('str8', 0xd9, 0xd9), ('str16', 0xda, 0xda), ('str32', 0xdb, 0xdb),
    ('array16', 0xdc, 0xdc), ('array32', 0xdd, 0xdd), ('map16', 0xde, 0xde), ('map32', 0xdf, 0xdf),
    ('negfixint', 0xe0, 0xff),
]
SIGNED = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8}
UNSIGNED = {'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8}
STR = {'fixstr': 0, 'str8': 1, 'str16': 2, 'str32': 4}
BIN = {'bin8': 1, 'bin16': 2, 'bin32': 4}
ARR = {'fixarray': 0, 'array16': 2, 'array32': 4}
MAP = {'fixmap': 0, 'map16': 2, 'map32': 4}
FLT = {'float32': 4, 'float64': 8}
KINDS = {
    'isNull': {'nil'}, 'isBool': {'true', 'false'},
    'isInt': {'posfixint', 'negfixint'} | set(SIGNED), 'isUInt': {'posfixint'} | set(UNSIGNED),
    'isFloat': set(FLT), 'isString': set(STR), 'isBlob': set(BIN), 'isArray': set(ARR), 'isMap': set(MAP),
}


def byte(eng, st, o, rn='in'):
    return eng.as_lin(st, eng.read(st, rn, o, 'i8'), 8)


def be(eng, st, o, n):
    v = ZERO
    for i in range(n):
        v = v + byte(eng, st, o + i).scale(1 << (8 * (n - 1 - i)))
    return st.facts.norm(v)


def length(eng, st, cls, tab, o):
    """(header size, length or count)"""
    k = tab[cls]
    if k == 0:
        base = {'fixstr': 0xa0, 'fixarray': 0x90, 'fixmap': 0x80}[cls]
        return 1, byte(eng, st, o) - base
    return 1 + k, be(eng, st, o + 1, k)


def integer(eng, st, cls, o):
    """list of (state, need, signed mathematical value)"""
    if cls == 'posfixint':
        return [(st, 1, byte(eng, st, o))]
    if cls == 'negfixint':
        return [(st, 1, byte(eng, st, o) - 256)]
    if cls in UNSIGNED:
        return [(st, 1 + UNSIGNED[cls], be(eng, st, o + 1, UNSIGNED[cls]))]
    if cls in SIGNED:
        w = SIGNED[cls]
        return [(s, 1 + w, v) for s, v in eng.signed(st, be(eng, st, o + 1, w), 8 * w)]
    return None


INTACC = {'asInt8': (8, 1), 'asInt16': (16, 1), 'asInt32': (32, 1), 'asInt64': (64, 1),
          'asUInt8': (8, 0), 'asUInt16': (16, 0), 'asUInt32': (32, 0), 'asUInt64': (64, 0)}


def spec(eng, st, cls, acc, o):
    """cases (state, need, outcome): outcome None = reject, else list of expected sink arguments.
    st already lies in class cls; consumed."""
    if acc in KINDS:
        return [(st, 1, [cls in KINDS[acc]])]
    if acc == 'asBool':
        return [(st, 1, [cls == 'true'] if cls in ('true', 'false') else None)]
    if acc in INTACC:
        w, sg = INTACC[acc]
        vs = integer(eng, st, cls, o)
        if vs is None:
            return [(st, 1, None)]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        out = []
        for s, need, v in vs:
            s2 = s.copy()
            s3 = s.copy()
            for q in eng.assume(s, c_and(c_ge(v - lo), c_ge((-v) + hi))):
                x = v if not sg or q.facts.entails_ge(v) else v + (1 << 64)
                if sg and not q.facts.entails_ge(v) and not q.facts.entails_ge((-v) - 1):
                    for q2, x2 in ((p, v) for p in eng.assume(q.copy(), c_ge(v))):
                        out.append((q2, need, [x2]))
                    for q2 in eng.assume(q, c_ge((-v) - 1)):
                        out.append((q2, need, [v + (1 << 64)]))
                    continue
                out.append((q, need, [x]))
            for q in eng.assume(s2, c_ge((-v) + lo - 1)):
                out.append((q, need, None))
            for q in eng.assume(s3, c_ge(v - hi - 1)):
                out.append((q, need, None))
        return out
    if acc in ('asDouble', 'asFloat'):
        if cls not in FLT:
            return [(st, 1, None)]
        n = FLT[cls]
        bits = be(eng, st, o + 1, n)
        f = FV('f%d' % (8 * n), ('bits', bits))
        if acc == 'asDouble':
            v = f if n == 8 else FV('f64', ('fpext', 'f32', f))
        else:
            v = f if n == 4 else FV('f32', ('fptrunc', 'f64', f))
        return [(st, 1 + n, [v])]
    for a, tab in (('asStringView', STR), ('asBlob', BIN)):
        if acc == a:
            if cls not in tab:
                return [(st, 1, None)]
            h, n = length(eng, st, cls, tab, o)
            return [(st, n + h, ['view', o + h, n])]
    if acc == 'arraySize':
        if cls not in ARR:
            return [(st, 1, None)]
        h, n = length(eng, st, cls, ARR, o)
        return [(st, h, [n])]
    raise Broken(acc)


def inclass(eng, st, lo, hi, o):
    b = byte(eng, st, o)
    return eng.assume(st, c_and(c_ge(b - lo), c_ge((-b) + hi)))


def sinks(st):
    return [e for e in st.events() if isinstance(e, tuple) and str(e[0]).startswith('sink_')]


def judge(r, eng, acc, o, avail_of, where, classes=None, prop='decode', strict_throw=False, spec=spec, case=None, inclass=inclass):
    """compare every exit of the entry point with the specification of accessor acc at offset o.
    avail_of: Lin, bytes of input available from offset o."""
    R = rules.Rule(r, eng)
    case = case or one
    for e in eng.exits:
        if e.kind == 'unknown':
            continue
        # nothing there at all
        st = e.st.copy()
        for s in eng.assume(st, c_ge(-avail_of)):
            if strict_throw:
                break
            if e.kind == 'ret':
                sk = sinks(s)
                if acc in KINDS:
                    R.equal(s, sk[-1][1] if sk else None, False, prop, 'empty %s %s' % (acc, where), '%s on an empty value is not false' % acc, e.ins)
                else:
                    R.never(s, prop, 'empty %s %s' % (acc, where), '%s returns normally on an empty value' % acc, e.ins)
        for cls, lo, hi in (classes or CLASSES):
            st = e.st.copy()
            for s0 in eng.assume(st, c_ge(avail_of - 1)):
                for s in inclass(eng, s0, lo, hi, o):
                    for q, need, out in spec(eng, s, cls, acc, o):
                        case(r, R, eng, e, q, need, out, acc, o, avail_of, '%s %s' % (cls, where), prop)


def one(r, R, eng, e, q, need, out, acc, o, avail, where, prop):
    if q.facts.dead or q.facts.infeasible():
        return
    key = '%s %s' % (acc, where)
    full = [c_ge(avail - need)]
    if e.kind == 'ret':
        if out is None:
            R.never(q, prop, key + ' accepts', '%s accepts a %s value that it must reject' % (acc, where), e.ins, pre=full)
            return
        sk = sinks(q)
        if len(sk) != 1:
            R.never(q, prop, key + ' results', '%s on %s produced %d results' % (acc, where, len(sk)), e.ins)
            return
        sk = sk[0]
        R.must(q, c_ge(avail - need), prop, key + ' length', '%s on %s succeeds although the value is truncated' % (acc, where), e.ins)
        if out[0] == 'view':
            n = out[2]
            R.equal(q, sk[2], n, prop, key + ' size', '%s on %s returns a view of the wrong length' % (acc, where), e.ins, pre=full)
            rp = eng.split_ptr(q, sk[1])
            nz = full + [c_ge(n - 1)]
            if rp is None:
                R.must(q, None if not (isinstance(sk[1], Lin) and sk[1].is_const()) else False, prop, key + ' start',
                       '%s on %s returns a null view' % (acc, where), e.ins, pre=nz)
            elif rp[0].name != 'in':
                R.never(q, prop, key + ' start', '%s on %s returns a view of %s, not of the input' % (acc, where, rp[0].name), e.ins, pre=nz)
            else:
                R.equal(q, rp[1], o + out[1] - o, prop, key + ' start', '%s on %s returns a view at the wrong place' % (acc, where), e.ins, pre=nz)
        else:
            R.equal(q, sk[1], out[0], prop, key + ' value', '%s on %s does not return the encoded value' % (acc, where), e.ins, pre=full)
    elif e.kind == 'throw':
        if out is not None:
            R.never(q, prop, key + ' rejects', '%s throws on a complete %s value' % (acc, where), e.ins, pre=full)
    else:
        R.never(q, prop, key + ' ' + e.kind, '%s ends in %s on %s' % (acc, e.kind, where), e.ins)
