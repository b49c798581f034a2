"""The Zera v1 format (ZERA.md) as a table of acceptance conditions and results."""
from core import *
from absint import FV, c_ge, c_eq, c_ne, c_and, c_or, c_not
import rules
from mp import sinks


def le(eng, st, o, n, rn='in'):
    v = ZERO
    for i in range(n):
        v = v + eng.as_lin(st, eng.read(st, rn, o + i, 'i8'), 8).scale(1 << (8 * i))
    return st.facts.norm(v)


def u8(eng, st, o):
    return le(eng, st, o, 1)


class Hdr:
    def __init__(self, eng, st):
        Z = lambda o, n: le(eng, st, Lin(o), n)
        self.n = eng.syms['in']
        self.magic, self.ver, self.flags = Z(0, 4), Z(4, 2), Z(6, 2)
        self.root, self.env, self.arena = Z(8, 4), Z(12, 4), Z(16, 4)
        self.lo4 = eng.bits(st, self.arena, 0, 4)

    def conds(self):
        """(name, condition) pairs; all together = valid header"""
        return [('full header', c_ge(self.n - 20)),
                ('magic', c_eq(self.magic - 0x564E455A)),
                ('version 1', c_eq(self.ver - 1)),
                ('little-endian flag', c_eq(self.flags - 1)),
                ('arena inside the buffer', c_ge(self.n - self.arena)),
                ('arena multiple of 16', c_eq(self.lo4)),
                ('envelope before arena', c_ge(self.arena - self.env - 20)),
                ('root inside envelope', c_ge(self.env - self.root - 16))]


def restrict(eng, st, conds):
    ss = [st]
    for c in conds:
        ss = [x for y in ss for x in eng.assume(y, c)]
    return [s for s in ss if not s.facts.dead]


TAGS = {'isNull': 0, 'isBool': 1, 'isInt': 2, 'isUInt': 8, 'isFloat': 3, 'isString': 4, 'isArray': 5, 'isMap': 6}
INTACC = {'asInt8': (8, 1), 'asInt16': (16, 1), 'asInt32': (32, 1), 'asInt64': (64, 1),
          'asUInt8': (8, 0), 'asUInt16': (16, 0), 'asUInt32': (32, 0), 'asUInt64': (64, 0)}


def alternatives(eng, st, H, acc, o):
    """accepting alternatives of accessor acc on the ValueRef at absolute offset o: (conds, expected)"""
    t, fl, aux = u8(eng, st, o), u8(eng, st, o + 1), le(eng, st, o + 2, 2)
    a, b, c = le(eng, st, o + 4, 4), le(eng, st, o + 8, 4), le(eng, st, o + 12, 4)
    T_ = lambda k: c_eq(t - k)
    if acc in TAGS:
        return [([T_(TAGS[acc])], [True]), ([c_ne(t - TAGS[acc])], [False])]
    if acc == 'isBlob':
        return [([T_(7), c_eq(aux - 2)], [True]), ([T_(7), c_ne(aux - 2)], [False]), ([c_ne(t - 7)], [False])]
    F0 = c_eq(fl)
    if acc == 'asBool':
        return [([T_(1), F0, c_eq(aux)], [False]), ([T_(1), F0, c_eq(aux - 1)], [True])]
    bits = a + b.scale(1 << 32)
    if acc in INTACC:
        w, sg = INTACC[acc]
        M = 1 << 64
        out = []
        if sg:
            h = 1 << (w - 1)
            out.append(([T_(2), F0, c_ge((-bits) + (h - 1))], [bits]))
            out.append(([T_(2), F0, c_ge(bits - (M - h))], [bits]))
            out.append(([T_(8), F0, c_ge((-bits) + (h - 1))], [bits]))
        else:
            hi = (1 << w) - 1
            out.append(([T_(2), F0, c_ge((-bits) + min(hi, (1 << 63) - 1))], [bits]))
            out.append(([T_(8), F0, c_ge((-bits) + hi)], [bits]))
        return out
    if acc == 'asDouble':
        return [([T_(3), F0], [FV('f64', ('bits', bits))])]
    if acc == 'asFloat':
        return [([T_(3), F0], [FV('f32', ('fptrunc', 'f64', FV('f64', ('bits', bits))))])]
    inar = c_ge(H.n - H.arena - a - b)
    if acc in ('asStringView', 'asString'):
        return [([T_(4), c_eq(fl - 1), c_ge((-aux) + 12)], ['view', o + 4, aux]),
                ([T_(4), F0, inar], ['view', H.arena + a, b])]
    if acc == 'asBlob':
        sh = c + 20
        return [([T_(7), c_eq(aux - 2), F0, c_ge(H.env - c - 12), c_eq(le(eng, st, sh, 4) - 1), c_eq(le(eng, st, sh + 4, 8) - b), inar],
                 ['view', H.arena + a, b])]
    if acc == 'arraySize':
        n = le(eng, st, a + 20, 4)
        return [([T_(5), F0, c_ge(H.env - a - 4), c_ge(H.env - a - 4 - n.scale(16))], [n])]
    raise Broken(acc)


def index_conds(eng, st, H, o, idx):
    """conditions for element idx of the array at o to exist, and its absolute offset"""
    a = le(eng, st, o + 4, 4)
    n = le(eng, st, a + 20, 4)
    off = a + 24 + idx.scale(16)
    return [c_eq(u8(eng, st, o) - 5), c_eq(u8(eng, st, o + 1)), c_ge(H.env - a - 4), c_ge(n - idx - 1), c_ge(H.env - a - 20 - idx.scale(16))], off


def judge(r, eng, acc, prop, where, base_of, alts_of, exits=None):
    """base_of(eng, st) -> (list of (name, cond) that every normal exit must imply, H, o)"""
    R = rules.Rule(r, eng)
    for e in exits if exits is not None else eng.exits:
        if e.kind == 'unknown':
            continue
        st = e.st.copy()
        base, H, o = base_of(eng, st)
        if e.kind == 'ret':
            for nm, c in base:
                R.must(st, c, prop, '%s %s %s' % (acc, where, nm), '%s on %s succeeds without: %s' % (acc, where, nm), e.ins)
        for s in restrict(eng, st, [c for _, c in base]):
            alts = alts_of(eng, s, H, acc, o)
            rest = [s.copy()]
            for i, (conds, out) in enumerate(alts):
                for q in restrict(eng, s.copy(), conds):
                    if e.kind == 'throw':
                        R.never(q, prop, '%s %s rejects alt %d' % (acc, where, i), '%s on %s throws on a valid value (alternative %d)' % (acc, where, i), e.ins)
                    elif e.kind == 'ret':
                        result(R, eng, e, q, out, acc, '%s alt %d' % (where, i), prop)
                    else:
                        R.never(q, prop, '%s %s %s' % (acc, where, e.kind), '%s on %s ends in %s' % (acc, where, e.kind), e.ins)
                if e.kind == 'ret':
                    rest = [x for y in rest for x in eng.assume(y, c_not(c_and(*conds)))]
            if e.kind == 'ret':
                for q in rest:
                    R.never(q, prop, '%s %s accepts' % (acc, where), '%s on %s succeeds on a value it must reject' % (acc, where), e.ins)


def result(R, eng, e, q, out, acc, where, prop):
    if q.facts.dead or q.facts.infeasible():
        return
    key = '%s %s' % (acc, where)
    sk = sinks(q)
    if len(sk) != 1:
        R.never(q, prop, key + ' results', '%s on %s produced %d results' % (acc, where, len(sk)), e.ins)
        return
    sk = sk[0]
    if out[0] == 'view':
        n = out[2]
        R.equal(q, sk[2], n, prop, key + ' size', '%s on %s returns a view of the wrong length' % (acc, where), e.ins)
        rp = eng.split_ptr(q, sk[1])
        nz = [c_ge(n - 1)]
        if rp is None:
            R.must(q, None if not (isinstance(sk[1], Lin) and sk[1].is_const()) else False, prop, key + ' start',
                   '%s on %s returns a null view' % (acc, where), e.ins, pre=nz)
        elif rp[0].name != 'in':
            R.never(q, prop, key + ' start', '%s on %s returns a view of %s, not of the input' % (acc, where, rp[0].name), e.ins, pre=nz)
        else:
            R.equal(q, rp[1], out[1], prop, key + ' start', '%s on %s returns a view at the wrong place' % (acc, where), e.ins, pre=nz)
    else:
        R.equal(q, sk[1], out[0], prop, key + ' value', '%s on %s does not return the encoded value' % (acc, where), e.ins)


def root_base(eng, st):
    H = Hdr(eng, st)
    return H.conds(), H, H.root + 20


def elem_base(eng, st):
    H = Hdr(eng, st)
    cs = H.conds()
    ics, off = index_conds(eng, st, H, H.root + 20, eng.as_lin(st, eng.syms[2]))
    return cs + [('element %d' % i, c) for i, c in enumerate(ics)], H, off
