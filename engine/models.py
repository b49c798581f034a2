"""Models of the run-time library calls that the analysed code makes."""
import re
from lin import Lin, T, ZERO, ONE, atom, show
from absint import (Give, UNDEF, FV, c_and, c_or, c_ge, c_eq, c_not, c_ne, Exit, Cont, width, loc_of)

IGNORE = ('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.invariant.', 'llvm.donothing',
          'llvm.prefetch')


def call(eng, F, st, ins, callee, args):
    if ins.get('intr') or callee.startswith('llvm.'):
        return intrinsic(eng, F, st, ins, callee, args)
    m = C.get(callee)
    if m:
        r = m(eng, F, st, ins, callee, args)
        if r is not None:
            return r
    base = eng.mod.base(callee)
    for rx, m in DEM:
        if rx.match(base):
            r = m(eng, F, st, ins, callee, args)
            if r is not None:
                return r
    if eng.vecmodel:
        return eng.vecmodel(eng, F, st, ins, callee, base, args)
    return None


def ret(st, v=None):
    return [('ret', st, v, None)]


def intrinsic(eng, F, st, ins, callee, a):
    for p in IGNORE:
        if callee.startswith(p):
            return ret(st, UNDEF)
    n = callee[5:]
    if n.startswith(('memcpy', 'memmove')):
        eng.memcpy(st, a[0], a[1], eng.as_lin(st, a[2]), ins, n.split('.')[0])
        return ret(st)
    if n.startswith('memset'):
        eng.memset(st, a[0], a[1], eng.as_lin(st, a[2]), ins)
        return ret(st)
    if n.startswith('assume'):
        return [('ret', s, None, None) for s in eng.assume(st, eng.as_cond(a[0]))]
    if n.startswith('expect'):
        return ret(st, a[0])
    if n.startswith('trap'):
        return [('trap', st, None, ins)]
    if n.startswith(('umin', 'umax', 'smin', 'smax')):
        w = width(ins['ty'])
        x, y = eng.as_lin(st, a[0], w), eng.as_lin(st, a[1], w)
        pred = {'umin': 'ule', 'umax': 'uge', 'smin': 'sle', 'smax': 'sge'}[n[:4]]
        out = []
        for s, c in eng.icmp(st, pred, x, y, ins['ty']):
            s2 = s.copy()
            out += [('ret', q, x, None) for q in eng.assume(s, c)]
            out += [('ret', q, y, None) for q in eng.assume(s2, c_not(c))]
        return out
    if n.startswith('usub.sat'):
        w = width(ins['ty'])
        x, y = eng.as_lin(st, a[0], w), eng.as_lin(st, a[1], w)
        s2 = st.copy()
        return [('ret', q, x - y, None) for q in eng.assume(st, c_ge(x - y))] + \
               [('ret', q, ZERO, None) for q in eng.assume(s2, c_ge(y - x - 1))]
    if n.startswith('uadd.sat'):
        w = width(ins['ty'])
        x, y = eng.as_lin(st, a[0], w), eng.as_lin(st, a[1], w)
        M = (1 << w) - 1
        s2 = st.copy()
        return [('ret', q, x + y, None) for q in eng.assume(st, c_ge((-x) - y + M))] + \
               [('ret', q, Lin(M), None) for q in eng.assume(s2, c_ge(x + y - M - 1))]
    m = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
    if m:
        w = int(m.group(3))
        x, y = eng.as_lin(st, a[0], w), eng.as_lin(st, a[1], w)
        if m.group(1) == 's':
            out = []
            for s1, sx in eng.signed(st, x, w):
                for s2, sy in eng.signed(s1, y, w):
                    out += ovf(eng, s2, m.group(2), sx, sy, w, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return out
        return ovf(eng, st, m.group(2), x, y, w, 0, (1 << w) - 1)
    if n.startswith('bswap'):
        w = width(ins['ty'])
        x = eng.as_lin(st, a[0], w)
        r = ZERO
        k = w // 8
        for i in range(k):
            b = eng.bits(st, x, 8 * i, 8 * i + 8)
            r = r + b.scale(1 << (8 * (k - 1 - i)))
        return ret(st, st.facts.norm(r))
    if n.startswith('abs.'):
        w = width(ins['ty'])
        out = []
        for s, x in eng.signed(st, eng.as_lin(st, a[0], w), w):
            out.append(('ret', s, x if s.facts.entails_ge(x) else -x, None))
        return out
    if n.startswith(('fshl', 'fshr')):
        w = width(ins['ty'])
        x, y, z = (eng.as_lin(st, q, w) for q in a)
        z = st.facts.norm(z)
        if z.is_const():
            k = z.c % w
            if n.startswith('fshr'):
                k = (w - k) % w
            if k == 0:
                return ret(st, x if n.startswith('fshl') else y)
            hi = eng.trunc(st, x.scale(1 << k), w)
            lo = eng.div2k(st, y, w - k)
            return ret(st, hi + lo)
        return ret(st, atom(eng.fresh('ret', 0, (1 << w) - 1, callee, st)))
    if n.startswith('threadlocal.address'):
        return ret(st, a[0])
    if n.startswith('is.constant'):
        return ret(st, False)
    if n.startswith('objectsize'):
        return ret(st, Lin((1 << 64) - 1))
    if n.startswith('eh.typeid.for'):
        return ret(st, atom(T.get('tid', (str(ins['args'][0]),), 1, (1 << 31) - 1)))
    if n.startswith(('ctpop', 'ctlz', 'cttz')):
        w = width(ins['ty'])
        x = st.facts.norm(eng.as_lin(st, a[0], w))
        if x.is_const() and x.c > 0:
            x = x.c & ((1 << w) - 1)
            return ret(st, Lin(bin(x).count('1') if n[:5] == 'ctpop' else w - x.bit_length() if n[:4] == 'ctlz' else (x & -x).bit_length() - 1))
        return ret(st, atom(T.get(n, (st.facts.norm(eng.as_lin(st, a[0], w)),), 0, w)))
    if n.startswith(('fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'sqrt', 'fmuladd', 'copysign', 'minnum', 'maxnum')):
        return ret(st, FV(ins['ty'], (n,) + tuple(a)))
    if n.startswith('is.fpclass'):
        return ret(st, ('ge', atom(T.get('fpclass', tuple(x if isinstance(x, (FV, Lin)) else str(x) for x in a), 0, 1)) - 1))
    raise Give('intrinsic ' + callee, ins)


def ovf(eng, st, op, x, y, w, lo, hi):
    if op == 'mul':
        x, y = st.facts.norm(x), st.facts.norm(y)
        if x.is_const():
            s = y.scale(x.c)
        elif y.is_const():
            s = x.scale(y.c)
        else:
            s = eng.prod(st, x, y)
    else:
        s = x + y if op == 'add' else x - y
    s2 = st.copy()
    out = []
    inr = c_and(c_ge(s - lo), c_ge((-s) + hi))
    for q in eng.assume(st, inr):
        v = s
        if lo < 0:
            for q2, v2 in eng.wrap(q, s, w):
                out.append(('ret', q2, (v2, False), None))
        else:
            out.append(('ret', q, (v, False), None))
    for q in eng.assume(s2, c_not(inr)):
        out.append(('ret', q, (eng.wrap1(q, s, w), True), None))
    return out


# ---------------------------------------------------------------- C library
def generic_byte(eng, st, p, n):
    """the byte at an arbitrary index below n of the memory at p: (value, index), or None"""
    s = st.copy()
    j = atom(T.get('sym', ('jm',), 0, 1 << 62))
    s.facts.add_ge(n - j - 1)
    if s.facts.dead or s.facts.infeasible():
        return None
    rp = eng.split_ptr(s, s.facts.norm(p))
    if rp is None or not s.mem[rp[0].name].alive:
        return None
    eng.quiet += 1
    try:
        v = eng.read(s, rp[0].name, s.facts.norm(rp[1] + j), 'i8')
    except Give:
        return None
    finally:
        eng.quiet -= 1
    return (s.facts.norm(v), j) if isinstance(v, Lin) else None


def origin(eng, st, p, n):
    """pointer into an input region that holds the same n bytes as p, or p itself"""
    rp = eng.split_ptr(st, p)
    if rp is None or rp[0].kind == 'input':
        return p, None
    g = generic_byte(eng, st, p, n)
    if g is None:
        return p, None
    v, j = g
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and T.info[v.t[0][0]][0] == 'byte':
        rn, ix = T.info[v.t[0][0]][1]
        off = st.facts.norm(ix - j)
        if off.coef(j.t[0][0]) == 0 and rn in st.mem and st.mem[rn].alive and eng.regions[rn].kind == 'input':
            return st.facts.norm(eng.ptr(rn) + off), v
    return p, v


def memcmp_atom(st, key, w=32):
    """the comparison result; an earlier comparison of the same bytes gives the same result"""
    f = st.facts
    k = ('memcmp', key)
    if k not in T.key2id:
        for a in list(f.bd) + list(f.eq):
            if T.info[a][0] == 'memcmp' and T.hi[a] == (1 << w) - 1:
                g = T.info[a][1]
                if all(f.norm(x) == f.norm(y) for x, y in zip(g, key)):
                    return atom(a)
    return atom(T.get('memcmp', key, 0, (1 << w) - 1))


def byte_at(eng, st, p, i, ins, what):
    r, off = eng.resolve(st, p, ins, what)
    eng.check_access(st, r, off + i, Lin(1), ins, what)
    return st.facts.norm(eng.as_lin(st, eng.read(st, r.name, st.facts.norm(off + i), 'i8'), 8))


def compare_bytes(eng, st, x, y, n, w, ins, what, i=0):
    """byte-by-byte comparison of at most eng.EXPAND bytes; n None: up to the first NUL of both"""
    if n is not None and i == n:
        return [('ret', st, ZERO, None)]
    if n is None and i >= eng.EXPAND:
        raise Give('comparison of long strings', ins)
    u, v = byte_at(eng, st, x, i, ins, what), byte_at(eng, st, y, i, ins, what)
    out = [('ret', s, ONE, None) for s in eng.assume(st.copy(), c_ge(u - v - 1))]
    out += [('ret', s, Lin((1 << w) - 1), None) for s in eng.assume(st.copy(), c_ge(v - u - 1))]
    for s in eng.assume(st, c_eq(u - v)):
        if n is not None:
            out += compare_bytes(eng, s, x, y, n, w, ins, what, i + 1)
            continue
        out += [('ret', z, ZERO, None) for z in eng.assume(s.copy(), c_eq(u))]
        for z in eng.assume(s, c_ge(u - 1)):
            out += compare_bytes(eng, z, x, y, n, w, ins, what, i + 1)
    return out


def small_values(eng, st, n, hi):
    """partitions of st by the value of n, if it is known to be at most hi"""
    if n.is_const():
        return [(st, n.c)] if n.c <= hi else None
    if not st.facts.entails_ge((-n) + hi):
        return None
    return [(s, k) for k in range(hi + 1) for s in eng.assume(st.copy(), c_eq(n - k))]


def m_strcmp(eng, F, st, ins, callee, a):
    return compare_bytes(eng, st, a[0], a[1], None, width(ins['ty']), ins, callee)


def words(eng, st, x, y, n, w, ins):
    """comparison of a few whole words in the program's own memory"""
    rx, ry = eng.split_ptr(st, x), eng.split_ptr(st, y)
    if rx is None or ry is None or 'input' in (rx[0].kind, ry[0].kind):
        return None
    vs = []
    try:
        for i in range(n):
            u, v = (eng.read(st, r[0].name, st.facts.norm(r[1] + 8 * i), 'i64') for r in (rx, ry))
            if not isinstance(u, Lin) or not isinstance(v, Lin):
                return None
            vs.append((u, v))
    except Give:
        return None
    out, rest = [], [st]
    for u, v in vs:
        for s in [z for z in rest for z in eng.assume(z.copy(), c_ne(u - v))]:
            out.append(('ret', s, atom(T.get('sym', ('differ', len(T.info)), 1, (1 << w) - 1)), None))
        rest = [z for s in rest for z in eng.assume(s, c_eq(u - v))]
    return out + [('ret', s, ZERO, None) for s in rest]


def m_memcmp(eng, F, st, ins, callee, a):
    n = st.facts.norm(eng.as_lin(st, a[2]))
    w = width(ins['ty'])
    if n.is_const() and n.c == 0:
        return ret(st, ZERO)
    if eng.EXPAND:
        ps = small_values(eng, st, n, eng.EXPAND)
        if ps is not None:
            return [r for s, k in ps for r in compare_bytes(eng, s, a[0], a[1], k, w, ins, callee)]
    chk = st
    if not st.facts.entails_ge(n - 1):
        chk = st.copy()
        chk.facts.add_ge(n - 1)
    if not chk.facts.dead:
        for p in (a[0], a[1]):
            r, off = eng.resolve(st, p, ins, callee)
            eng.check_access(chk, r, off, n, ins, callee)
    x, y = st.facts.norm(a[0]), st.facts.norm(a[1])
    if x != y and eng.QUOT:
        x, vx = origin(eng, st, x, n)
        y, vy = origin(eng, st, y, n)
        if vx is not None and vx == vy:
            return ret(st, ZERO)
    if x == y:
        return ret(st, ZERO)
    if n.is_const() and n.c <= 64 and n.c % 8 == 0:
        ps = words(eng, st, x, y, n.c // 8, w, ins)
        if ps is not None:
            return ps
    swap = (y.t, y.c) < (x.t, x.c)
    key = (y, x, n) if swap else (x, y, n)
    v = memcmp_atom(st, key, w)
    if not st.facts.entails_ge(n - 1):
        st.facts.add_ge(n.scale((1 << w) - 1) - v)      # nothing differs in no bytes
    if not swap or callee == 'bcmp':
        return ret(st, v)
    # same zero-ness, opposite sign
    out = []
    s2 = st.copy()
    out += [('ret', s, ZERO, None) for s in eng.assume(st, c_eq(v))]
    out += [('ret', s, atom(T.get('memcmpneg', key, 1, (1 << w) - 1)), None) for s in eng.assume(s2, c_not(c_eq(v)))]
    return out


def m_strlen(eng, F, st, ins, callee, a):
    rp = eng.split_ptr(st, a[0])
    if rp and rp[1].is_const():
        c = st.mem[rp[0].name]
        if c.bottom[0] == 'const' and not c.layers:
            bs = eng.regions[rp[0].name].meta['g']['bytes']
            o = rp[1].c
            if 0 in bs[o:]:
                return ret(st, Lin(bs[o:].index(0)))
    if rp:
        src = text_source(eng, st, rp[0], rp[1])
        if src is not None:
            p, n = src
            v = T.get('strnlen', (st.facts.norm(p), st.facts.norm(n)), 0, 1 << 62)
            st.facts.add_ge(n - atom(v))
            return ret(st, atom(v))
    if eng.EXPAND and rp:
        return scan_nul(eng, st, a[0], ins, callee)
    v = T.get('strlen', (st.facts.norm(a[0]),), 0, 1 << 62)
    return ret(st, atom(v))


def scan_nul(eng, st, p, ins, what, i=0):
    if i > eng.EXPAND:
        raise Give('length of a long string', ins)
    u = byte_at(eng, st, p, i, ins, what)
    out = [('ret', s, Lin(i), None) for s in eng.assume(st.copy(), c_eq(u))]
    for s in eng.assume(st, c_ge(u - 1)):
        out += scan_nul(eng, s, p, ins, what, i + 1)
    return out


def m_strnlen(eng, F, st, ins, callee, a):
    p, n = st.facts.norm(a[0]), st.facts.norm(eng.as_lin(st, a[1]))
    v = atom(T.get('strnlen', (p, n), 0, 1 << 62))
    st.facts.add_ge(n - v)
    return ret(st, st.facts.norm(v))


def text_source(eng, st, r, off):
    """(p, n): the C string at r+off ends at the first NUL of the n input bytes at p, or after them"""
    c = st.mem[r.name]
    if r.kind == 'input':
        return eng.ptr(r.name) + off, c.size - off - 1
    n = st.facts.norm(c.size - off - 1)
    j = atom(T.get('sym', ('strlen.j',), 0, 1 << 62))
    s = st.copy()
    s.facts.add_ge(n)
    if s.facts.dead or s.facts.infeasible():
        return None
    eng.quiet += 1
    try:
        z = eng.read(s, r.name, off + n, 'i8')
        if not (isinstance(z, Lin) and z.is_const() and z.c == 0):
            return None
        s.facts.add_ge(n - j - 1)
        if s.facts.dead or s.facts.infeasible():
            return None
        v = eng.read(s, r.name, off + j, 'i8')
    finally:
        eng.quiet -= 1
    if not isinstance(v, Lin) or len(v.t) != 1 or v.c or v.t[0][1] != 1:
        return None
    k, g = T.info[v.t[0][0]]
    if k != 'byte':
        return None
    o = g[1] - j
    if any(x == j.t[0][0] for x, _ in o.t) or eng.regions[g[0]].kind != 'input':
        return None
    return eng.ptr(g[0]) + o, n


def m_memcpy(eng, F, st, ins, callee, a):
    eng.memcpy(st, a[0], a[1], eng.as_lin(st, a[2]), ins, callee)
    return ret(st, a[0])


def m_memset(eng, F, st, ins, callee, a):
    eng.memset(st, a[0], eng.trunc(st, eng.as_lin(st, a[1]), 8), eng.as_lin(st, a[2]), ins)
    return ret(st, a[0])


def m_memchr(eng, F, st, ins, callee, a):
    n = eng.as_lin(st, a[2])
    r, off = eng.resolve(st, a[0], ins, callee)
    eng.check_access(st, r, off, n, ins, callee)
    i = T.get('memchr', (st.facts.norm(a[0]), st.facts.norm(eng.as_lin(st, a[1])), st.facts.norm(n)), 0, 1 << 62)
    st.facts.add_ge(n - atom(i))
    out = []
    for s in eng.assume(st.copy(), c_ge(atom(i) - n)):
        out.append(('ret', s, ZERO, None))
    for s in eng.assume(st, c_ge(n - atom(i) - 1)):
        out.append(('ret', s, a[0] + atom(i), None))
    return out


def new_heap(eng, st, size, tag, bottom=('uninit',)):
    eng.counter += 1
    name = 'h:%s:%d' % (tag, eng.counter)
    eng.new_region(st, name, 'heap', size, bottom)
    eng.regions[name].meta['alloc'] = tag
    return eng.ptr(name)


def m_new(eng, F, st, ins, callee, a):
    n = eng.as_lin(st, a[0])
    st.event(('alloc', callee, n, ins))
    return ret(st, new_heap(eng, st, st.facts.norm(n), callee))


def m_calloc(eng, F, st, ins, callee, a):
    n = eng.prod(st, eng.as_lin(st, a[0]), eng.as_lin(st, a[1]))
    st.event(('alloc', callee, n, ins))
    return ret(st, new_heap(eng, st, n, callee, ('zero',)))


def m_malloc(eng, F, st, ins, callee, a):
    n = eng.as_lin(st, a[0])
    st.event(('alloc', callee, n, ins))
    return ret(st, new_heap(eng, st, st.facts.norm(n), callee))


FAMILY = {'zv_grow': 'zv', '_Znwm': 'new', '_ZnwmSt11align_val_t': 'new', '_Znam': 'new[]', 'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc'}


def release(eng, st, p, ins, fam):
    p = st.facts.norm(p)
    if p.is_const():
        return
    rp = eng.split_ptr(st, p)
    if rp is None:
        st.event(('free', fam, p, ins))
        return
    r, off = rp
    c = st.cont(r.name)
    if not c.alive:
        eng.oblige(st, [Lin(-1)], 'lifetime', ins, 'double release of %s' % r.name)
    eng.oblige(st, [off, -off], 'lifetime', ins, 'release of interior pointer of %s' % r.name)
    want = FAMILY.get(r.meta.get('alloc'))
    if r.kind == 'heap' and want and want != fam:
        eng.oblige(st, [Lin(-1)], 'lifetime', ins, 'release of %s memory with %s' % (want, fam))
    if r.kind not in ('heap', 'opaque', 'input'):
        eng.oblige(st, [Lin(-1)], 'lifetime', ins, 'release of non-heap object %s' % r.name)
    c.alive = False
    st.event(('free', fam, p, ins))


def m_delete(fam):
    def f(eng, F, st, ins, callee, a):
        release(eng, st, a[0], ins, fam)
        return ret(st)
    return f


def m_throw(eng, F, st, ins, callee, a):
    ti = ins['args'][1]
    name = ti[1] if ti[0] == 'g' else str(ti)
    return [('throw', st, name, ins)]


def m_rethrow(eng, F, st, ins, callee, a):
    return [('throw', st, st.exc[2] if st.exc else 'rethrow', ins)]


def m_allocexc(eng, F, st, ins, callee, a):
    eng.counter += 1
    n = 'exc:%d' % eng.counter
    eng.new_region(st, n, 'exc', eng.as_lin(st, a[0]), ('unk', n))
    return ret(st, eng.ptr(n))


def m_nop(eng, F, st, ins, callee, a):
    return ret(st, UNDEF)


def m_begincatch(eng, F, st, ins, callee, a):
    return ret(st, a[0])


def m_terminate(eng, F, st, ins, callee, a):
    return [('terminate', st, None, ins)]


def m_stdthrow(eng, F, st, ins, callee, a):
    base = eng.mod.base(callee)
    kind = {'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range', 'std::__throw_out_of_range': '_ZTISt12out_of_range',
            'std::__throw_length_error': '_ZTISt12length_error', 'std::__throw_logic_error': '_ZTISt11logic_error',
            'std::__throw_bad_function_call': '_ZTISt17bad_function_call', 'std::__throw_bad_alloc': '_ZTISt9bad_alloc',
            'std::__throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
            'std::__throw_bad_optional_access': '_ZTISt19bad_optional_access',
            'std::__throw_bad_variant_access': '_ZTISt18bad_variant_access',
            'std::__throw_invalid_argument': '_ZTISt16invalid_argument'}.get(base, base)
    return [('throw', st, kind, ins)]


# ---------------------------------------------------------------- allocation primitives of the container stand-ins
def m_zvgrow(eng, F, st, ins, callee, a):
    old, n = st.facts.norm(a[0]), st.facts.norm(eng.as_lin(st, a[2]))
    if old.is_const():
        if n.is_const() and n.c == 0:
            return ret(st, ZERO)
        st.event(('alloc', callee, n, ins))
        return ret(st, new_heap(eng, st, n, callee))
    r, off = eng.resolve(st, old, ins, 'growth of a container')
    c = st.cont(r.name)
    if not c.alive:
        eng.oblige(st, [Lin(-1)], 'lifetime', ins, 'growth of a released container %s' % r.name)
        raise Give('growth of released storage', ins)
    st.event(('alloc', callee, n, ins))
    if eng.inloop:
        c.size = n              # same identity: keeps the loop's memory shape stable
        return ret(st, old)
    p = new_heap(eng, st, n, callee)
    rp = eng.split_ptr(st, p)
    nc = c.copy()
    nc.size = n
    st.mem[rp[0].name] = nc
    st.own.add(rp[0].name)
    c.alive = False
    c.layers = []
    return ret(st, p)


def m_realloc(eng, F, st, ins, callee, a):
    """success only: the caller of a failing allocation is analysed by the hooks that model it"""
    return m_zvgrow(eng, F, st, ins, 'realloc', [a[0], ZERO, a[1]])


# ---------------------------------------------------------------- ordered containers of libstdc++ (balance is not observable)
PARENT, LEFT, RIGHT = 8, 16, 24


def tree_get(eng, st, p, f):
    return st.facts.norm(eng.load(st, p + f, 'p'))


def m_treeinsert(eng, F, st, ins, callee, a):
    left, x, p, h = a
    if isinstance(left, Lin):
        left = st.facts.norm(left)
        left = left if not left.is_const() else bool(left.c)
    if not isinstance(left, bool):
        raise Give('insertion at an unknown side', ins)
    x, p, h = (st.facts.norm(v) for v in (x, p, h))
    put = lambda o, f, v: eng.store(st, o + f, v, 'p', ins)
    eng.store(st, x, ONE, 'i32', ins)               # only the header is red
    put(x, PARENT, p)
    put(x, LEFT, ZERO)
    put(x, RIGHT, ZERO)
    leftmost, rightmost = tree_get(eng, st, h, LEFT), tree_get(eng, st, h, RIGHT)
    if p == h:
        put(h, PARENT, x)
        put(h, LEFT, x)
        put(h, RIGHT, x)
    elif left:
        put(p, LEFT, x)
        if p == leftmost:
            put(h, LEFT, x)
    else:
        put(p, RIGHT, x)
        if p == rightmost:
            put(h, RIGHT, x)
    return ret(st)


def tree_step(eng, st, x, fwd, ins):
    """in-order successor or predecessor of node x; the header follows the last node and precedes the first"""
    a, b = (RIGHT, LEFT) if fwd else (LEFT, RIGHT)
    null = lambda v: v.is_const() and v.c == 0
    x = st.facts.norm(x)
    up = tree_get(eng, st, x, PARENT)
    if not fwd and not null(up) and tree_get(eng, st, up, PARENT) == x and eng.load(st, x, 'i32') == ZERO:
        return tree_get(eng, st, x, RIGHT)          # the header
    y = tree_get(eng, st, x, a)
    if not null(y):
        while True:
            z = tree_get(eng, st, y, b)
            if null(z):
                return y
            y = z
    y = tree_get(eng, st, x, PARENT)
    while tree_get(eng, st, y, a) == x:
        x, y = y, tree_get(eng, st, y, PARENT)
    return y if not fwd or tree_get(eng, st, x, RIGHT) != y else x


def m_treenext(eng, F, st, ins, callee, a):
    return ret(st, tree_step(eng, st, a[0], True, ins))


def m_treeprev(eng, F, st, ins, callee, a):
    return ret(st, tree_step(eng, st, a[0], False, ins))


def m_zvlen(eng, F, st, ins, callee, a):
    return [('throw', st, '_ZTISt12length_error', ins)]


def m_zvoor(eng, F, st, ins, callee, a):
    return [('throw', st, '_ZTISt12out_of_range', ins)]


def m_tostring(eng, F, st, ins, callee, a):
    """std::to_string into a stand-in string: 1 to 20 characters not looked into further"""
    if not getattr(eng.mod, 'heap', False):
        return None
    eng.counter += 1
    n = atom(T.get('sym', ('digits', eng.counter), 1, 20))
    st.event(('alloc', 'zv_grow', n, ins))
    p = new_heap(eng, st, n + 1, 'zv_grow', ('bytes', 'digits%d' % eng.counter))
    eng.store(st, a[0], p, 'p', ins)
    eng.store(st, a[0] + 8, n, 'i64', ins)
    return ret(st)


C = {
    'zv_grow': m_zvgrow, 'zv_length_error': m_zvlen, 'zv_out_of_range': m_zvoor,
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': m_treeinsert,
    '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': m_treenext, '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': m_treenext,
    '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': m_treeprev, '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': m_treeprev,
    'strcmp': m_strcmp, **{'_ZNSt7__cxx119to_stringE' + t: m_tostring for t in 'ijlmxy'},
    'memcmp': m_memcmp, 'bcmp': m_memcmp, 'strlen': m_strlen, 'strnlen': m_strnlen,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memchr': m_memchr,
    '_Znwm': m_new, '_Znam': m_new, '_ZnwmSt11align_val_t': m_new, 'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc,
    '_ZdlPv': m_delete('new'), '_ZdlPvm': m_delete('new'), '_ZdaPv': m_delete('new[]'), '_ZdaPvm': m_delete('new[]'),
    '_ZdlPvmSt11align_val_t': m_delete('new'), '_ZdlPvSt11align_val_t': m_delete('new'),
    'free': m_delete('malloc'), 'zv_free': m_delete('zv'),
    '__cxa_throw': m_throw, '__cxa_rethrow': m_rethrow, '__cxa_allocate_exception': m_allocexc,
    '__cxa_free_exception': m_nop, '__cxa_begin_catch': m_begincatch, '__cxa_end_catch': m_nop,
    '__clang_call_terminate': m_terminate, '_ZSt9terminatev': m_terminate, 'abort': m_terminate,
    '__cxa_pure_virtual': m_terminate,
}


# ---------------------------------------------------------------- std::string used for error messages
def m_string_any(eng, F, st, ins, callee, a):
    """std::string operations that only build messages: reads are bounds-checked where a
    (pointer,length) pair is passed; the resulting text is opaque."""
    return None


def m_exc_ctor(eng, F, st, ins, callee, a):
    return ret(st, UNDEF)


def retval(eng, st, ins, tag):
    ty = ins.get('ty')
    if ty is None or ty == 'void':
        return None
    if not isinstance(ty, str):
        return eng.undef_of(ty)
    if ty == 'p':
        return atom(eng.fresh('ret', 1, (1 << 63) - 1, tag, st))
    if ty[0] == 'f':
        eng.counter += 1
        return FV(ty, ('ret', tag, eng.counter))
    w = width(ty)
    a = atom(eng.fresh('ret', 0, (1 << w) - 1, tag, st))
    return ('ge', a - 1) if w == 1 else a


def range_ob(eng, st, p, n, ins, what):
    n = st.facts.norm(n)
    if n.is_const() and n.c == 0:
        return
    chk = st
    if not st.facts.entails_ge(n - 1):
        chk = st.copy()
        chk.facts.add_ge(n - 1)
        if chk.facts.dead:
            return
    r, off = eng.resolve(st, p, ins, what)
    eng.check_access(chk, r, off, n, ins, what)


def strcells(eng, st, obj, p, n):
    """the view of a std::string's contents, kept in its first two words (its own storage is not modelled)"""
    if not eng.STRCELLS:
        return
    rp = eng.split_ptr(st, obj)
    if rp is None:
        return
    eng.write(st, rp[0].name, rp[1], p, 'p', 8)
    eng.write(st, rp[0].name, rp[1] + 8, n, 'i64', 8)


def strview(eng, st, obj, ins):
    rp = eng.split_ptr(st, obj)
    p = n = UNDEF
    if rp is not None:
        p = eng.read(st, rp[0].name, rp[1], 'p', ins)
        n = eng.read(st, rp[0].name, rp[1] + 8, 'i64', ins)
    if isinstance(p, Lin) and isinstance(n, Lin) and eng.split_ptr(st, p) is not None:
        return p, n
    rn = 'str:%s' % loc_of(ins)
    n = atom(eng.fresh('strn', 0, 1 << 62, rn, st))
    eng.new_region(st, rn, 'heap', n, ('unk', rn))
    return eng.ptr(rn), n


def m_string(eng, F, st, ins, callee, a):
    dem = eng.mod.dem(callee)
    base = eng.mod.base(callee)
    if re.search(r'basic_string\(char const\*, unsigned long', dem):
        n = eng.as_lin(st, a[2])
        range_ob(eng, st, a[1], n, ins, 'string construction')
        st.event(('string', a[0], a[1], n, ins))
        strcells(eng, st, a[0], a[1], n)
        return ret(st)
    if re.search(r'basic_string<std::basic_string_view<char.*>\(std::basic_string_view', dem):
        n = eng.load(st, a[1], 'i64', ins)
        p = eng.load(st, a[1] + 8, 'p', ins)
        range_ob(eng, st, p, n, ins, 'string construction')
        st.event(('string', a[0], p, n, ins))
        strcells(eng, st, a[0], p, n)
        return ret(st)
    if '~basic_string' in base:
        return ret(st)
    if eng.STRCELLS:
        if base.endswith(('::operator basic_string_view', '::operator std::basic_string_view')) or 'operator std::basic_string_view' in dem:
            p, n = strview(eng, st, a[0], ins)
            return ret(st, (n, p))
        if base.endswith('::size') or base.endswith('::length'):
            return ret(st, strview(eng, st, a[0], ins)[1])
        if base.endswith('::data') or base.endswith('::c_str'):
            return ret(st, strview(eng, st, a[0], ins)[0])
        if re.search(r'::append\(char const\*, unsigned long', dem):
            n = eng.as_lin(st, a[2])
            range_ob(eng, st, a[1], n, ins, 'string append')
            strcells(eng, st, a[0], UNDEF, UNDEF)
            st.event(('msgstring', callee, ins))
            return ret(st, a[0])
        if re.search(r'::basic_string\(\)|::(basic_string|operator=|clear|assign|reserve|resize|push_back)\(', dem):
            strcells(eng, st, a[0], UNDEF, UNDEF)
    if base.startswith('std::operator+') or base.endswith('to_string') or '::basic_string' in base:
        st.event(('msgstring', callee, ins))
        return ret(st, retval(eng, st, ins, callee))
    return None


def m_ldexp(eng, F, st, ins, callee, a):
    return ret(st, FV(ins['ty'], ('ldexp', a[0], st.facts.norm(eng.as_lin(st, a[1], 32)))))


DEM = [
    (re.compile(r'std::(__cxx11::basic_string|operator\+|__cxx11::to_string|to_string)'), m_string),
    (re.compile(r'std::__throw_'), m_stdthrow),
    (re.compile(r'ldexp$'), m_ldexp),
    (re.compile(r'std::(runtime_error|logic_error|invalid_argument|exception|length_error|out_of_range)::'), m_exc_ctor),
]


def havoc_obj(eng, st, s, key, v, uid):
    raise Give('object in loop')


def obj_size(eng, b, key):
    return None
