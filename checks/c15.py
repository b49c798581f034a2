"""Tensor and matrix readers over an arbitrary reader: what is accepted, and what the result consists of."""
from core import *
import absint
from absint import FV, UNDEF, c_ge, c_eq, c_ne, c_not
import ev
import rules

RULE = 'tensor'
CODE = {'i8': 0, 'i16': 1, 'i32': 2, 'i64': 3, 'u8': 4, 'u16': 5, 'u32': 6, 'u64': 7, 'f32': 10, 'f64': 11, 'c64': 12, 'c128': 13, 'f16': 14}
SIZE = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'f32': 4, 'f64': 8, 'c64': 8, 'c128': 16, 'f16': 2}
ALIGN = dict(SIZE, c64=4, c128=8)
ROOT, DTYPE, SHAPE, BLOB, DIM = 1, 2, 3, 4, 10
INT, UINT, BYTES, ARRAY = 2, 3, 6, 8
M32 = (1 << 32) - 1


def mock(shape):
    """answers of the reader; shape: number of dimensions, or the dimensions themselves"""
    def hook(eng, F, st, ins, callee, args):
        if callee == 'mk_elem':
            h, i = ev.norm(st, args[0]), ev.norm(st, args[1])
            if not h.is_const():
                raise absint.Give('element of an unknown value')
            if h.c == ROOT:
                if not i.is_const() or not 0 <= i.c < 3:
                    return [('ret', st, ev.sym('elem', h, i), None)]
                return [('ret', st, Lin(DTYPE + i.c), None)]
            if h.c == SHAPE and i.is_const():
                return [('ret', st, Lin(DIM + i.c), None)]
            raise absint.Give('element of an unknown value')
        if callee == 'mk_count' and ev.norm(st, args[0]) == Lin(SHAPE):
            return [('ret', st, Lin(shape if isinstance(shape, int) else len(shape)), None)]
        if isinstance(shape, tuple) and callee in ('mk_kind', 'mk_u64'):
            h = ev.norm(st, args[0])
            if h.is_const() and DIM <= h.c < DIM + len(shape):
                return [('ret', st, Lin(UINT if callee == 'mk_kind' else shape[h.c - DIM]), None)]
        if isinstance(shape, int) and shape > 2 and callee == 'mk_kind':    # shapes of both kinds of integers: up to rank 2
            h = ev.norm(st, args[0])
            if h.is_const() and h.c >= DIM:
                return [('ret', st, Lin(UINT), None)]
        if callee == 'sink_mark':
            st.event(('mark', args[0], ins))
            return [('ret', st, None, None)]
        if callee == 'sink_view':       # the bytes as they are now
            st.event((callee, args[0], args[1], ev.content(eng, st, args[0], args[1]), ins))
            return [('ret', st, None, None)]
        return ev.hook(eng, F, st, ins, callee, args)
    return {'call': hook, 'counted': True}


def dims_of(eng, st, shape):
    """[(state, dimensions)]: the dimensions the stored shape denotes, None where it denotes none"""
    if isinstance(shape, tuple):
        return [(st, [Lin(d) for d in shape])]
    out = [(st, [])]
    for i in range(shape):
        h = Lin(DIM + i)
        nxt = []
        for s, ds in out:
            if ds is None:
                nxt.append((s, None))
                continue
            k = ev.answer(eng, s, 'kind', [h]) if shape <= 2 else Lin(UINT)
            for kind, q in ((INT, 'i64'), (UINT, 'u64')):
                for z in eng.assume(s.copy(), c_eq(k - kind)):
                    v = ev.answer(eng, z, q, [h])
                    nxt += [(y, ds + [v]) for y in eng.assume(z.copy(), c_ge(Lin(M32) - v))]
                    nxt += [(y, None) for y in eng.assume(z, c_ge(v - M32 - 1))]
            nxt += [(z, None) for y in eng.assume(s.copy(), c_ne(k - INT)) for z in eng.assume(y, c_ne(k - UINT))]
        out = nxt
    for s, _ in out:
        revisit(s.facts)
    return [(s, d) for s, d in out if not s.facts.dead and not s.facts.infeasible()]


def revisit(f):
    """products of which a factor has become known"""
    muls = [(args, i) for (k, args), i in list(absint.T.key2id.items()) if k == 'mul']
    more = True
    while more and not f.dead:
        more = False
        seen = {}
        for args, i in muls:
            p, rest, c = f.norm(absint.atom(i)), [], 1
            for x in args:
                x = f.norm(x)
                if x.is_const():
                    c *= x.c
                else:
                    rest.append(x)
            if c == 0 or len(rest) < 2:
                d = p - (rest[0].scale(c) if c and rest else Lin(c))
            else:       # the same product by another route
                k = tuple(sorted(rest, key=lambda l: (l.c, l.t)))
                c1, p1 = seen.setdefault(k, (c, p))
                d = p.scale(c1) - p1.scale(c)
            d = f.norm(d)
            if d.t or d.c:
                f.add_eq(d)
                more = True


def make(name, ty, shape, fixed):
    """fixed: per dimension the required extent or None; or None if any rank is fine"""
    style, lib = name[5], name[4]

    def task(mod, nm):
        what = '%s, %s' % (name[4:], 'rank %d' % shape if isinstance(shape, int) else 'shape ' + 'x'.join(map(str, shape)))
        r = Result(what)

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            st.facts.add_eq(args[0] - ROOT)
            args[0] = Lin(ROOT)
            eng.UNROLL = 12
            eng.PEELEXIT = True
            eng.PEELW = 64
        eng = run_entry(mod, nm, mock(shape), prep)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('stop', 'unknown'):
                continue
            r.inst('exit')
            revisit(e.st.facts)
            if e.st.facts.dead or e.st.facts.infeasible():
                continue
            if e.kind == 'throw':
                if not ev.resource(e) and 'DeserializationError' not in str(e.val):
                    R.never(e.st, RULE, 'error type', 'another error than a deserialization error is raised (%s)' % what, e.ins)
                if not ev.resource(e):
                    refused(eng, R, r, e, ty, shape, fixed, what)
                continue
            judge(eng, R, r, e, ty, shape, fixed, style, what)
        return r
    return (name, task)


def judge(eng, R, r, e, ty, shape, fixed, style, what):
    st = e.st
    must = lambda s, c, key, text: R.must(s, c, RULE, key, '%s (%s)' % (text, what), e.ins)
    kind = lambda h: ev.answer(eng, st, 'kind', [Lin(h)])
    must(st, c_eq(kind(ROOT) - ARRAY), 'accepts', 'a value that is no array is accepted')
    must(st, c_ge(ev.answer(eng, st, 'count', [Lin(ROOT)]) - 3), 'accepts', 'an array of less than three elements is accepted')
    must(st, c_eq(kind(DTYPE) - INT), 'accepts', 'a type code that is no integer is accepted')
    must(st, c_eq(ev.answer(eng, st, 'i64', [Lin(DTYPE)]) - CODE[ty]), 'accepts', 'data of another element type is accepted')
    must(st, c_eq(kind(SHAPE) - ARRAY), 'accepts', 'a shape that is no array is accepted')
    must(st, c_eq(kind(BLOB) - BYTES), 'accepts', 'data that is no blob is accepted')
    r.inst('accepted')
    n = shape if isinstance(shape, int) else len(shape)
    if fixed is not None and len(fixed) != n:
        R.never(st, RULE, 'rank', 'a tensor of another rank is accepted (%s)' % what, e.ins)
        return
    pb, nb = ev.in_pool(eng, st, 'blob', Lin(BLOB))
    for s, ds in dims_of(eng, st, shape):
        if ds is None:
            R.never(s, RULE, 'dimension', 'a shape with an impossible dimension is accepted (%s)' % what, e.ins)
            continue
        for f, d in zip(fixed or (), ds):
            if f is not None:
                must(s, c_eq(d - f), 'extent', 'another extent than the fixed one is accepted')
        r.inst('dims')
        total = product(eng, s, ds)
        if total is None:
            r.unk('%s: product of the dimensions' % what)
            continue
        must(s, c_eq(nb - total.scale(SIZE[ty])), 'size', 'a blob whose size is not that of the declared shape is accepted')
        result(eng, R, r, s, e, ty, ds, total, style, what, pb, nb)


def refused(eng, R, r, e, ty, shape, fixed, what):
    """a matching tensor must not end here"""
    n = shape if isinstance(shape, int) else len(shape)
    if fixed is not None and len(fixed) != n:
        return
    r.inst('refused')
    sts = [e.st.copy()]
    a = lambda s, q, h: ev.answer(eng, s, q, [Lin(h)])
    for c in (lambda s: c_eq(a(s, 'kind', ROOT) - ARRAY), lambda s: c_ge(a(s, 'count', ROOT) - 3), lambda s: c_eq(a(s, 'kind', DTYPE) - INT),
              lambda s: c_eq(a(s, 'i64', DTYPE) - CODE[ty]), lambda s: c_eq(a(s, 'kind', SHAPE) - ARRAY), lambda s: c_eq(a(s, 'kind', BLOB) - BYTES)):
        sts = [z for s in sts for z in eng.assume(s, c(s))]
    for st in sts:
        for s, ds in dims_of(eng, st, shape):
            if ds is None:
                continue
            zs = [s]
            for f, d in zip(fixed or (), ds):
                if f is not None:
                    zs = [z for y in zs for z in eng.assume(y, c_eq(d - f))]
            for z in zs:
                pb, nb = ev.in_pool(eng, z, 'blob', Lin(BLOB))
                for y in eng.assume(z, c_eq(nb - product(eng, z, ds).scale(SIZE[ty]))):
                    revisit(y.facts)
                    if not y.facts.dead and not y.facts.infeasible():
                        R.never(y, RULE, 'refused', 'a tensor that matches the request is refused (%s)' % what, e.ins)


def product(eng, st, ds):
    p = ONE
    for d in ds:
        a, b = st.facts.norm(p), st.facts.norm(d)
        if a.is_const() or b.is_const():
            p = b.scale(a.c) if a.is_const() else a.scale(b.c)
        else:
            p = eng.prod(st, a, b)
    return st.facts.norm(p)


def result(eng, R, r, st, e, ty, ds, total, style, what, pb, nb):
    must = lambda s, c, key, text: R.must(s, c, RULE, key, '%s (%s)' % (text, what), e.ins)
    E = [x for x in st.events() if isinstance(x, tuple) and x[0].startswith('sink_')]
    u = [x[1] for x in E if x[0] == 'sink_u64']
    view = [x for x in E if x[0] == 'sink_view'][-1]
    flag = [x for x in E if x[0] == 'sink_bool']
    R.equal(st, u[0], Lin(len(ds)), RULE, 'rank', 'the result has another rank (%s)' % what, e.ins)
    k = len(ds)
    for got, d in zip(u[1:1 + k], ds):
        R.equal(st, got, d, RULE, 'shape', 'the result has another shape (%s)' % what, e.ins)
    if len(u) > 2 + k:       # a map over the data states its extents again
        for got, d in zip(u[1 + k:1 + 2 * k], ds):
            R.equal(st, got, d, RULE, 'shape', 'the mapped data has another shape (%s)' % what, e.ins)
    R.equal(st, u[-1], total, RULE, 'count', 'the result has another number of elements (%s)' % what, e.ins)
    p, n = view[1], view[2]
    R.equal(st, n, nb, RULE, 'bytes', 'the data has another length than the blob (%s)' % what, e.ins)
    for s in eng.assume(st.copy(), c_ge(nb - 1)):
        if s.facts.dead or s.facts.infeasible():
            continue
        rp = eng.split_ptr(s, s.facts.norm(p))
        alias = rp is not None and rp[0].name == ev.POOL
        if alias:
            r.inst('aliased')
            if style != 'v':
                R.never(s, RULE, 'alias', 'the result aliases the blob although it has to own its data (%s)' % what, e.ins)
            must(s, c_eq(p - pb), 'alias', 'the result views other bytes than the blob\'s')
            a = ALIGN[ty]
            if a > 1:
                must(s, c_eq(eng.as_lin(s, eng.bits(s, s.facts.norm(pb), 0, a.bit_length() - 1))), 'alignment', 'misaligned data is viewed in place')
            if flag:
                R.equal(s, flag[-1][1], ONE, RULE, 'view info', 'a view is reported as a copy (%s)' % what, e.ins)
        else:
            r.inst('copied')
            c = view[3]
            if c == 'dead':
                R.never(s, RULE, 'content', 'the result refers to released memory (%s)' % what, e.ins)
                continue
            w = ev.content(eng, s, pb, nb)
            z = s.copy()
            z.facts.add_ge(nb - ev.jay() - 1)
            if c is None or c is UNDEF or w is None or w is UNDEF:
                r.unk('%s: content not tracked' % what)
            elif not z.facts.dead:
                R.equal(z, c, w, RULE, 'content', 'the data is not the blob\'s content (%s)' % what, e.ins)
            if flag:
                R.equal(s, flag[-1][1], ZERO, RULE, 'view info', 'a copy is reported as a view (%s)' % what, e.ins)


def run(ctx):
    deep = ctx.tier != 'quick'
    me = ctx.compile('tensor.cpp', heap=True, extra=['-DDRV_EIGEN'], name='tensor_eigen')
    mx = ctx.compile('tensor.cpp', heap=True, extra=['-DDRV_XTENSOR'], name='tensor_xtensor')
    ctx.analyse_list(me, eigen(deep))
    ctx.analyse_list(mx, xtensor(deep))
    ctx.need('accepted', 400)
    ctx.need('aliased', 60)
    ctx.need('copied', 300)
    ctx.need('refused', 1000)
    return finish(ctx, 'Abstract interpretation of the Eigen and xtensor readers (the xtensor and Eigen headers included) over a reader whose answers are arbitrary functions '
                  'of the value, for shapes of a fixed rank and arbitrary dimensions, and a blob of any length, content and address.',
                  ['a returning exit entails: array of at least three, the requested type code, a shape array of the requested rank and extents, a blob of exactly product times element size bytes (in unbounded arithmetic)',
                   'a matching tensor is not refused, and every refusal is a deserialization error',
                   'rank, extents, element count and content of the result are those stored; it lies in the blob only if the address is aligned and the blob is not owned by the reader'])


TYPES = 'i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 c64 c128 f16'.split()


def eigen(deep=False):
    T = []
    for ty, tag, fixed in (('f64', 'dd', (None, None)), ('f32', '3d', (3, None)), ('i32', 'd2', (None, 2)), ('i16', '23', (2, 3)), ('u8', 'dd', (None, None)), ('c64', 'dd', (None, None)),
                           ('f64', 'rm', (None, None))):
        for k in 'voc':
            for shape in (2, 0, 1, 3):
                T.append(make('drv_e%s_%s_%s' % (k, ty, tag), ty, shape, fixed))
    for ty in TYPES:
        T.append(make('drv_ev_%s_each' % ty, ty, 2, (None, None)))
    return T


def xtensor(deep=False):
    T = []
    for ty, tag, rank in (('f64', 'any', None), ('u8', 'any', None), ('i16', 'r2', 2), ('c128', 'r1', 1), ('i64', 'r0', 0), ('u32', 'r3', 3)):
        for k in 'voc':
            for shape in (0, 1, 2, 3) + ((4,) if deep and k != 'c' else ()):
                T.append(make('drv_x%s_%s_%s' % (k, ty, tag), ty, shape, None if rank is None else (None,) * rank))
    for ty in TYPES:
        T.append(make('drv_xv_%s_each' % ty, ty, 1, None))
    return T
