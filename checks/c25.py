"""Tensor writers: type code, shape and raw bytes; the table of element types."""
from core import *
import absint
from absint import FV, UNDEF, c_ge, c_eq, c_ne
import ev
import rules
import c15
from c15 import CODE, SIZE, M32

RULE = 'stored'
NAME = {'i8': 'int8', 'i16': 'int16', 'i32': 'int32', 'i64': 'int64', 'u8': 'uint8', 'u16': 'uint16', 'u32': 'uint32', 'u64': 'uint64',
        'f32': 'float', 'f64': 'double', 'c64': 'complex<float>', 'c128': 'complex<double>', 'f16': 'xtl::half_float'}


def hook(eng, F, st, ins, callee, args):
    if callee == 'sink_view':       # the bytes as they are now
        n = ev.norm(st, args[1])
        st.event((callee, args[0], args[1], ev.literal(eng, st, args[0], n), ins))
        return [('ret', st, None, None)]
    return ev.hook(eng, F, st, ins, callee, args)


HOOKS = {'call': hook, 'counted': True}


def setup(eng):
    eng.UNROLL = 12
    eng.PEELEXIT = True
    eng.PEELW = 64


def make(name):
    _, kind, ty, form = (name + '_').split('_')[:4]

    def task(mod, nm):
        r = Result(name[4:])

        def prep(eng, st, args, syms):
            setup(eng)
            ds = dims(eng, st, syms)
            n = c15.product(eng, st, ds).scale(SIZE[ty]) if len(ds) else Lin(SIZE[ty])
            st.facts.add_eq(syms['in'] - n)
            for d in ds if kind == 'e' else ():      # extents a matrix can have
                st.facts.add_ge(Lin(1 << 62) - d)
        eng = run_entry(mod, nm, HOOKS, prep)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('stop', 'unknown'):
                continue
            st = e.st
            c15.revisit(st.facts)
            if st.facts.dead or st.facts.infeasible():
                continue
            ds = dims(eng, st, eng.syms)
            if e.kind == 'throw':
                if not ev.resource(e):      # dimensions the format cannot hold may be refused, others not
                    for d in ds:
                        st.facts.add_ge(Lin(M32) - d)
                    R.never(st, RULE, 'refused', 'a tensor is refused (%s)' % name[4:], e.ins)
                continue
            r.inst('written')
            compare(eng, R, r, st, e, ty, ds, ev.content(eng, st, eng.ptr('in'), eng.syms['in']), eng.syms['in'], name[4:])
        return r

    def dims(eng, st, syms):
        f = {'23': [Lin(2), Lin(3)]}.get(form)
        if f:
            return f
        return [st.facts.norm(syms[i]) for i in sorted(k for k in syms if isinstance(k, int))]
    return (name, task)


def compare(eng, R, r, st, e, ty, ds, want, nb, what):
    got = ev.select(st.events())
    if any(isinstance(g, absint.LoopRec) for g in got):
        r.unk('%s: calls made in a loop' % what)
        return
    shape = [('begin_array', Lin(3)), ('int64', Lin(CODE[ty])), ('begin_array', Lin(len(ds)))] + [('dim', d) for d in ds] + [('end_array',)]
    if len(got) != len(shape) + 2:
        R.never(st, RULE, 'calls', 'the calls do not describe a tensor (%s)' % what, e.ins)
        return
    for g, w in zip(got, shape + [('binary',), ('end_array',)]):
        if g[0] != w[0] and not (w[0] == 'dim' and g[0] in ('int64', 'uint64')):
            R.never(st, RULE, 'calls', '%s is called where %s is due (%s)' % (g[0], w[0], what), g[-1])
            return
        if len(w) > 1:
            R.equal(st, g[1], w[1], RULE, w[0], '%s gets another value (%s)' % (w[0] if w[0] != 'int64' else 'the type code', what), g[-1])
    b = got[-2]
    R.equal(st, b[2], nb, RULE, 'bytes', 'the blob has another length than the elements (%s)' % what, b[-1])
    s = st.copy()
    s.facts.add_ge(nb - ev.jay() - 1)
    s.facts.add_ge(ev.jay())
    if s.facts.dead or s.facts.infeasible():
        return
    if b[3] == 'dead':
        R.never(s, RULE, 'bytes', 'the blob is written from released memory (%s)' % what, b[-1])
    elif b[3] is None or b[3] is UNDEF or want is None or want is UNDEF:
        r.unk('%s: content not tracked' % what)
    else:
        r.inst('content')
        R.equal(s, b[3], want, RULE, 'bytes', 'the blob is not the elements\' bytes (%s)' % what, b[-1])


def part(name):
    """an expression over a 2x3 tensor: the elements written, one by one"""
    order, ds = {'drv_v_row': ((3, 4, 5), [3]), 'drv_v_col': ((1, 4), [2]), 'drv_v_cm': ((0, 2, 4, 1, 3, 5), [2, 3])}[name]

    def task(mod, nm):
        r = Result(name[4:])

        def prep(eng, st, args, syms):
            setup(eng)
            st.facts.add_eq(syms['in'] - 24)
        h = dict(HOOKS)

        def elems(eng, F, st, ins, callee, args):
            if callee == 'ev_binary':
                rp = eng.split_ptr(st, args[0])
                v = None
                if rp is not None:
                    try:
                        v = [eng.read(st, rp[0].name, rp[1] + 4 * i, 'i32') for i in range(len(order))]
                    except Give:
                        v = None
                st.event(('elems', v))
            return hook(eng, F, st, ins, callee, args)
        h['call'] = elems
        eng = run_entry(mod, nm, h, prep)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('stop', 'unknown') or e.kind == 'throw' and ev.resource(e):
                continue
            if e.kind == 'throw':
                R.never(e.st, RULE, 'refused', 'a tensor is refused (%s)' % name[4:], e.ins)
                continue
            r.inst('written')
            compare(eng, R, r, e.st, e, 'i32', [Lin(d) for d in ds], None, Lin(4 * len(order)), name[4:])
            v = [x[1] for x in e.st.events() if isinstance(x, tuple) and x[0] == 'elems']
            if len(v) != 1 or v[0] is None or any(not isinstance(x, Lin) for x in v[0]):
                r.unk('%s: elements not tracked' % name[4:])
                continue
            for x, i in zip(v[0], order):
                R.equal(e.st, x, eng.read(e.st, 'in', Lin(4 * i), 'i32'), RULE, 'elements', 'other elements than those of the expression are written (%s)' % name[4:], e.ins)
        r.undecided = [u for u in r.undecided if 'content not tracked' not in u]
        return r
    return (name, task)


def names(name):
    def task(mod, nm):
        r = Result(name[4:])
        eng = run_entry(mod, nm, HOOKS)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind != 'ret':
                continue
            E = [x for x in e.st.events() if isinstance(x, tuple) and x[0].startswith('sink_')]
            lit = [x for x in E if x[0] == 'sink_view'][-1][3]
            if name == 'drv_code':
                c = eng.as_lin(e.st, eng.syms[0], 32)
                known = {NAME[t]: CODE[t] for t in CODE}
                for t in CODE:
                    for s in eng.assume(e.st.copy(), c_eq(c - CODE[t])):
                        if not s.facts.dead and not s.facts.infeasible():
                            r.inst('code')
                            if lit is None:
                                r.unk('name of code %d' % CODE[t])
                            elif lit != NAME[t].encode():
                                R.never(s, RULE, 'name', 'type code %d is called %r instead of %r' % (CODE[t], lit.decode('latin1'), NAME[t]), e.ins)
                if lit is not None and lit.decode('latin1') in known:
                    R.must(e.st, c_eq(c - known[lit.decode('latin1')]), RULE, 'name', 'the name %r is given to another code' % lit.decode('latin1'), e.ins)
                continue
            t = name[9:]
            r.inst('type')
            code = [x[1] for x in E if x[0] == 'sink_u64'][-1]
            R.equal(e.st, code, Lin(CODE[t]), RULE, 'code', 'element type %s has another type code' % NAME[t], e.ins)
            if lit is None:
                r.unk('name of %s' % t)
            elif lit != NAME[t].encode():
                R.never(e.st, RULE, 'name', 'element type %s is called %r' % (NAME[t], lit.decode('latin1')), e.ins)
        return r
    return (name, task)


def other_type(name, ty, rank):
    """a reader of element type ty refuses every other type code, and no matching tensor for its code"""
    def task(mod, nm):
        what = name[4:]
        r = Result(what)

        def prep(eng, st, args, syms):
            setup(eng)
            ev.ensure_pool(eng, st)
            st.facts.add_eq(args[0] - c15.ROOT)
            args[0] = Lin(c15.ROOT)
        eng = run_entry(mod, nm, c15.mock(rank), prep)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('stop', 'unknown') or e.kind == 'throw' and ev.resource(e):
                continue
            c15.revisit(e.st.facts)
            if e.st.facts.dead or e.st.facts.infeasible():
                continue
            if e.kind == 'throw':
                c15.refused(eng, R, r, e, ty, rank, (None,) * rank, what)
                continue
            r.inst('read')
            R.must(e.st, c_eq(ev.answer(eng, e.st, 'kind', [Lin(c15.DTYPE)]) - c15.INT), RULE, 'read', 'a type code that is no integer is accepted (%s)' % what, e.ins)
            R.must(e.st, c_eq(ev.answer(eng, e.st, 'i64', [Lin(c15.DTYPE)]) - CODE[ty]), RULE, 'read', 'a tensor of another element type is read (%s)' % what, e.ins)
        return r
    return (name, task)


def run(ctx):
    me = ctx.compile('tensor.cpp', heap=True, extra=['-DDRV_EIGEN'], name='tensor_eigen')
    mx = ctx.compile('tensor.cpp', heap=True, extra=['-DDRV_XTENSOR'], name='tensor_xtensor')
    mod = ctx.compile('tensor_write.cpp', heap=True)
    tasks = []
    for n in sorted(x for x in mod.funcs if x.startswith('drv_')):
        tasks.append(names(n) if n.startswith('drv_name_') or n == 'drv_code' else part(n) if n.startswith('drv_v_') else make(n))
    ctx.analyse_list(mod, tasks)
    ctx.analyse_list(me, [other_type('drv_ev_%s_each' % t, t, 2) for t in CODE])
    ctx.analyse_list(mx, [other_type('drv_xv_%s_each' % t, t, 1) for t in CODE])
    ctx.need('type', 13)
    ctx.need('read', 26)
    ctx.need('code', 13)
    ctx.need('written', 30)
    ctx.need('content', 20)
    return finish(ctx, 'Abstract interpretation of the xtensor and Eigen writers for every element type, arbitrary extents and contents (fixed ranks), with a recording writer; and of the '
                  'type code table for every integer.',
                  ['the calls are: array of 3, the code of the element type as a signed integer, the extents, the bytes of the elements', 'views and column-major tensors write the elements of the expression',
                   'code and name of each type are those of the table (all distinct), a code maps to its own name and to no other',
                   'the readers accept only the code of the element type asked for'])
