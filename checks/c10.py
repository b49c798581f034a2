from core import *
import ev

KINDS = ['null', 'bool', 'int', 'uint', 'float', 'string', 'blob', 'map', 'array', 'none']
RT = '_ZTISt13runtime_error'


def expected(eng, st, kind, h, n):
    """the calls that describe the value"""
    j = ev.jay()
    pool = lambda p: ev.content(eng, st, *p)
    if kind == 'null':
        return [('null',)]
    if kind == 'bool':
        return [('boolean', ev.answer(eng, st, 'bool', [h]))]
    if kind == 'int':
        return [('int64', ev.answer(eng, st, 'i64', [h]))]
    if kind == 'uint':
        return [('uint64', ev.answer(eng, st, 'u64', [h]))]
    if kind == 'float':
        return [('double', ev.answer(eng, st, 'f64', [h]))]
    if kind in ('string', 'blob'):
        p = ev.in_pool(eng, st, 'str' if kind == 'string' else 'blob', h)
        return [('string' if kind == 'string' else 'binary', p[1], ev.content(eng, st, *p))]
    leaf = lambda c: ('int64', ev.sym('i64', ev.norm(st, c)))
    if kind == 'array':
        return [('begin_array', n), ev.Rep(n, lambda i, s: [leaf(ev.sym('elem', h, i))]), ('end_array',)]

    def pair(i, s):
        s = s.copy()
        p = ev.in_pool(eng, s, 'key', h, i)
        c = ev.content(eng, s, *p)
        return [('key', p[1], c), leaf(ev.sym('child', h, c, p[1]))]
    return [('begin_map', n), ev.Rep(n, pair), ('end_map',)]


def make(drv, k, count):
    kind = KINDS[k]

    def task(mod, name):
        r = Result('%s %s%s' % (name, kind, '' if count is None else '[%d]' % count))

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            h = args[0]
            st.facts.add_eq(ev.answer(eng, st, 'kind', [h]) - k)
            if count is not None:
                st.facts.add_eq(ev.answer(eng, st, 'count', [h]) - count)
        eng = run_entry(mod, name, ev.HOOKS, prep)
        r.take(eng, bounds=False)
        h = eng.syms[0]
        t = ev.Trace(r, eng, 'translate', 'a value of kind ' + kind)
        for e in eng.exits:
            st = e.st
            if e.kind == 'stop':
                continue
            n = ev.norm(st, ev.answer(eng, st, 'count', [h]))
            if kind == 'none':
                if e.kind != 'throw':
                    t.wrong(st, 'a value of no known kind is translated without an error')
                else:
                    r.inst('unknown')
                continue
            if e.kind == 'throw':
                if not ev.resource(e):
                    t.wrong(st, 'a translatable value raises an error')
                continue
            want = expected(eng, st, kind, h, n)
            if drv == 'drv_translate':
                p = ev.in_pool(eng, st, 'finished')
                c = ev.content(eng, st, *p)
                want = want + [('finish',), ('open', p[1], c)]
            t.compare(st, st.events(), want)
        return r
    return (drv, task)


DEPTH = 600


def deep(mod, name):
    """containers nested DEPTH levels, arrays and maps alternating, one element each"""
    r = Result(name + ' nested %d' % DEPTH)

    def hook(eng, F, st, ins, callee, args):
        if callee in ('mk_kind', 'mk_count', 'mk_elem', 'mk_child'):
            h = ev.norm(st, args[0])
            if not h.is_const():
                raise absint.Give('depth')
            h = h.c
            v = {'mk_kind': (2 if h == 0 else 7 + h % 2), 'mk_count': 1, 'mk_elem': h - 1, 'mk_child': h - 1}[callee]
            return [('ret', st, Lin(v), None)]
        return ev.hook(eng, F, st, ins, callee, args)

    def prep(eng, st, args, syms):
        ev.ensure_pool(eng, st)
        st.facts.add_eq(args[0] - DEPTH)
        args[0] = Lin(DEPTH)
        eng.UNROLL = DEPTH + 10
        eng.UNROLL_WORK = 10 ** 9
        eng.DEPTH = 2 * DEPTH + 40
    eng = run_entry(mod, name, {'call': hook, 'counted': True}, prep)
    r.take(eng, bounds=False)
    t = ev.Trace(r, eng, 'nesting', 'a deeply nested value')
    for e in eng.exits:
        if e.kind == 'stop':
            continue
        if e.kind == 'throw':
            t.wrong(e.st, 'a nested value raises an error')
            continue
        want = []
        for h in range(DEPTH, 0, -1):
            if h % 2:
                want.append(('begin_array', ONE))
            else:
                p = ev.in_pool(eng, e.st, 'key', Lin(h), ZERO)
                want += [('begin_map', ONE), ('key', p[1], ev.content(eng, e.st, *p))]
        want.append(('int64', ev.sym('i64', ZERO)))
        for h in range(1, DEPTH + 1):
            want.append(('end_array' if h % 2 else 'end_map',))
        t.compare(e.st, e.st.events(), want)
    return r


def run(ctx):
    mod = ctx.compile('translate.cpp', heap=True)
    tasks = []
    for drv in ('drv_value', 'drv_translate'):
        for k, kind in enumerate(KINDS):
            if kind in ('map', 'array'):
                for c in (None, 0, 1, 2, 3):
                    if drv == 'drv_value' or c in (None, 2):
                        tasks.append(make(drv, k, c))
            else:
                tasks.append(make(drv, k, None))
    tasks.append(('drv_deep', deep))
    ctx.analyse_list(mod, tasks)
    ctx.need('translate', 40)
    ctx.need('unknown', 2)
    ctx.need('nesting', 1200)
    return finish(ctx, 'Abstract interpretation of write_value and translate over a reader whose answers are arbitrary functions of the value and a writer '
                  'that records its calls; arrays and maps of any size via loop fixpoints with an exact iteration counter, and of 0 to 3 elements exactly.',
                  ['every normal exit made exactly the calls that describe the value, with equal arguments, in order',
                   'a value of no known kind never ends normally', 'translate opens the destination over exactly the finished bytes'])
