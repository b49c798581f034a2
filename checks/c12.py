from core import *
from absint import FV
import ev
import c11
from c11 import scalar, Trace, SIGNED, UNSIGNED


def want_of(eng, st, name, sy):
    k = name[4:]
    inp = lambda: (sy['in'], ev.content(eng, st, eng.ptr('in'), sy['in']))
    i = lambda n, w=32: ('int64', ('sx', w, sy[n]))
    u = lambda n: ('uint64', sy[n])
    if k.startswith('v_'):
        return [scalar(k[2:], sy[0])]
    if k.startswith('null'):
        return [('null',)]
    if k == 'cstr':
        n = atom(T.get('strnlen', (eng.ptr('in'), st.facts.norm(sy['in'] - 1)), 0, 1 << 62))
        return [('string', n, ev.content(eng, st, eng.ptr('in'), n))]
    if k in ('sv', 'string'):
        return [('string',) + inp()]
    if k in ('span', 'blob', 'bytes', 'bytesmv', 'binary'):
        return [('binary',) + inp()]
    if k == 'arr0':
        return [('begin_array', ZERO), ('end_array',)]
    if k == 'map0':
        return [('begin_map', ZERO), ('end_map',)]
    if k == 'arr':
        return [('begin_array', Lin(6)), i(0), u(1), ('double', sy[2]), ('string',) + inp(), ('null',), ('boolean', ('ge', ZERO)), ('end_array',)]
    if k == 'map':
        return [('begin_map', Lin(3)), ('key', Lin(3), b'one'), i(0), ('key', ZERO, b''), u(1), ('key',) + inp(), ('null',), ('end_map',)]
    if k == 'dup':
        return [('begin_map', Lin(3)), ('key', ONE, b'k'), i(0), ('key', ONE, b'j'), ('int64', ONE), ('key', ONE, b'k'), i(1), ('end_map',)]
    if k == 'nest':
        return [('begin_map', Lin(2)), ('key', ONE, b'l'), ('begin_array', Lin(2)), i(0), ('begin_array', Lin(2)), i(1, 64), ('begin_array', ZERO),
                ('end_array',), ('end_array',), ('end_array',), ('key', ONE, b'm'), ('begin_map', ONE), ('key',) + inp(), ('begin_map', ZERO),
                ('end_map',), ('end_map',), ('end_map',)]
    if k == 'copy':
        return [('begin_array', Lin(2)), i(0), ('string',) + inp(), ('end_array',)]
    if k in ('vec', 'vecmap'):
        n = eng.count
        out = [('begin_array' if k == 'vec' else 'begin_map', Lin(n))]
        for x in range(n):
            if k == 'vecmap':
                out.append(('key', Lin(x & 1), b'k' * (x & 1)))
            out.append(('int64', sy[1] + x))
        return out + [('end_array' if k == 'vec' else 'end_map',)]
    if k == 'root':
        return [('begin_array', Lin(2)), i(0), i(1, 64), ('end_array',)] + c11.fin(eng, st)
    if k in ('view', 'ser', 'sermv'):
        c = sy[6]
        x = [('begin_map', c), ('key',) + inp(), ('null',), ('key', ONE, b'q'), ('boolean', sy[0]), ('begin_array', c), ('int64', sy[1]), ('uint64', sy[2]),
             ('double', sy[3]), ('string',) + inp(), ('binary',) + inp(), ('end_array',), ('end_map',)]
        if k == 'sermv':
            x = [('begin_array', Lin(2))] + x + [('int64', ONE), ('end_array',)]
        return x
    raise Broken('no expectation for ' + name)


def make(name, count):
    def task(mod, nm):
        r = Result(name + ('' if count is None else '[%d]' % count))

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            eng.DEPTH = 400
            eng.UNROLL = 40
            eng.UNROLL_WORK = 10 ** 9
            if count is not None:
                args[0] = Lin(count)
                eng.count = count
                eng.PEEL = 400
                st.facts.add_ge(Lin((1 << 63) - 1 - count) - args[1])      # the test values do not wrap
            elif name == 'drv_cstr':
                st.facts.add_ge(syms['in'] - 1)
        eng = run_entry(mod, nm, ev.HOOKS, prep)
        r.take(eng, bounds=False)
        t = Trace(r, eng, 'emit', name[4:])
        normal = 0
        for e in eng.exits:
            if e.kind in ('stop', 'unknown', 'unreachable'):
                continue
            if e.kind == 'throw':
                if not ev.resource(e):
                    t.wrong(e.st, 'an error is raised')
                continue
            normal += 1
            t.compare(e.st, e.st.events(), want_of(eng, e.st, name, eng.syms))
        r.inst('exit', normal)
        return r
    return (name, task)


def run(ctx):
    mod = ctx.compile('dynamic.cpp', heap=True)
    tasks = []
    for n in sorted(x for x in mod.funcs if x.startswith('drv_')):
        if n in ('drv_vec', 'drv_vecmap'):
            tasks += [make(n, c) for c in (258, 0, 1, 3, 40)]
        else:
            tasks.append(make(n, None))
    tasks.sort(key=lambda t: t[0] not in ('drv_vec', 'drv_vecmap'))
    ctx.analyse_list(mod, tasks)
    ctx.need('emit', 80)
    ctx.need('exit', len(tasks))
    return finish(ctx, 'Abstract interpretation of construction and serialization of dynamic values of every alternative, and of the type-erased writer, '
                  'with a recording writer and arbitrary scalars, strings and blobs.',
                  ['every normal exit made exactly the calls that describe the value, with equal arguments, in order'])
