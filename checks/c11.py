from core import *
from absint import FV, UNDEF
import ev

SIGNED = {'char': 8, 'schar': 8, 'short': 16, 'int': 32, 'long': 64, 'llong': 64}
UNSIGNED = {'uchar': 8, 'ushort': 16, 'uint': 32, 'ulong': 64, 'ullong': 64}


def sext(eng, st, v, w):
    """two's complement reading of a w-bit quantity as a 64-bit one; -> [(state, value)]"""
    v = eng.as_lin(st, v)
    if w == 64:
        return [(st, v)]
    out = []
    for s in eng.assume(st.copy(), ('ge', Lin((1 << (w - 1)) - 1) - v)):
        out.append((s, v))
    for s in eng.assume(st.copy(), ('ge', v - (1 << (w - 1)))):
        out.append((s, v + ((1 << 64) - (1 << w))))
    return out


class W:
    """a value to be expected: ('i', width, bits) and friends, expanded per sign case"""


def scalar(name, v):
    if name == 'bool':
        return ('boolean', v)
    if name in SIGNED:
        return ('int64', ('sx', SIGNED[name], v))
    if name in UNSIGNED:
        return ('uint64', v)
    if name == 'float':
        return ('double', FV('f64', ('fpext', 'f32', v)))
    return ('double', v)


class Trace(ev.Trace):
    """event comparison that understands sign extension"""
    def one(self, st, g, w):
        if len(w) == 2 and isinstance(w[1], tuple) and w[1] and w[1][0] == 'sx':
            ok = True
            for s, v in sext(self.eng, st, w[1][2], w[1][1]):
                if self.feasible(s):
                    ok &= ev.Trace.one(self, s, g, (w[0], v))
            return ok
        return ev.Trace.one(self, st, g, w)


def rd(eng, st, region, off, ty):
    eng.quiet += 1
    try:
        return eng.read(st, region, off, ty)
    finally:
        eng.quiet -= 1


def view(eng, st, p, n, rn='in'):
    return (n, ev.content(eng, st, p, n))


def text(eng, st, s):
    """a constant string: length and byte j as a case list is not expressible, so compared byte by byte"""
    return s


def want_of(eng, st, name, sy):
    k = name[4:]
    inp = lambda rn='in': (sy[rn], ev.content(eng, st, eng.ptr(rn), sy[rn]))
    if k[:2] in ('v_', 'r_') and (k[2:] in SIGNED or k[2:] in UNSIGNED or k[2:] in ('bool', 'float', 'double')):
        w = [scalar(k[2:], sy[0])]
        return w + fin(eng, st) if k[0] == 'r' else w
    if k == 'null':
        return [('null',)]
    if k == 'none':
        return fin(eng, st)
    if k == 'cstr':
        n = atom(T.get('strnlen', (eng.ptr('in'), st.facts.norm(sy['in'] - 1)), 0, 1 << 62))
        return [('string', n, ev.content(eng, st, eng.ptr('in'), n))]
    if k in ('sv', 'string'):
        return [('string',) + inp()]
    if k in ('span', 'bytes'):
        return [('binary',) + inp()]
    if k in ('svnull', 'spannull'):
        return [('string' if k == 'svnull' else 'binary', ZERO, None)]
    if k.startswith('c_'):
        return container(eng, st, k[2:], sy)
    i = lambda n, w=32: ('int64', ('sx', w, sy[n]))
    u = lambda n: ('uint64', sy[n])
    if k == 'n_vv':
        return [('begin_array', Lin(3)), ('begin_array', Lin(2)), i(0), i(1), ('end_array',), ('begin_array', ZERO), ('end_array',),
                ('begin_array', ONE), i(2), ('end_array',), ('end_array',)]
    if k == 'n_vs':
        return [('begin_array', Lin(2)), ('string',) + inp(), ('string', ONE, Lin(ord('x'))), ('end_array',)]
    if k == 'n_map':
        return [('begin_map', Lin(2)), ('key',) + inp(), i(2), ('key', ONE, Lin(ord('x'))), i(3), ('end_map',)]
    if k == 'n_umap':
        return [('begin_map', Lin(2)), ('key',) + inp(), u(2), ('key', ONE, Lin(ord('x'))), u(3), ('end_map',)]
    if k == 'b_zvec':
        return [('begin_array', Lin(6)), i(0), u(1), ('double', sy[2]), ('string',) + inp(), ('boolean', sy[5]), ('null',), ('end_array',)]
    if k == 'b_zvec0':
        return [('begin_array', ZERO), ('end_array',)]
    if k == 'b_zmap':
        return [('begin_map', Lin(3)), ('key', Lin(5), b'first'), i(0), ('key', ZERO, b''), u(1), ('key', Lin(3), b'a\0b'),
                scalar('float', sy[2]), ('end_map',)]
    if k == 'b_zmap0':
        return [('begin_map', ZERO), ('end_map',)]
    if k == 'b_nested':
        return [('begin_map', Lin(3)), ('key', Lin(4), b'nums'), ('begin_array', Lin(2)), i(0), ('begin_array', Lin(2)), i(1, 64), u(2), ('end_array',),
                ('end_array',), ('key', Lin(4), b'meta'), ('begin_map', ONE), ('key', ONE, b'k'), ('string',) + inp(), ('end_map',),
                ('key', ONE, b'e'), ('begin_array', ZERO), ('end_array',), ('end_map',)]
    if k == 'b_temp':
        return [('begin_array', Lin(2)), ('string',) + inp(), ('begin_map', ONE), ('key', ONE, b'k'), ('string',) + inp(), ('end_map',), ('end_array',)]
    if k == 'r_zvec':
        return [('begin_array', Lin(2)), i(0), i(1, 64), ('end_array',)] + fin(eng, st)
    if k == 'r_zmap':
        return [('begin_map', Lin(2)), ('key', ONE, b'x'), i(0), ('key', ONE, b'y'), i(1, 64), ('end_map',)] + fin(eng, st)
    raise Broken('no expectation for ' + name)


def fin(eng, st):
    p = ev.in_pool(eng, st, 'finished')
    c = ev.content(eng, st, *p)
    return [('finish',), ('result', p[1], c)]


ELEM = {'vec_int': (4, 'int'), 'vec_u8': (1, 'uchar'), 'vec_f32': (4, 'float'), 'list_i64': (8, 'long'), 'list_u32': (4, 'uint'), 'il': (4, 'int'),
        'arr': (4, 'int')}


def container(eng, st, k, sy):
    if k == 'arr0':
        return [('begin_array', ZERO), ('end_array',)]
    if k == 'arr':
        return [('begin_array', Lin(3))] + [scalar('int', rd(eng, st, 'in', Lin(4 * j), 'i32')) for j in range(3)] + [('end_array',)]
    n = eng.count
    if k in ELEM:
        sz, ty = ELEM[k]

        def elem(i, st):
            t = 'f32' if ty == 'float' else 'i%d' % (8 * sz)
            return [scalar(ty, rd(eng, st, 'in', i.scale(sz), t))]
        return [('begin_array', n), ev.Rep(n, elem), ('end_array',)]
    sz, vo, vt = {'map': (40, 32, 'int'), 'umap': (40, 32, 'ulong')}[k]

    def pair(i, st):
        b = i.scale(sz)
        return [('key', rd(eng, st, 'in', b + 8, 'i64'), ('ptr', rd(eng, st, 'in', b, 'p'))),
                scalar(vt, rd(eng, st, 'in', b + vo, 'i%d' % (64 if vt == 'ulong' else 32)))]
    return [('begin_map', n), ev.Rep(n, pair), ('end_map',)]


def make(name, count):
    def task(mod, nm):
        r = Result(name + ('' if count is None else '[%d]' % count))

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            if name.startswith('drv_c_') and 'in' in syms and name != 'drv_c_arr':
                sz = {'map': 40, 'umap': 40}.get(name[6:]) or ELEM[name[6:]][0]
                c = ev.sym('count', hi=1 << 56) if count is None else Lin(count)
                st.facts.add_eq(syms['in'] - c.scale(sz))
                eng.count = c
            elif name == 'drv_c_arr':
                st.facts.add_eq(syms['in'] - 12)
            elif name == 'drv_cstr':
                st.facts.add_ge(syms['in'] - 1)
        eng = run_entry(mod, nm, ev.HOOKS, prep)
        r.take(eng, bounds=False)
        t = Trace(r, eng, 'emit', name[4:])
        normal = 0
        for e in eng.exits:
            if e.kind == 'stop' or e.kind == 'unknown':
                continue
            if e.kind == 'throw':
                if not ev.resource(e):
                    t.wrong(e.st, 'an error is raised')
                continue
            normal += 1
            t.compare(e.st, e.st.events(), want_of(eng, e.st, name, eng.syms))
        if normal:
            r.inst('exit', normal)
        return r
    return (name, task)


def run(ctx):
    mod = ctx.compile('serialize.cpp', heap=True, extra=['-I' + VERIF + '/standin/seq'])
    tasks = []
    for n in sorted(x for x in mod.funcs if x.startswith('drv_')):
        if n.startswith('drv_c_') and n not in ('drv_c_arr', 'drv_c_arr0'):
            tasks += [make(n, c) for c in (None, 0, 1, 2, 3)]
        else:
            tasks.append(make(n, None))
    ctx.analyse_list(mod, tasks)
    ctx.need('emit', 150)
    ctx.need('exit', len(tasks))
    return finish(ctx, 'Abstract interpretation of every built-in serialize overload, of zvec/zmap builders and of serialize<P> with a recording writer, '
                  'for arbitrary values and arbitrary element sequences (any length via loop fixpoints, lengths 0 to 3 exactly).',
                  ['every normal exit made exactly the calls that describe the value, with equal arguments, in order',
                   'serialize<P> returns exactly what finish() returned'])
