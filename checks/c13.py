from core import *
from absint import UNDEF
import ev

EXTRA = ('del', 'at', 'data', 'flag')


class Trace(ev.Trace):
    def one(self, st, g, w):
        if g[0] == 'data' and w[0] == 'data' and len(w) == 2:   # only the size is specified
            return self.R.equal(st, g[2], w[1], self.rule, self.what + ' size', '%s: size() is different' % self.what, g[-1])
        return ev.Trace.one(self, st, g, w)


def truth(b):
    return ('flag', ONE if b else ZERO)


def look(p, n, empty):
    return [('data', p, n), ('data', p, n), truth(empty), truth(False)]


def del_(p, i=1):
    return ('del', p, Lin(i) if isinstance(i, int) else i)


def at(k):
    return ('at', Lin(k))


def want(eng, st, k, sy, z):
    """z: whether the (first) size is zero in this partition, where that matters"""
    P = lambda rn: eng.ptr(rn)
    if k in ('vec', 'vec_copyout', 'vec_debug', 'vec_move', 'vec_assign'):
        c = ev.content(eng, st, P('in'), sy['in'])
        w = [('result', sy['in'], c)]
        return w + ([truth(True), truth(z)] if k == 'vec' else [])
    if k == 'empty':
        return [('result', ZERO, None), truth(True)]
    if k in ('u8', 'c8', 'v8'):
        return look(P('in'), sy['in'], z) + [at(0), del_(P('in')), at(1)]
    if k in ('copyout', 'debug'):
        return [('result', sy['in'], ev.content(eng, st, P('in'), sy['in'])), del_(P('in'))]
    if k == 'state':
        return [at(0), del_(P('in'), sy[2]), at(1)]
    if k == 'move':
        p, n = P('in'), sy['in']
        return [at(0)] + look(p, n, z) + [('data', ZERO, ZERO), at(1)] + look(p, n, z) + [('data', ZERO, ZERO), at(2), del_(p), at(3)]
    if k == 'replace':
        return [at(0), del_(P('in')), at(1)] + look(P('key'), sy['key'], z) + [del_(P('key'), 2), at(2)]
    if k == 'drop':
        return [at(0), del_(P('in')), at(1), ('result', sy['key'], ev.content(eng, st, P('key'), sy['key'])), at(2)]
    if k == 'takeover':
        return [at(0)] + look(P('key'), sy['key'], z) + [del_(P('key')), at(1)]
    if k == 'noop':
        return look(P('in'), sy['in'], z)
    raise Broken('no expectation for ' + k)


REFUSED = ('null_u8', 'null_c8', 'null_v8', 'nodel_u8', 'nodel_c8', 'nodel_v8')
STOCK = ('free', 'array')


def case(name, zero):
    k = name[4:]

    def task(mod, nm):
        r = Result(name + {None: '', True: '[empty]', False: '[nonempty]'}[zero])

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            n = syms.get('key' if k in ('replace', 'takeover') else 'in', syms.get(0))
            if isinstance(n, Lin) and zero is not None:
                if zero:
                    st.facts.add_eq(n)
                else:
                    st.facts.add_ge(n - 1)
        eng = run_entry(mod, nm, dict(ev.HOOKS, follow_cleanup=True), prep)
        r.take(eng)
        t = Trace(r, eng, 'own', k)
        for e in eng.exits:
            if e.kind in ('stop', 'unknown'):
                continue
            if e.kind == 'terminate':
                t.wrong(e.st, 'the process is terminated')
                continue
            leaks(eng, t, r, e)
            got = ev.select(e.st.events())
            if e.kind == 'throw':
                if ev.resource(e):
                    continue
                refuse = k.startswith('nodel') or (k.startswith('null') and not zero)
                if not refuse or 'invalid_argument' not in str(e.val):
                    t.wrong(e.st, 'an error is raised')
                elif got:
                    t.wrong(e.st, 'a refused construction ran the deleter or went on')
                else:
                    r.inst('refused')
                continue
            if k.startswith('nodel') or (k.startswith('null') and not zero):
                t.wrong(e.st, 'a construction that must be refused succeeds')
                continue
            if k.startswith('null'):        # nothing to own: deleter may be skipped
                t.compare(e.st, [('ev',) + g for g in got], [at(0), ('data', ZERO, ZERO), at(1)])
                continue
            if k in STOCK:
                stock(eng, t, r, e, got, zero)
                continue
            t.compare(e.st, e.st.events(), want(eng, e.st, k, eng.syms, zero))
        return r
    return (name, task)


def leaks(eng, t, r, e):
    live = [n for n, c in e.st.mem.items() if c.alive and eng.regions[n].kind == 'heap']
    if live:
        t.wrong(e.st, 'memory is still allocated at the end: %s' % ', '.join(sorted({eng.regions[n].meta.get('alloc', '?') for n in live})))
    else:
        r.inst('released')


def stock(eng, t, r, e, got, zero):
    """memory of the right allocator: data() is its start, size() its length"""
    evs = e.st.events()
    if not got:
        return
    al = [n for n in eng.regions if eng.regions[n].kind == 'heap']
    p = next((eng.ptr(n) for n in al if eng.regions[n].meta.get('alloc') in ('malloc', '_Znam')), None)
    if p is None:
        t.wrong(e.st, 'nothing was allocated')
        return
    t.compare(e.st, evs, look(p, eng.syms[0], zero))


def run(ctx):
    ev.NAMES = tuple(set(ev.NAMES) | set(EXTRA))
    mod = ctx.compile('zbuffer.cpp', heap=True, extra=['-I' + VERIF + '/standin/seq'])
    tasks = []
    for n in sorted(x for x in mod.funcs if x.startswith('drv_')):
        if n == 'drv_empty':
            tasks.append(case(n, None))
        else:
            tasks += [case(n, True), case(n, False)]
    ctx.analyse_list(mod, tasks)
    ctx.use_obligations()
    ctx.need('own', 200)
    ctx.need('released', 40)
    ctx.need('refused', 9)
    return finish(ctx, 'Abstract interpretation (unwinding included) of ZBuffer histories for arbitrary pointers and sizes: construction from vectors and from foreign '
                  'memory of each pointer type, moves, assignments, replacement, destruction, copying out, refused constructions.',
                  ['data()/size()/buf()/empty()/owned() report the bytes and length the buffer was built from',
                   'the deleter runs exactly once, with the original pointer, when the last owner goes; not for moved-from or refused objects',
                   'a null pointer with a size and an empty deleter end in invalid_argument, never in termination',
                   'everything allocated is released on every exit, with the matching release function',
                   'not copyable, nothrow movable (static assertions in the driver)'])
