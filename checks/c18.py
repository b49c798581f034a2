from core import *
import rules
from absint import LoopRec

ALLOC = ('alloc', 'string', 'msgstring')
OWNING = ('asString',)


def allocs(evs, out, depth=0):
    for e in evs:
        if isinstance(e, LoopRec):
            for b, _ in e.backs:
                allocs(b.events(), out, depth + 1)
        elif isinstance(e, tuple) and e[0] in ALLOC:
            out.append(e)


def task(mod, name):
    r = Result('%s %s' % (mod.unit, name))
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    acc = name.split('_', 2)[2]
    exits = [(e, False) for e in eng.exits]
    for con in eng.contracts.values():
        exits += [(e, True) for e in con.exits]
    for k, o in eng.obl.items():
        if k[0] == 'rostore':
            r.bad('store %s' % k[1], '%s: input bytes are written: %s' % (k[1], o[2]))
    for e, rec in exits:
        if e.kind != 'ret' or e.st.facts.infeasible():
            continue
        got = []
        allocs(e.st.events(), got)
        if got and (acc not in OWNING or rec):
            ins = got[0][-1]
            r.bad('alloc %s' % loc_of(ins), '%s: heap allocation (%s) on a path that returns normally [%s]' % (loc_of(ins), got[0][0], r.name))
        else:
            r.inst('alloc-free exit')
        for ev in e.st.events():
            if isinstance(ev, tuple) and ev[0] == 'sink_view':
                view(r, eng, e, ev)
            elif isinstance(ev, LoopRec):
                for b, _ in ev.backs:
                    for ev2 in b.events():
                        if isinstance(ev2, tuple) and ev2[0] == 'sink_view':
                            view(r, eng, e, ev2, b)
    return r


def view(r, eng, e, ev, st=None):
    st = st or e.st
    n = st.facts.norm(eng.as_lin(st, ev[2]))
    if n.is_const() and n.c == 0:
        return
    rp = eng.split_ptr(st, ev[1])
    if rp is None:
        if isinstance(ev[1], Lin) and ev[1].is_const() and st.facts.entails_eq(n):
            return
        r.unk('%s: origin of a view is not known' % r.name)
    elif rp[0].name != 'in':
        r.bad('view %s' % loc_of(ev[-1]), '%s: a view handed out points into %s, not into the buffer [%s]' % (loc_of(ev[-1]), rp[0].name, r.name))
    else:
        r.inst('zero-copy view')


def run(ctx):
    slow = ('drv_elem_keys', 'drv_elem_lookup', 'drv_elem_contains')
    for u in ('msgpack_read.cpp', 'zera_read.cpp'):
        mod = ctx.compile(u)
        names = sorted(n for n in mod.funcs if n.startswith('drv_') and (ctx.tier == 'thorough' or n not in slow))
        ctx.analyse(mod, task, names=names)
    ctx.need('alloc-free exit', 200)
    ctx.need('zero-copy view', 10)
    return finish(ctx, 'Effect analysis on top of the abstract interpretation: allocation calls are events; no normally returning path (loop bodies and recursive '
                  'helpers included) of a non-owning reader entry point may carry one, every view handed out must point into the input object, and no store may target it.',
                  ['no allocation on normal exits (asString, which returns an owning string, excepted)', 'views point into the input', 'input is never written'])
