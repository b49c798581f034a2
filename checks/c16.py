from core import *
import c03
import rules
from absint import Engine

OK = ('_ZTIN9zerialize20DeserializationErrorE',)


def task(mod, name):
    r = Result('%s %s' % (mod.unit, name))
    eng = run_entry(mod, name, {'call': sink_hook}, cls=c03.E3 if mod.unit.startswith('cbor') else Engine)
    r.take(eng, bounds=False)
    R = rules.Rule(r, eng)
    exits = list(eng.exits)
    for con in eng.contracts.values():
        exits += [e for e in con.exits]
    for e in exits:
        if e.kind == 'ret':
            r.inst('normal exit')
        elif e.kind == 'throw':
            if e.val in OK:
                r.inst('throw type')
            else:
                bad(r, R, e, 'throws %s' % e.val)
        elif e.kind in ('terminate', 'trap', 'unreachable'):
            bad(r, R, e, 'ends in ' + e.kind)
    return r


def bad(r, R, e, what):
    if e.st.facts.infeasible():
        return
    r.bad('%s %s' % (what, loc_of(e.ins)), '%s: %s on some input [%s]' % (loc_of(e.ins), what, r.name))


def run(ctx):
    slow = ('drv_elem_keys', 'drv_elem_lookup', 'drv_elem_contains')
    for u in ('msgpack_read.cpp', 'zera_read.cpp', 'cbor_read.cpp'):
        mod = ctx.compile(u, extra=c03.CBOR if u.startswith('cbor') else ())
        names = sorted(n for n in mod.funcs if n.startswith('drv_') and (ctx.tier == 'thorough' or n not in slow))
        ctx.analyse(mod, task, names=names)
    ctx.need('throw type', 500)
    ctx.assumptions = ['allocation does not fail (std::bad_alloc is not bad data)']
    return finish(ctx, 'Abstract interpretation of every reader entry point over symbolic bytes: the dynamic type of the exception on every feasible throwing exit '
                  '(including those of library helpers such as at(), subspan checks, stoi) is collected, and abnormal ends are looked for.',
                  ['every feasible throwing exit carries zerialize::DeserializationError', 'no feasible exit through terminate, trap or unreachable'])
