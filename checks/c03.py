import c02
from core import *
import models
from absint import Engine

from cb import CBOR


class E3(Engine):
    STRCELLS = True
    MAXSTATES = 4000


def hook(eng, F, st, ins, callee, args):
    """a view must lie inside the input, or inside a string the reader itself assembled (a chunked key)"""
    if callee == 'sink_view':
        rp = eng.split_ptr(st, args[0])
        if rp is not None and rp[0].name.startswith('str:'):
            n = st.facts.norm(eng.as_lin(st, args[1]))
            eng.oblige(st, [rp[1], st.mem[rp[0].name].size - rp[1] - n], 'view', ins, 'view handed out')
            return [('ret', st, None, None)]
    return c02.view_sink(eng, F, st, ins, callee, args)


def task(mod, name):
    r = Result('%s %s' % (mod.unit, name))
    eng = run_entry(mod, name, {'call': hook}, cls=E3)
    r.take(eng)
    for e in eng.exits:
        r.inst('exit:' + e.kind)
    r.inst('views', eng.__dict__.get('nviews', 0))
    return r


def vec_task(mod, name):
    r = Result('%s %s' % (mod.unit, name))
    eng = run_entry(mod, name, {'call': sink_hook}, cls=E3)
    r.take(eng)
    for e in eng.exits:
        r.inst('exit:' + e.kind)
    return r


def run(ctx):
    mod = ctx.compile('cbor_read.cpp', extra=CBOR)
    names = sorted(n for n in mod.funcs if n.startswith('drv_'))
    if ctx.tier == 'quick':
        names = [n for n in names if n not in ('drv_elem_keys', 'drv_elem_lookup', 'drv_elem_contains')]    # the same code on a nested value
    ctx.analyse(mod, task, names=names)
    ctx.analyse(ctx.compile('cbor_vec.cpp', extra=CBOR, heap=True), vec_task)       # copies into a vector
    n = ctx.use_obligations()
    if n < 100:
        raise Broken('only %d memory obligations' % n)
    ctx.need('views', 6)
    ctx.need('exit:ret', 50)
    ctx.assumptions = ['the buffer is shorter than 2^62 bytes', 'library functions (memcpy, memcmp, ldexp, std::string) behave as documented',
                       'the jsoncons headers, which are not installed here, are replaced by declarations: the reader calls nothing of them']
    return finish(ctx, 'Abstract interpretation (linear-inequality domain, partitioned by control flow, loop fixpoints, contracts for the recursive skipper) of every '
                  'public accessor of the CBOR reader over an input of symbolic length and contents: each load, copy, comparison and handed-out view carries the '
                  'obligation 0 <= offset and offset+size <= length, discharged by linear entailment.',
                  ['every memory access of the reader stays inside the input buffer or a live local object',
                   'every view passed to the caller lies inside the input buffer, or inside a string the reader assembled from chunks'])
