from core import *


def task(mod, name):
    r = Result(name)
    eng = run_entry(mod, name, {'call': view_sink})
    r.take(eng)
    for e in eng.exits:
        r.inst('exit:' + e.kind)
    r.inst('views', eng.__dict__.get('nviews', 0))
    return r


def view_sink(eng, F, st, ins, callee, args):
    """every view handed out must lie inside the input"""
    if callee == 'sink_view':
        n = st.facts.norm(eng.as_lin(st, args[1]))
        if not (n.is_const() and n.c == 0) and not st.facts.entails_eq(n):
            chk = st.copy()
            chk.facts.add_ge(n - 1)
            if not chk.facts.dead:
                rp = eng.split_ptr(st, args[0])
                if rp is None or rp[0].name != 'in':
                    eng.oblige(chk, [Lin(-1)], 'view', ins, 'view handed out does not point into the input')
                else:
                    eng.oblige(chk, [rp[1], st.mem['in'].size - rp[1] - n], 'view', ins, 'view handed out')
        if not eng.quiet:
            eng.nviews = getattr(eng, 'nviews', 0) + 1
        return [('ret', st, None, None)]
    return sink_hook(eng, F, st, ins, callee, args)


def run(ctx):
    mod = ctx.compile('msgpack_read.cpp')
    names = sorted(n for n in mod.funcs if n.startswith('drv_'))
    if ctx.tier == 'quick':
        names.remove('drv_elem_keys')       # the same iterator as drv_root_keys, on a nested map
    ctx.analyse(mod, task, names=names)
    n = ctx.use_obligations()
    if n < 100:
        raise Broken('only %d memory obligations' % n)
    ctx.need('views', 6)
    ctx.need('exit:ret', 50)
    ctx.assumptions = ['the buffer is shorter than 2^62 bytes', 'library functions (memcpy, memcmp, std::string) behave as documented']
    return finish(ctx, 'Abstract interpretation (linear-inequality domain, partitioned by control flow, loop fixpoints) of every public accessor of '
                  'the MsgPack reader over an input of symbolic length and contents: each load, copy, comparison and handed-out view carries the '
                  'obligation 0 <= offset and offset+size <= length, discharged by linear entailment.',
                  ['every memory access of the reader stays inside the input buffer or a live local object',
                   'every view passed to the caller lies inside the input buffer'])
