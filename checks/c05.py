from core import *
import c03
import c22
import cb
import mp
import zs

ACC = list(mp.INTACC)


def mp_task(mod, name):
    r = Result('msgpack ' + name)
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    mp.judge(r, eng, name[len('drv_root_'):], ZERO, eng.syms['in'], 'msgpack root', prop='msgpack')
    return r


def z_task(mod, name):
    r = Result('zera ' + name)
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    _, where, acc = name.split('_', 2)
    zs.judge(r, eng, acc, 'zera', 'zera ' + where, zs.root_base if where == 'root' else zs.elem_base, zs.alternatives)
    return r


def cb_task(mod, name):
    r = Result('cbor ' + name)
    eng = run_entry(mod, name, {'call': sink_hook}, cls=c03.E3)
    r.take(eng, bounds=False)
    cb.judge(r, eng, name[len('drv_root_'):], ZERO, eng.syms['in'], 'cbor root', prop='cbor')
    return r


def run(ctx):
    ctx.analyse(ctx.compile('cbor_read.cpp', extra=cb.CBOR), cb_task, names=['drv_root_' + a for a in ACC])
    ctx.analyse(ctx.compile('msgpack_read.cpp'), mp_task, names=['drv_root_' + a for a in ACC])
    ctx.analyse(ctx.compile('zera_read.cpp'), z_task, names=['drv_%s_%s' % (w, a) for a in ACC for w in ('root', 'elem')])
    ctx.analyse_list(ctx.compile('flex_ref.cpp', heap=True), [c22.against(t, a, b, True) for t in c22.types() for a, b in ((1, 1), (2, 4), (4, 2), (8, 8), (8, 4), (4, 8))])
    ctx.need('narrow', 100)
    ctx.need('msgpack', 150)
    ctx.need('zera', 100)
    ctx.need('cbor', 100)
    return finish(ctx, 'Abstract interpretation of the integer accessors of the Zera, MsgPack, Flex and CBOR readers; every exit partition is compared with the stored integer: a normal exit must '
                  'return exactly that integer and imply that it fits; a throwing exit must be incompatible with a stored integer that fits.',
                  ['value returned == value stored', 'throws only when the stored value is no integer, does not fit, or is truncated'])
