from core import *
import zs

ACC = ['isNull', 'isBool', 'isInt', 'isUInt', 'isFloat', 'isString', 'isBlob', 'isMap', 'isArray', 'asBool',
       'asInt64', 'asUInt64', 'asDouble', 'asFloat', 'asStringView', 'asBlob', 'arraySize']


def task(mod, name):
    r = Result(name)
    _, where, acc = name.split('_', 2)
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    zs.judge(r, eng, acc, 'decode' if where == 'root' else 'element', where, zs.root_base if where == 'root' else zs.elem_base, zs.alternatives)
    return r


def run(ctx):
    mod = ctx.compile('zera_read.cpp')
    ctx.analyse(mod, task, names=['drv_root_' + a for a in ACC] + ['drv_elem_' + a for a in ACC])
    ctx.need('decode', 60)
    ctx.need('element', 60)
    return finish(ctx, 'Abstract interpretation of every accessor of the Zera reader on the root value and on an array element, from an arbitrary input of '
                  'symbolic length and content; every exit partition is compared with the acceptance table written from ZERA.md.',
                  ['a normal exit implies a valid header, a value inside the envelope and the flags, aux, rank and bounds ZERA.md prescribes',
                   'the result is the value the ValueRef encodes: same bits, or a view at exactly the encoded place and length',
                   'a throwing exit is incompatible with a valid value of the requested kind'])
