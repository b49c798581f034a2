from core import *
import zs
from absint import c_not, c_and


def task(mod, name):
    r = Result(name)
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    R = zs.rules.Rule(r, eng)
    for e in eng.exits:
        st = e.st.copy()
        H = zs.Hdr(eng, st)
        if e.kind == 'ret':
            for nm, c in H.conds():
                R.must(st, c, 'only valid', nm, 'the reader accepts a buffer violating: %s' % nm, e.ins)
        elif e.kind == 'throw':
            for s in zs.restrict(eng, st, [c for _, c in H.conds()]):
                R.never(s, 'every valid', 'throw', 'the reader rejects a valid header', e.ins)
            r.inst('throw')
            if 'DeserializationError' not in str(e.val):
                R.never(e.st, 'error type', str(e.val), 'a bad header raises %s' % e.val, e.ins)
            else:
                r.inst('error type')
        elif e.kind != 'unknown':
            R.never(e.st, 'every valid', e.kind, 'opening ends in %s' % e.kind, e.ins)
    return r


def run(ctx):
    mod = ctx.compile('zera_open.cpp')
    ctx.analyse(mod, task)
    ctx.need('only valid', 24)
    ctx.need('throw', 15)
    ctx.assumptions = ['the buffer is shorter than 2^62 bytes']
    return finish(ctx, 'Abstract interpretation of the Zera reader constructors over a buffer of symbolic length and contents; the path condition of every '
                  'normal exit must entail each header condition of the format, and no throwing path may be compatible with all of them.',
                  ['only valid: normal return implies every header condition', 'every valid: no throw is compatible with a valid header',
                   'error type: rejection raises DeserializationError'])
