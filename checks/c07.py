"""Zera documents written by the writer, decoded from the finished bytes as ZERA.md prescribes."""
from core import *
from absint import c_ge
import docs
import rt
import rules
import zw


def case(ops, threshold):
    def task(mod, nm):
        r = Result(('threshold ' if threshold else '') + docs.name(ops))
        W = rt.Writer(mod)
        seq = [('threshold', lambda v: [(-v) + 12])] * threshold + list(ops) + ['finish']
        for e, h in rt.run_history(W, seq):
            zw.decode_exit(r, W.eng, e, h, 'layout')
            r.inst('document')
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def run(ctx):
    mod = ctx.compile('zera_rt.cpp', heap=True)
    D = docs.documents(ctx.tier != 'quick')
    tasks = [case(d, False) for d in D] + [case(d, True) for d in D if 'str' in d and len(d) < 6]
    big = []
    if rt.Session(mod).const('drv_growable'):
        A, M = docs.large()
        big = [case(d, False) for d in A + M]
    ctx.analyse_list(mod, tasks + big)
    ctx.need('document', len(D))
    ctx.need('layout', 20 * len(D))
    return finish(ctx, 'Abstract execution of the Zera writer on %d document shapes (all string, blob and key lengths and contents, all numbers and booleans, all inline thresholds symbolic); the finished buffer decoded by a specification of ZERA.md.' % len(D),
                  ['header fields, arena alignment and containment', 'every value reference, array, object, shape and payload as ZERA.md lays it out', 'blob payloads 16-byte aligned from the start of the buffer'])
