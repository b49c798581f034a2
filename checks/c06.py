"""Zera documents written by the writer and read back by the reader, on the same abstract memory."""
from core import *
from absint import c_ge
import docs
import rt
import rules


def case(ops, threshold):
    def task(mod, nm):
        r = Result(('threshold ' if threshold else '') + docs.name(ops))
        W = rt.Writer(mod)
        R = rules.Rule(r, W.eng)
        seq = [('threshold', lambda v: [(-v) + 12])] * threshold + list(ops) + ['finish']

        def refused(e, h):
            if e.kind in ('unknown', 'stop') or rt.resource(e):
                return
            st = e.st.copy()
            pre = []
            if h[-1][0] == 'key':
                st.facts.add_ge((-h[-1][2]) + 65535)
            elif h[-1][0] in ('str', 'blob'):
                st.facts.add_ge((-h[-1][2]) + (1 << 31))
            for d in h[:-1]:
                if d[0] in ('str', 'blob', 'key'):
                    st.facts.add_ge((-d[2]) + 60000)
                if d[0] == 'garr':
                    st.facts.add_ge((-d[3]) + (1 << 20))
            R.never(st, 'roundtrip', 'refused', 'the writer refuses a document within its limits (%s)' % rt.title(h), e.ins)
        for e, h in rt.run_history(W, seq, on_throw=refused):
            b = rt.buffer_of(e)
            if b is None:
                R.never(e.st, 'roundtrip', 'no buffer', 'finish() hands out no buffer', e.ins)
                continue
            rt.Reading(W, R, 'roundtrip', docs.name(ops)).document(e, b[1], b[2], rt.parse(h))
            r.inst('document')
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def run(ctx):
    mod = ctx.compile('zera_rt.cpp', heap=True)
    D = docs.documents(ctx.tier != 'quick')
    tasks = [case(d, False) for d in D] + [case(d, True) for d in D if 'str' in d and len(d) < 6]
    big = []
    if rt.Session(mod).const('drv_growable'):
        A, M = docs.large()
        big = [case(d, False) for d in A]
    ctx.analyse_list(mod, tasks + big)
    ctx.need('document', len(D))
    ctx.need('roundtrip', 20 * len(D))
    return finish(ctx, 'Abstract execution of the Zera writer followed by the Zera reader on %d document shapes (all string, blob and key lengths and contents, all numbers and booleans, all inline thresholds symbolic).' % len(D),
                  ['documents within the limits are accepted', 'the finished buffer opens', 'every value reads back with its kind and content', 'array sizes, keys and their order, lookup by each key'])
