"""Zera writer call histories: every operation in every container-stack state reached by valid histories up to a depth."""
from core import *
from absint import c_ge, c_or
import docs
import rt
import rules

VALUES = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob')
STRUCT = ('barr', 'earr', 'bmap', 'emap')
FINAL = VALUES + STRUCT + ('key', 'finish', 'threshold')
PREFIX = ('null', 'str', 'key') + STRUCT


def limit(op, d):
    """condition under which the arguments are within the documented limits"""
    if op == 'key':
        return c_ge((-d[2]) + 65535)
    if op in ('str', 'blob'):
        return c_ge((-d[2]) + ((1 << 32) - 1))
    if op == 'threshold':
        return c_ge((-d[1]) + 12)
    return True


def judge(W, R, r, g, hist, op, ex, d):
    """exits of one call in grammar state g; returns the continuing states"""
    eng = W.eng
    out = []
    ng = g if op == 'threshold' else rt.Grammar.step(g, op)
    text = rt.title(hist + [d])
    for e in ex:
        if e.kind in ('unknown', 'stop') or (e.kind == 'throw' and rt.resource(e)):
            continue
        r.inst('call')
        if e.kind == 'ret':
            if ng is None:
                R.never(e.st, 'misuse', 'accepted ' + op, 'a misplaced call is accepted: ' + text, e.ins)
                continue
            lim = limit(op, d)
            if lim is not True:
                R.must(e.st, lim, 'limit', 'accepted ' + op, 'an argument beyond its limit is accepted: ' + text, e.ins)
            out.append(e.st)
        elif e.kind != 'throw' or str(e.val) != rt.SERR:
            R.never(e.st, 'misuse', 'error ' + op, 'ends in %s %s: %s' % (e.kind, e.val, text), e.ins)
        elif ng is None or (op in ('barr', 'bmap') and rt.Grammar.step(g, 'null') is None):
            r.inst('misuse')
        else:
            lim = limit(op, d)
            st = e.st.copy()
            # the 4 GiB totals of envelope and arena are documented limits too
            pre = []
            for x in hist + [d]:
                if x[0] in ('str', 'blob', 'key'):
                    st.facts.add_ge((-x[2]) + (1 << 26)) if x is not d else None
            if op in ('str', 'blob') and any(x[0] in ('str', 'blob') for x in hist):
                lim = c_ge((-d[2]) + (1 << 31))
            if st.facts.dead:
                continue
            if lim is True:
                R.never(st, 'wellformed', 'refused ' + op, 'a correct call is refused: ' + text, e.ins)
            else:
                s2 = [x for x in eng.assume(st, lim)]
                for x in s2:
                    R.never(x, 'wellformed', 'refused ' + op, 'a correct call within the limits is refused: ' + text, e.ins)
                if not s2:
                    r.inst('wellformed')
    return ng, out


def explore(prefix, depth):
    def task(mod, nm):
        r = Result('after ' + (' '.join(prefix) or 'construction'))
        W = rt.Writer(mod)
        R = rules.Rule(r, W.eng)

        def go(st, g, hist):
            for op in FINAL:
                ex, d = W.op(st, len(hist), op)
                ng, sts = judge(W, R, r, g, hist, op, ex, d)
                if len(hist) < depth and op in PREFIX and ng is not None:
                    for s in sts:
                        go(s, ng, hist + [d])
        sts, g, hist = [W.st], (False, ()), []
        for op in prefix:
            nx = []
            for s in sts:
                ex, d = W.op(s, len(hist), op)
                g2, ss = judge(W, R, Result('x'), g, hist, op, ex, d)
                nx += ss
            if g2 is None:
                return r
            sts, g, hist = nx, g2, hist + [d]
        for s in sts:
            go(s, g, hist)
        r.inst('history')
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def line(ops):
    """one long history: every call of it accepted, then every operation judged at the end"""
    def task(mod, nm):
        r = Result('%d calls' % len(ops))
        W = rt.Writer(mod)
        R = rules.Rule(r, W.eng)
        sts, g, hist = [W.st], (False, ()), []
        for op in ops:
            nx = []
            for s in sts:
                ex, d = W.op(s, len(hist), op, 0 if op in ('key', 'barr', 'bmap') else None)
                g2, ss = judge(W, R, r, g, hist, op, ex, d)
                nx += ss
            if g2 is None:
                raise Broken('history')
            sts, g, hist = nx, g2, hist + [d]
        for s in sts:
            for op in FINAL:
                ex, d = W.op(s, len(hist), op)
                judge(W, R, r, g, hist, op, ex, d)
        r.inst('history')
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def prefixes(k):
    out = [((), (False, ()))]
    res = []
    for i in range(k):
        res += [p for p, _ in out] if i == k else []
        nx = []
        for p, g in out:
            for op in PREFIX:
                g2 = rt.Grammar.step(g, op)
                if g2 is not None:
                    nx.append((p + (op,), g2))
        out = nx
    return [p for p, _ in out]


def run(ctx):
    mod = ctx.compile('zera_rt.cpp', heap=True)
    top = 5 if ctx.tier == 'quick' else 6
    k = 3
    tasks = [explore((), k - 1)] + [explore(p, top) for p in prefixes(k)]
    N = 40
    L = [['barr'] * N, ['bmap', 'key'] * N, ['barr', 'bmap', 'key'] * (N // 2), ['barr'] + ['null'] * N, ['bmap'] + ['key', 'null'] * (N // 2),
         ['barr'] * N + ['earr'] * N, ['bmap', 'key'] * 20 + ['null'] + ['emap'] * 19, ['barr'] + ['barr', 'earr'] * 20, ['barr', 'bmap', 'key'] * 10 + ['i64'] + ['emap', 'earr'] * 9 + ['emap'],
         ['bmap'] + ['key', 'barr', 'null', 'earr'] * 8, ['barr', 'bmap', 'emap'] + ['bmap', 'key', 'null', 'emap'] * 6]
    tasks += [line(x) for x in L]
    ctx.analyse_list(mod, tasks)
    ctx.need('history', len(tasks))
    ctx.need('misuse', 1000)
    ctx.need('limit', 100)
    ctx.need('wellformed', 100)
    return finish(ctx, 'Abstract execution of every writer call in every state reached by the valid call histories of up to %d calls (and %d longer ones), arguments symbolic.' % (top, len(L)),
                  ['a misplaced call throws SerializationError', 'arguments beyond the documented limits throw SerializationError', 'no correct call within the limits is refused'])
