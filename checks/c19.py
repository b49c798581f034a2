"""Readers that own their bytes, driven through copies, moves, assignments and destruction."""
from core import *
from absint import c_ge
import c22
import mpw
import rt
import rules

# objects a, b, c; each history ends with the objects to read back: (object, document)
HIST = {
    'own': ['own a 0', 'read a 0', 'drop a'],
    'take': ['take a 0', 'read a 0', 'drop a'],
    'copy, source destroyed': ['own a 0', 'copy b a', 'drop a', 'read b 0', 'drop b'],
    'copy, copy destroyed': ['own a 0', 'copy b a', 'drop b', 'read a 0', 'drop a'],
    'copy of a taking reader': ['take a 0', 'copy b a', 'drop a', 'read b 0', 'drop b'],
    'move, source destroyed': ['own a 0', 'move b a', 'drop a', 'read b 0', 'drop b'],
    'copy assigned over another document': ['own a 0', 'own b 1', 'cassign b a', 'drop a', 'read b 0', 'drop b'],
    'copy assigned, source reassigned': ['own a 0', 'own b 1', 'own c 1', 'cassign b a', 'cassign a c', 'read b 0', 'read a 1', 'drop a', 'drop c', 'drop b'],
    'move assigned over another document': ['own a 0', 'own b 1', 'massign b a', 'drop a', 'read b 0', 'drop b'],
    'move assigned, source reused': ['own a 0', 'own b 1', 'massign b a', 'cassign a b', 'drop b', 'read a 0', 'drop a'],
    'assigned to itself': ['own a 0', 'cassign a a', 'read a 0', 'drop a'],
    'copy of a copy': ['own a 0', 'copy b a', 'drop a', 'copy c b', 'drop b', 'read c 0', 'drop c'],
    'move of a copy': ['own a 0', 'copy b a', 'move c b', 'drop b', 'drop a', 'read c 0', 'drop c'],
    'copy of a moved reader': ['own a 0', 'move b a', 'copy c b', 'drop b', 'drop a', 'read c 0', 'drop c'],
    'copy of a view': ['view a 0', 'copy b a', 'drop a', 'read b 0', 'drop b'],
    'owning reader assigned from a view': ['own a 1', 'view b 0', 'cassign a b', 'drop b', 'read a 0', 'drop a'],
    'view assigned from an owning reader': ['view a 1', 'own b 0', 'cassign a b', 'drop b', 'read a 0', 'drop a'],
    'view move assigned from an owning reader': ['view a 1', 'own b 0', 'massign a b', 'drop b', 'read a 0', 'drop a'],
}
DOCS = {
    'string': ['str'], 'blob': ['blob'], 'number': ['u64'],
    'array': [('barr', 2), 'str', 'i64', 'earr'],
    'map': [('bmap', 1), ('key', lambda v: [(-v) + 65535]), 'str', 'emap'],
}
SHORT = lambda v: [(-v) + 31]


def skip(e):
    return e.kind in ('unknown', 'stop') or (e.kind == 'throw' and rt.resource(e))


def writer(proto, mod):
    if proto == 'flex':
        W = c22.FlexWriter(mod)
        W.eng.EXPAND = 4
        return W
    W = rt.Writer(mod, hooks={'call': mpw.append_hook(False)} if proto == 'msgpack' else None)
    W.DIGITS = W.EXACT = proto == 'msgpack'
    return W


def buffers(proto, mod, ops, deep):
    """the finished buffers of one document: (writer session, state, pointer, size, document)"""
    W = writer(proto, mod)
    if proto == 'flex':
        ops = [(o, SHORT) if o in ('str', 'blob') else ('key', 1) if o[0] == 'key' else o for o in ops]
    if proto == 'msgpack' and not deep:
        ops = [(o, SHORT) if o in ('str', 'blob') else ('key', SHORT) if o[0] == 'key' else o for o in ops]
    for e, h in rt.run_history(W, ops + ['finish']):
        b = rt.buffer_of(e)
        if b is not None:
            yield W, e.st, b[1], b[2], rt.parse(h)


class Run:
    def __init__(self, W, R, what, docs):
        self.W, self.R, self.what, self.docs = W, R, what, docs
        self.n = 0

    def step(self, st, objs, ops):
        if not ops:
            self.R.r.inst('history')
            return
        op, rest = ops[0].split(), ops[1:]
        W = self.W
        if op[0] == 'read':
            rd = rt.Reading(W, self.R, 'ownership', self.what, kinds=lambda d: {i: None for i in range(9)})
            rd.n = self.n
            rd.value(st, 'drv_d', objs[op[1]], self.docs[int(op[2])][2])
            self.n = rd.n
            self.R.r.inst('read')
            return self.step(st, objs, rest)
        st = st.copy()
        if op[0] in ('own', 'take', 'view', 'copy', 'move'):
            self.n += 1
            objs = dict(objs)
            objs[op[1]] = W.obj_in(st, 'object%d' % self.n, W.dsize)
        a = [objs[op[1]]]
        if op[0] in ('own', 'take', 'view'):
            a += list(self.docs[int(op[2])][:2])
        elif len(op) > 2:
            a.append(objs[op[2]])
        fn = {'view': 'drv_open', 'drop': 'drv_dropd'}.get(op[0], 'drv_' + op[0])
        for e in W.call(st, fn, a):
            if skip(e):
                continue
            if e.kind != 'ret':
                self.R.never(e.st, 'ownership', op[0], '%s fails (%s)' % (op[0], self.what), e.ins)
                continue
            if op[0] in ('copy', 'move', 'cassign', 'massign'):
                f = [x for x in e.st.events() if isinstance(x, tuple) and x[0] == 'sink_bool'][-1][1]
                if f in (False, ZERO) or isinstance(f, Lin) and f.is_const() and f.c == 0:
                    self.R.r.inst('not offered')      # the operation does not exist: nothing to check
                    continue
            self.step(e.st, objs, rest)


def case(proto, hist, doc, deep):
    def task(mod, nm):
        what = '%s, %s: %s' % (proto, doc, hist)
        r = Result(what)
        for W, st, p, n, d in buffers(proto, mod, DOCS[doc], deep):
            R = rules.Rule(r, W.eng)
            # the other document: a null
            s = st.copy()
            e = second(proto, W, s)
            if e is None:
                r.unk('%s: no second document' % what)
                continue
            st2, p2, n2 = e
            Run(W, R, what, [(p, n, d), (p2, n2, ('null',))]).step(st2, {}, HIST[hist])
        r.take(W.eng, bounds='lifetime')
        return r
    return ('drv_copy', task)


def second(proto, W, st):
    s = st.copy()
    r2 = W.obj_in(s, 'writer2', Lin(W.const('drv_sizeof')))
    for fn, a in (('drv_init', []), ('drv_null', []), ('drv_finish', [W.obj_in(s, 'result2', W.bsize)])):
        ex = [e for e in W.call(s, fn, [r2] + a) if e.kind == 'ret']
        if len(ex) != 1:
            return None
        s = ex[0].st
    b = rt.buffer_of(ex[0])
    return s, b[1], b[2]


def writers(proto, op):
    """a writer and what was made from it: both may be destroyed"""
    def task(mod, nm):
        r = Result('%s writer %s' % (proto, op))
        W = writer(proto, mod)
        W.DIGITS = W.EXACT = False
        R = rules.Rule(r, W.eng)
        s = W.st.copy()
        for e in [x for x in W.op(s, 0, 'str')[0] if x.kind == 'ret']:
            s = e.st.copy()
            o = W.obj_in(s, 'writer2', Lin(W.const('drv_sizeof')))
            if 'assign' in op:
                s = W.call(s, 'drv_init', [o])[0].st.copy()
            for c in W.call(s, 'drv_' + op, [o, W.r]):
                if skip(c) or c.kind != 'ret':
                    continue
                f = [x for x in c.st.events() if isinstance(x, tuple) and x[0] == 'sink_bool'][-1][1]
                offered = not (f is False or f == ZERO)
                r.inst('offered' if offered else 'not offered')
                if offered:
                    for x in W.call(c.st, 'drv_drop', [W.r]):
                        if x.kind == 'ret':
                            for y in W.call(x.st, 'drv_drop', [o]):
                                r.inst('both destroyed')
        r.take(W.eng, bounds='lifetime')
        return r
    return ('drv_wcopy', task)


def run(ctx):
    deep = ctx.tier != 'quick'
    for proto in ('zera', 'msgpack', 'flex'):
        mod = ctx.compile(proto + '_own.cpp', heap=True)
        ctx.analyse_list(mod, [case(proto, h, d, deep) for d in DOCS for h in HIST] + [writers(proto, w) for w in ('wcopy', 'wmove', 'wcassign', 'wmassign')])
    ctx.use_obligations()
    ctx.need('history', 150)
    ctx.need('read', 150)
    ctx.need('ownership', 500)
    ctx.need('both destroyed', 4)
    return finish(ctx, 'Abstract execution of %d histories of copies, moves, assignments and destruction on Zera, MsgPack and Flex readers over %d kinds of documents (contents symbolic), and of writer copies; every memory access checked against the lifetime of the object it touches, every value read back compared with the document.' % (len(HIST), len(DOCS)),
                  ['no access to a released object, no double or mismatched release', 'the surviving reader reads the whole document', 'views handed out lie in memory that is alive'])
