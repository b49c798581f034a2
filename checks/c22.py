"""FlexBuffers adapter: documents through the writer, the library and the reader; reader against the reference it wraps."""
from core import *
from absint import FV, c_ge, c_eq, c_ne
import itertools
import rt
import rules

RULE = 'flex'
SCALARS = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob')
READS = ('bool', 'i64', 'u64', 'f64', 'str', 'blob', 'size', 'keys')
READS_OK = {'bool': 'bool', 'i64': 'i64', 'u64': 'u64', 'f64': 'f64', 'str': 'str', 'blob': 'blob', 'arr': 'size', 'map': 'keys'}


def skip(e):
    return e.kind in ('unknown', 'stop') or (e.kind == 'throw' and rt.resource(e))


def rejected(e):
    return e.kind == 'throw' and 'DeserializationError' in str(e.val)


class FlexWriter(rt.Writer):
    """keys of given length, without NUL (FlexBuffers keys are NUL-terminated)"""
    def op(self, st, i, name, hint=None):
        if name != 'key':
            return rt.Writer.op(self, st, i, name, hint)
        s = st.copy()
        nm = 'key%d' % i
        self.eng.new_region(s, nm, 'input', Lin(hint), ('bytes', nm), ro=True)
        for j in range(hint):
            s.facts.add_ge(self.eng.as_lin(s, self.eng.read(s, nm, Lin(j), 'i8'), 8) - 1)
        return self.call(s, 'drv_key', [self.r, self.eng.ptr(nm), Lin(hint)]), ('key', nm, Lin(hint))


def order(W, st, a, b):
    """[(state, sign)]: byte order of two document keys"""
    eng, out, left = W.eng, [], [st]
    n, m = a[2].c, b[2].c
    for j in range(min(n, m)):
        nxt = []
        for s in left:
            u, v = (eng.as_lin(s, eng.read(s, k[1], Lin(j), 'i8'), 8) for k in (a, b))
            out += [(x, -1) for x in eng.assume(s.copy(), c_ge(v - u - 1))]
            out += [(x, 1) for x in eng.assume(s.copy(), c_ge(u - v - 1))]
            nxt += eng.assume(s, c_eq(u - v))
        left = nxt
    return [(s, g) for s, g in out + [(s, (n > m) - (n < m)) for s in left] if not s.facts.dead and not s.facts.infeasible()]


def ordered(W, st, keys):
    """[(state, keys in byte order)] over the partitions in which all keys differ"""
    out = [(st, [])]
    for k in keys:
        nxt = []
        for s, done in out:
            cur = [(s, 0, len(done))]
            while cur:
                s, lo, hi = cur.pop()
                if lo == hi:
                    nxt.append((s, done[:lo] + [k] + done[lo:]))
                    continue
                for z, g in order(W, s, k, done[lo]):
                    if g < 0:
                        nxt.append((z, done[:lo] + [k] + done[lo:]))
                    elif g > 0:
                        cur.append((z, lo + 1, hi))
        out = nxt
    return out


def wanted(W, st, keys, q, nq):
    """[(state, index of the key equal to the wanted bytes, or None)]"""
    eng, out, left = W.eng, [], [st]
    for i, k in enumerate(keys):
        nxt = []
        for s in left:
            nxt += eng.assume(s.copy(), c_ne(nq - k[2]))
            cur = eng.assume(s, c_eq(nq - k[2]))
            for j in range(k[2].c):
                nc = []
                for z in cur:
                    u, v = (eng.as_lin(z, eng.read(z, r, Lin(j), 'i8'), 8) for r in (k[1], 'wanted'))
                    nxt += eng.assume(z.copy(), c_ne(u - v))
                    nc += eng.assume(z, c_eq(u - v))
                cur = nc
            out += [(z, i) for z in cur]
        left = nxt
    return [(s, i) for s, i in out + [(s, None) for s in left] if not s.facts.dead and not s.facts.infeasible()]


class FlexReading(rt.Reading):
    def value(self, st, X, p, doc):
        k = doc[0]
        self.rejections(st, X, p, doc)
        if k != 'map':
            return rt.Reading.value(self, st, X, p, doc)
        rt.Reading.value(self, st, X, p, ('mapkind',))
        es = list(zip(doc[1][0::2], doc[1][1::2]))
        for s, ks in ordered(self.W, st.copy(), [k for k, _ in es]):
            self.R.r.inst('map')
            n0 = len(self.last_all(s))
            for e in self.rets(s, X + '_keys', [p], 'keys', 'listing the keys fails'):
                got = self.last_all(e.st)[n0:]
                if len(got) != len(es):
                    self.bad(e, 'keys', 'the number of keys reads back wrong')
                    continue
                for g, key in zip(got, ks):
                    self.bytes(e.st, g, key, 'key')
            for key, c in es:
                self.child(s, X + '_get', [p, self.eng.ptr(key[1]), key[2]], c)
            self.lookup(s, X, p, [k for k, _ in es])

    def lookup(self, st, X, p, keys):
        W, R, eng = self.W, self.R, self.eng
        s = st.copy()
        q, nq = W.input(s, 'wanted')
        for e in W.call(s, X + '_has', [p, q, nq]):
            if skip(e):
                continue
            for z, i in wanted(W, e.st.copy(), keys, q, nq):
                if e.kind != 'ret':
                    R.never(z, RULE, 'membership', 'asking for membership fails (document: %s)' % self.what, e.ins)
                    continue
                f = self.last(e)[0]
                R.equal(z, f[1], ZERO if i is None else ONE, RULE, 'membership',
                        'a key that is %s the map is reported otherwise (document: %s)' % ('not in' if i is None else 'in', self.what), f[-1])
        s = s.copy()
        self.n += 1
        o = W.obj_in(s, 'value%d' % self.n, W.vsize)
        for e in W.call(s, X + '_get', [p, q, nq, o]):
            if skip(e):
                continue
            for z, i in wanted(W, e.st.copy(), keys, q, nq):
                R.r.inst('lookup')
                if i is None and not rejected(e):
                    R.never(z, RULE, 'lookup absent', 'looking up a key that is not in the map %s (document: %s)' % ('succeeds' if e.kind == 'ret' else 'ends in another error', self.what), e.ins)
                elif i is not None and e.kind != 'ret':
                    R.never(z, RULE, 'lookup present', 'looking up a key of the map fails (document: %s)' % self.what, e.ins)
                else:
                    R.r.inst(RULE)

    def rejections(self, st, X, p, doc):
        """everything that is not for this kind of value ends in a deserialization error"""
        k = doc[0]
        for acc in READS:
            if acc != READS_OK.get(k):
                self.reject(self.W.call(st, '%s_%s' % (X, acc), [p]), '%s of %s' % (acc, k), 'reading a %s as %s' % (k, acc))
        s = st.copy()
        self.n += 1
        o = self.W.obj_in(s, 'value%d' % self.n, self.W.vsize)
        i = self.W.sym('index')
        if k == 'arr':
            s.facts.add_ge(i - len(doc[1]))
        self.reject(self.W.call(s, X + '_at', [p, i, o]), 'index of %s' % k, 'an index %s' % ('past the end' if k == 'arr' else 'into a ' + k))
        if k != 'map':
            q, nq = self.W.input(s, 'wanted')
            self.reject(self.W.call(s, X + '_get', [p, q, nq, o]), 'key of %s' % k, 'a key lookup in a ' + k)
            for e in self.rets(s, X + '_has', [p, q, nq], 'membership', 'asking a %s for membership fails' % k):
                f = self.last(e)[0]
                self.R.equal(e.st, f[1], ZERO, RULE, 'membership', 'a %s claims to have a member (document: %s)' % (k, self.what), f[-1])

    def reject(self, exits, key, text):
        for e in exits:
            if skip(e):
                continue
            if rejected(e):
                self.R.r.inst('rejected')
            else:
                self.R.never(e.st, RULE, key, '%s %s (document: %s)' % (text, 'succeeds' if e.kind == 'ret' else 'ends in another error', self.what), e.ins)


def kinds(d):
    return {rt.KINDS.index('map' if d[0] == 'mapkind' else d[0]): True}


def case(ops):
    def task(mod, nm):
        what = ' '.join(o if isinstance(o, str) else '%s/%s' % o for o in ops) or 'nothing'
        r = Result(what)
        W = FlexWriter(mod)
        W.eng.EXPAND = 4
        W.eng.PEELW = 200
        R = rules.Rule(r, W.eng)

        def failed(e, h):
            if not skip(e):
                R.never(e.st, RULE, 'writer', 'a correct sequence of calls fails (calls: %s)' % rt.title(h), e.ins)
        for e, h in rt.run_history(W, list(ops) + ['finish'], on_throw=failed):
            b = rt.buffer_of(e)
            if b is None:
                continue
            r.inst('document')
            FlexReading(W, R, RULE, what, kinds=kinds).document(e, b[1], b[2], rt.parse(h))
        r.take(W.eng, bounds=False)
        return r
    return ('drv_finish', task)


def arr(*xs):
    return (('barr', len(xs)),) + tuple(c for x in xs for c in (x if isinstance(x, tuple) else (x,))) + ('earr',)


def obj(*kv):
    return (('bmap', len(kv)),) + tuple(c for n, x in kv for c in (('key', n),) + (x if isinstance(x, tuple) else (x,))) + ('emap',)


def documents(deep):
    out = [()] + [(k,) for k in SCALARS] + [arr(), obj(), arr(arr()), arr(obj()), obj((1, arr())), obj((1, obj()))]
    out += [arr(k) for k in SCALARS] + [obj((1, k)) for k in SCALARS]
    out += [arr(x, y) for x in ('null', 'i64', 'str') for y in ('bool', 'f64')]
    out += [arr('u64', 'u64'), arr('bool', 'bool', 'bool'), arr('f64', 'f64'), arr('null', arr('bool', arr('u64'), 'null'), obj((0, 'bool')))]
    out += [obj((a, 'bool'), (b, 'f64')) for a in (0, 1, 2) for b in (0, 1, 2) if (a, b) != (0, 0)]
    out += [obj((1, 'null'), (1, 'bool'), (1, 'f64')), obj((0, 'null'), (1, 'bool'), (2, 'f64')), obj((1, obj((1, 'f64'))), (1, 'null')), obj((1, arr('null', 'bool')))]
    if deep:
        out += [arr(x, y) for x in SCALARS for y in SCALARS if arr(x, y) not in out]
        out += [obj((1, x), (1, y)) for x in ('null', 'u64', 'str') for y in ('blob', 'i64')]
        out += [obj((2, 'null'), (1, 'bool'), (2, 'f64')), obj((3, 'null'), (3, 'bool')), obj((1, 'null'), (1, 'bool'), (1, 'f64'), (1, 'null'))]
    return out


# ---------------------------------------------------------------- the reader against the reference it wraps
def types():
    return [t for t in range(0, 37) if t not in (27, 28, 29, 30, 31, 32, 33, 34, 35)]


NULL, INT, UINT, FLOAT, KEY, STR, IINT, IUINT, IFLOAT, MAP, VEC, BLOB, BOOL = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 25, 26
KIND = {NULL: 'null', BOOL: 'bool', INT: 'i64', IINT: 'i64', UINT: 'u64', IUINT: 'u64', FLOAT: 'f64', IFLOAT: 'f64', STR: 'str', BLOB: 'blob', MAP: 'map'}
for _t in list(range(10, 25)) + [36]:
    KIND[_t] = 'arr'


def against(t, pw, bw, ints=False):
    def task(mod, nm):
        what = 'reference of type %d, widths %d and %d' % (t, pw, bw)
        r = Result(what)
        S = rt.Session(mod)
        eng = S.eng
        R = rules.Rule(r, eng)
        st = S.st.copy()
        p, size = S.input(st, 'buf')
        o = S.sym('pos', 0, 1 << 62)
        st.facts.add_ge(size - o - 1)
        ref = S.obj_in(st, 'reference', Lin(S.const('drv_ref_sizeof')))
        d = S.obj_in(st, 'reader', Lin(S.const('drv_sizeofd')))
        vs = Lin(S.const('drv_sizeofv'))
        v = S.obj_in(st, 'value', vs)
        for f, a in (('drv_ref_make', [ref, p + o, Lin(pw), Lin(bw), Lin(t)]), ('drv_ref_wrap', [d, ref]), ('drv_ref_value', [v, ref])):
            ex = [e for e in S.call(st, f, a) if e.kind == 'ret']
            if len(ex) != 1:
                raise Broken(f)
            st = ex[0].st
        kind = KIND.get(t)
        for X, obj in (('drv_d', d), ('drv_v', v)):
            if ints:
                narrow(S, R, st, X, obj, kind, ref, what)
                for acc in ('i64', 'u64'):
                    if acc == kind:
                        same(S, R, st, X, obj, acc, ref, what, [])
                continue
            for i, nm_ in enumerate(rt.KINDS):
                for e in S.call(st, '%s_is%d' % (X, i), [obj]):
                    if e.kind == 'ret':
                        R.equal(e.st, e.val, ONE if nm_ == kind else ZERO, RULE, 'kind', 'the kind is not that of the underlying value (%s)' % what, e.ins)
            for acc in READS[:-1]:
                if acc == READS_OK.get(kind):
                    same(S, R, st, X, obj, acc, ref, what, [])
                    continue
                for e in S.call(st, '%s_%s' % (X, acc), [obj]):
                    if skip(e):
                        continue
                    if rejected(e):
                        r.inst('rejected')
                    else:
                        R.never(e.st, RULE, 'kind %s' % acc, 'reading as %s succeeds (%s)' % (acc, what), e.ins)
            narrow(S, R, st, X, obj, kind, ref, what)
            if kind == 'arr':
                elements(S, R, st, X, obj, ref, what, vs)
        r.take(eng, bounds=False)
        return r
    return ('drv_ref_make', task)


def last(e):
    return [x for x in e.st.events() if isinstance(x, tuple) and str(x[0]).startswith('sink_')][-1]


def same(S, R, st, X, obj, acc, ref, what, none):
    for e in S.call(st, '%s_%s' % (X, acc), [obj]):
        if skip(e):
            continue
        if e.kind != 'ret':
            R.never(e.st, RULE, acc, 'reading as %s fails (%s)' % (acc, what), e.ins)
            continue
        a = last(e)
        for g in S.call(e.st, 'drv_ref_' + acc, [ref]):
            if g.kind != 'ret':
                continue
            b = last(g)
            R.r.inst('compared')
            for x, y in list(zip(a[1:-1], b[1:-1])):
                R.equal(g.st, x, y, RULE, acc, 'a %s differs from what the underlying value holds (%s)' % (acc, what), a[-1])


def narrow(S, R, st, X, obj, kind, ref, what):
    """8- to 32-bit accessors: the stored integer, or an error if it does not fit or is none"""
    for sg, w in ((s, w) for s in 'iu' for w in (8, 16, 32)):
        for e in S.call(st, '%s_%s%d' % (X, sg, w), [obj]):
            if skip(e):
                continue
            if e.kind == 'throw' and not rejected(e):
                R.never(e.st, RULE, 'error', 'reading as %s%d ends in another error (%s)' % (sg, w, what), e.ins)
                continue
            if kind != sg + '64':
                if e.kind == 'throw':
                    R.r.inst('rejected')
                else:
                    R.never(e.st, RULE, 'kind', 'reading as %s%d succeeds (%s)' % (sg, w, what), e.ins)
                continue
            a = last(e) if e.kind == 'ret' else None
            for g in S.call(e.st, 'drv_ref_%s64' % sg, [ref]):
                if g.kind != 'ret':
                    continue
                v = S.eng.as_lin(g.st, last(g)[1])
                R.r.inst('narrow')
                hi = (1 << (w - 1 if sg == 'i' else w)) - 1
                fits = [(v, [c_ge((-v) + hi)])]
                if sg == 'i':
                    fits.append((v - (1 << 64), [c_ge(v - (1 << 64) + hi + 1)]))
                if a is not None:
                    R.equal(g.st, a[1], v, RULE, 'integer', 'the integer read as %s%d is not the stored one (%s)' % (sg, w, what), a[-1])
                else:
                    for _, pre in fits:
                        R.never(g.st, RULE, 'integer refused', 'an integer that fits is refused as %s%d (%s)' % (sg, w, what), e.ins, pre=pre)


def elements(S, R, st, X, obj, ref, what, vs):
    s = st.copy()
    i = S.sym('index')
    v = S.obj_in(s, 'element', vs)
    er = S.obj_in(s, 'elementref', Lin(S.const('drv_ref_sizeof')))
    for z in S.call(s, 'drv_ref_size', [ref]):
        if z.kind != 'ret':
            continue
        n = z.st.facts.norm(S.eng.as_lin(z.st, last(z)[1]))
        for inside, c in ((True, c_ge(n - i - 1)), (False, c_ge(i - n))):
            for y in S.eng.assume(z.st.copy(), c):
                for e in S.call(y, X + '_at', [obj, i, v]):
                    if skip(e):
                        continue
                    if not inside:
                        if rejected(e):
                            R.r.inst('rejected')
                        else:
                            R.never(e.st, RULE, 'index', 'an index past the end is accepted (%s)' % what, e.ins)
                        continue
                    if e.kind != 'ret':
                        R.never(e.st, RULE, 'index', 'an index below the size is refused (%s)' % what, e.ins)
                        continue
                    for g in S.call(e.st, 'drv_ref_at', [ref, i, er]):
                        if g.kind != 'ret':
                            continue
                        R.r.inst('element')
                        # the wrapped reference is the whole of the value object
                        for o, ty, k in ((0, 'p', 'position'), (8, 'i8', 'width'), (9, 'i8', 'width'), (12, 'i32', 'type')):
                            x, y2 = (S.eng.read(g.st, rn, Lin(o), ty) for rn in ('element', 'elementref'))
                            R.equal(g.st, x, y2, RULE, 'element ' + k, 'the element has another %s than the underlying one (%s)' % (k, what), e.ins)


def run(ctx):
    deep = ctx.tier != 'quick'
    mod = ctx.compile('flex_rt.cpp', heap=True)
    D = documents(deep)
    ctx.analyse_list(mod, [case(d) for d in D])
    mod = ctx.compile('flex_ref.cpp', heap=True)
    W = [(a, b) for a in (1, 2, 4, 8) for b in (1, 2, 4, 8)] if deep else [(1, 1), (2, 4), (4, 2), (8, 8)]
    ctx.analyse_list(mod, [against(t, a, b) for t in types() for a, b in W])
    ctx.need('document', len(D))
    ctx.need('map', 20)
    ctx.need('lookup', 200)
    ctx.need('compared', 100)
    ctx.need('element', 20)
    ctx.need('narrow', 60)
    ctx.need('rejected', 1000)
    return finish(ctx, 'Abstract execution of the Flex writer, the FlexBuffers library and the Flex reader on %d document shapes (numbers, lengths and contents symbolic; keys of up to three arbitrary bytes; arbitrary wanted key and index), '
                  'and of the reader over an arbitrary reference of every FlexBuffers type beside the library\'s own accessors.' % len(D),
                  ['every value reads back with its kind, value and bytes; keys complete and in order; lookup and membership by whole keys', 'every other accessor, index past the end and missing key ends in a deserialization error',
                   'over any reference: kinds, values, sizes and elements are those of the reference; narrow integers exact or refused'])
