"""Writer and reader histories: entry points applied one after another to abstract objects in abstract memory."""
from core import *
from absint import FV, UNDEF, c_ge, c_eq, c_ne, c_and, c_or, c_not, Exit
import models
import rules

SERR = '_ZTIN9zerialize18SerializationErrorE'


class Session:
    """abstract execution of entry points one after another on shared abstract memory"""
    EXACT = False       # containers announce their real size
    DIGITS = False      # lengths and counts given by their bytes (for big-endian formats)

    def __init__(self, mod, hooks=None, cls=Engine):
        self.eng = cls(mod, hooks or {'call': sink_hook})
        self.eng.deadline = time.time() + BUDGET
        self.eng.QUOT = True
        self.eng.PEELEXIT = True
        self.eng.PEEL = 80
        self.eng.UNROLL = 12            # documents have known nesting: recursion is followed, not summarised
        self.eng.UNROLL_WORK = 10 ** 9
        self.eng.exits = []
        self.st = State()
        self.mod = mod

    def obj_in(self, st, name, size):
        self.eng.new_region(st, name, 'heap', size, ('uninit',))
        return self.eng.ptr(name)

    def obj(self, name, size):
        self.eng.new_region(self.st, name, 'heap', size, ('uninit',))
        return self.eng.ptr(name)

    def call(self, st, fn, args):
        if fn not in self.mod.funcs:
            raise Broken('entry point %s is missing' % fn)
        self.eng.exits = []
        st = st.copy()
        st.env = {}
        self.eng.entry = fn
        self.eng.run_function(fn, args, st)
        return self.eng.exits

    def const(self, fn):
        e = self.call(self.st, fn, [])
        return e[0].val.c

    def sym(self, name, lo=0, hi=(1 << 64) - 1):
        return atom(T.get('sym', (name,), lo, hi))

    def word(self, name, n=8):
        """an arbitrary n-byte number, given by its bytes"""
        v = ZERO
        for i in range(n):
            v = v + self.sym('%s.%d' % (name, i), 0, 255).scale(1 << (8 * i))
        return v

    def input(self, st, name, hi=1 << 62):
        """a read-only byte region of symbolic length"""
        n = T.get('sym', ('n:' + name,), 0, hi)
        if self.DIGITS:
            st.facts.set_eq(n, self.word(name, 4) + self.sym(name + '.hi', 0, hi >> 32).scale(1 << 32))
            self.eng.new_region(st, name, 'input', st.facts.norm(atom(n)), ('bytes', name), ro=True)
            return self.eng.ptr(name), st.facts.norm(atom(n))
        self.eng.new_region(st, name, 'input', atom(n), ('bytes', name), ro=True)
        return self.eng.ptr(name), atom(n)


class Writer(Session):
    def __init__(self, mod, **kw):
        Session.__init__(self, mod, **kw)
        self.r = self.obj('writer', Lin(self.const('drv_sizeof')))
        self.bsize = Lin(self.const('drv_sizeofb'))
        self.dsize, self.vsize = Lin(self.const('drv_sizeofd')), Lin(self.const('drv_sizeofv'))
        ex = self.call(self.st, 'drv_init', [self.r])
        if len(ex) != 1 or ex[0].kind != 'ret':
            raise Broken('writer construction')
        self.st = ex[0].st

    def op(self, st, i, name, hint=None):
        """apply call `name` (number i of the history) with symbolic arguments; -> (exits, argument description)"""
        s = st.copy()
        t = '%d' % i
        if name in ('null', 'earr', 'emap', 'finish'):
            a, d = [], (name,)
        elif name == 'bool':
            v = c_ge(self.sym('b' + t, 0, 1) - 1)
            a, d = [v], (name, v)
        elif name in ('i64', 'u64'):
            v = self.word('v' + t)
            a, d = [v], (name, v)
        elif name == 'f64':
            v = FV('f64', ('bits', self.word('d' + t)))
            a, d = [v], (name, v)
        elif name in ('str', 'blob', 'key') and isinstance(hint, tuple):     # (count, byte): known contents
            n = Lin(hint[0])
            self.eng.new_region(s, name + t, 'input', n, ('bytes', name + t), ro=True)
            self.eng.write_range(s, name + t, ZERO, n, ('fill', Lin(hint[1])))
            a, d = [self.eng.ptr(name + t), n], (name, name + t, n)
        elif name in ('str', 'blob', 'key'):
            p, n = self.input(s, name + t)
            if hint is not None:
                s.facts.add_eq(n - hint) if isinstance(hint, int) else [s.facts.add_ge(c) for c in hint(n)]
            a, d = [p, n], (name, name + t, n)
        elif name in ('garr', 'gmap'):      # many elements have been written
            c = self.sym('many' + t, 1, 1 << 28)
            if name == 'garr':
                n = c.scale(16)
                self.eng.new_region(s, name + t, 'input', n, ('bytes', name + t), ro=True)
                p = self.eng.ptr(name + t)
            else:
                p, n = self.input(s, name + t, 1 << 31)
                s.facts.add_ge(n - c.scale(20))
            a, d = [p, n, c], (name, name + t, n, c)
        elif name in ('barr', 'bmap'):
            v = Lin(hint) if self.EXACT and hint is not None else self.word('hint' + t) if self.DIGITS else self.sym('hint' + t, 0, 1 << 16)
            a, d = [v], (name, v)
        elif name == 'threshold':
            v = self.sym('thr' + t, 0, (1 << 32) - 1)
            if hint is not None:
                [s.facts.add_ge(c) for c in hint(v)]
            a, d = [v], (name, v)
        else:
            raise Broken(name)
        if name == 'finish':
            a = [self.obj_in(s, 'result', self.bsize)]
        return self.call(s, 'drv_' + name, [self.r] + a), d


# ---------------------------------------------------------------- well-formedness of a call history
class Grammar:
    """the writer protocol of the property, as a pushdown automaton; state = (root written, stack)"""
    VALUES = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob')

    @staticmethod
    def step(g, op):
        """-> new state, or None if the call must be refused"""
        root, stk = g
        top = stk[-1] if stk else None

        def value():
            if top is None:
                return None if root else (True, stk)
            if top == 'm':
                return None
            if top == 'mk':
                return (root, stk[:-1] + ('m',))
            return g
        if op in Grammar.VALUES:
            return value()
        if op in ('barr', 'bmap'):
            return (root, stk + ('a' if op == 'barr' else 'm',))
        if op == 'earr':
            if top != 'a':
                return None
            return Grammar.close((root, stk[:-1]))
        if op == 'emap':
            if top != 'm':
                return None
            return Grammar.close((root, stk[:-1]))
        if op == 'key':
            return (root, stk[:-1] + ('mk',)) if top == 'm' else None
        if op == 'finish':
            return None if stk else ('done', ())
        raise Broken(op)

    @staticmethod
    def close(g):
        return Grammar.step(g, 'null')


# ---------------------------------------------------------------- documents
def parse(hist):
    """history of (op, args) -> document tree"""
    stack = [['root', []]]
    for d in hist:
        op = d[0]
        if op in ('barr', 'bmap'):
            stack.append([op, []])
        elif op in ('earr', 'emap'):
            k, items = stack.pop()
            stack[-1][1].append((('arr' if k == 'barr' else 'map'), items))
        elif op in ('finish', 'threshold'):
            pass
        else:
            stack[-1][1].append(d)
    assert len(stack) == 1, hist
    return stack[0][1][0] if stack[0][1] else ('null',)


def grown(doc):
    """(number of elements written in bulk, the elements after them)"""
    if doc[1] and doc[1][0][0] in ('garr', 'gmap'):
        return doc[1][0][3], doc[1][1:]
    return ZERO, doc[1]


def title(hist):
    return ' '.join(d[0] for d in hist)




# ---------------------------------------------------------------- running documents
def run_history(W, ops, hints=None, on_throw=None):
    """apply the calls to the abstract writer; yields (exit of finish, history) per partition"""
    sts = [(W.st, [])]
    for i, op in enumerate(ops):
        nxt = []
        for st, h in sts:
            name, hint = op if isinstance(op, tuple) else (op, None)
            ex, d = W.op(st, i, name, hint)
            for e in ex:
                if e.kind == 'ret':
                    if i == len(ops) - 1:
                        yield e, h + [d]
                    else:
                        nxt.append((e.st, h + [d]))
                elif on_throw is not None:
                    on_throw(e, h + [d])
        sts = nxt


def oversize(W, st, hist):
    """the lengths written so far come near a documented 4 GiB limit"""
    tot = Lin(1 << 20)
    for d in hist:
        if d[0] in ('str', 'blob', 'key'):
            tot = tot + d[2] + 64
        if d[0] in ('barr', 'bmap'):
            tot = tot + 64
        if d[0] in ('garr', 'gmap'):
            tot = tot + d[2]
    return c_ge(tot - (1 << 32))


KINDS = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob', 'arr', 'map')


class Reading:
    """reads a finished buffer back through the reader's own code and compares with the document"""
    def __init__(self, W, R, prop, what, kinds=None):
        self.W, self.R, self.eng, self.prop, self.what = W, R, W.eng, prop, what
        self.kinds = kinds or (lambda d: {KINDS.index(d[0]): True})
        self.n = 0

    def bad(self, e, key, text):
        if e.kind in ('unknown', 'stop') or (e.kind == 'throw' and resource(e)):
            return
        self.R.never(e.st, self.prop, key, '%s (document: %s)' % (text, self.what), e.ins)

    def rets(self, st, fn, args, key, text):
        for e in self.W.call(st, fn, args):
            if e.kind == 'ret':
                yield e
            else:
                self.bad(e, key, text)

    def document(self, e, p, n, doc):
        st = e.st.copy()
        d = self.W.obj_in(st, 'reader', self.W.dsize)
        for x in self.rets(st, 'drv_open', [d, p, n], 'open', 'the reader refuses the finished buffer'):
            self.value(x.st, 'drv_d', d, doc)

    def last(self, e, m=1):
        return [x for x in e.st.events() if isinstance(x, tuple) and str(x[0]).startswith('sink_')][-m:]

    def eq(self, st, got, want, key, text, ins):
        return self.R.equal(st, got, want, self.prop, key, '%s (document: %s)' % (text, self.what), ins)

    def value(self, st, X, p, doc):
        k = doc[0]
        exp = self.kinds(doc)
        for i, nm in enumerate(KINDS):
            if exp.get(i, False) is None:
                continue
            for e in self.rets(st, '%s_is%d' % (X, i), [p], 'kind ' + k, 'asking a %s for its kind fails' % k):
                self.R.equal(e.st, e.val, ONE if exp.get(i) else ZERO, self.prop, 'kind ' + k,
                             'a %s %s as %s (document: %s)' % (k, 'does not read back' if exp.get(i) else 'reads back', nm, self.what), e.ins)
        if k in ('bool', 'i64', 'u64', 'f64'):
            for e in self.rets(st, '%s_%s' % (X, k), [p], 'read ' + k, 'reading a %s back fails' % k):
                s = self.last(e)[0]
                self.eq(e.st, s[1], doc[1], 'value ' + k, 'a %s reads back as another value' % k, s[-1])
        elif k in ('str', 'blob'):
            for e in self.rets(st, '%s_%s' % (X, k), [p], 'read ' + k, 'reading a %s back fails' % k):
                self.bytes(e.st, self.last(e)[0], doc, k)
        elif k == 'arr':
            many, items = grown(doc)
            for e in self.rets(st, X + '_size', [p], 'array size', 'asking for the array size fails'):
                s = self.last(e)[0]
                self.eq(e.st, s[1], many + len(items), 'array size', 'the array size reads back wrong', s[-1])
            for i, c in enumerate(items):
                self.child(st, X + '_at', [p, many + i], c)
        elif k == 'map':
            es = list(zip(doc[1][0::2], doc[1][1::2]))
            n0 = len(self.last_all(st))
            for e in self.rets(st, X + '_keys', [p], 'keys', 'listing the keys fails'):
                got = self.last_all(e.st)[n0:]
                if len(got) != len(es):
                    self.bad(e, 'keys', 'the number of keys reads back wrong')
                    continue
                for g, (key, _) in zip(got, es):
                    self.bytes(e.st, g, key, 'key')
            for j, (key, c) in enumerate(es):
                # a repeated key reads back the first entry; distinct keys are analysed
                s = st.copy()
                q = self.eng.ptr(key[1])
                ss = [s]
                for other, _ in es[:j]:
                    ss = [x for y in ss for x in self.differ(y, other, key)]
                for x in ss:
                    self.child(x, X + '_get', [p, q, key[2]], c)

    def differ(self, st, a, b):
        eng = self.eng
        out = eng.assume(st.copy(), c_ne(a[2] - b[2]))
        for s in eng.assume(st.copy(), c_eq(a[2] - b[2])):
            x, y, n = (s.facts.norm(v) for v in (eng.ptr(a[1]), eng.ptr(b[1]), b[2]))
            if (y.t, y.c) < (x.t, x.c):
                x, y = y, x
            out += eng.assume(s, c_ne(models.memcmp_atom(s, (x, y, n))))
        return out

    def last_all(self, st):
        return [x for x in st.events() if isinstance(x, tuple) and x[0] == 'sink_view']

    def child(self, st, fn, args, doc):
        s = st.copy()
        self.n += 1
        o = self.W.obj_in(s, 'value%d' % self.n, self.W.vsize)
        for e in self.rets(s, fn, args + [o], 'child', 'reaching an element fails'):
            self.value(e.st, 'drv_v', o, doc)

    def bytes(self, st, sink, doc, k):
        eng = self.eng
        n = st.facts.norm(eng.as_lin(st, sink[2]))
        if not self.eq(st, n, doc[2], k + ' length', 'the length of a %s reads back wrong' % k, sink[-1]):
            return
        for s in eng.assume(st.copy(), c_ge(doc[2] - 1)):
            j = atom(T.get('sym', ('j',), 0, 1 << 62))
            s.facts.add_ge(doc[2] - j - 1)
            if s.facts.dead or s.facts.infeasible():
                continue
            rp = eng.split_ptr(s, s.facts.norm(sink[1]))
            if rp is None:
                self.R.never(s, self.prop, k + ' bytes', 'a %s reads back without bytes (document: %s)' % (k, self.what), sink[-1])
                continue
            if not s.mem[rp[0].name].alive:
                self.R.never(s, self.prop, k + ' lifetime', 'a %s reads back from released memory (document: %s)' % (k, self.what), sink[-1])
                continue
            got = eng.read(s, rp[0].name, s.facts.norm(rp[1] + j), 'i8')
            want = eng.read(s, doc[1], j, 'i8')
            self.eq(s, got, want, k + ' bytes', 'the bytes of a %s read back wrong' % k, sink[-1])


def buffer_of(e):
    v = [x for x in e.st.events() if isinstance(x, tuple) and x[0] == 'sink_view']
    return v[-1] if v else None


def resource(e):
    return any(x in str(e.val) for x in ('bad_alloc', 'length_error', 'bad_array_new'))
