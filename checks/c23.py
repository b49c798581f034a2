"""JSON reader against an arbitrary parsed document: yyjson's calls are answered as its documentation says."""
from core import *
from absint import FV, c_ge, c_eq, c_ne, c_and
import c03
import ev
import mp
import rt
import rules

JSON = ['-I' + VERIF + '/standin_json']
DE = '_ZTIN9zerialize20DeserializationErrorE'
KINDS = ['null', 'bool', 'uint', 'sint', 'real', 'str', 'arr', 'obj']
IS = {'null': (0, 0), 'bool': (1, 1), 'uint': (2, 2), 'sint': (3, 3), 'int': (2, 3), 'real': (4, 4), 'num': (2, 4), 'str': (5, 5), 'arr': (6, 6), 'obj': (7, 7), 'ctn': (6, 7)}
PRED = {'isNull': 'null', 'isBool': 'bool', 'isInt': 'int', 'isUInt': 'uint', 'isFloat': 'real', 'isString': 'str', 'isMap': 'obj', 'isArray': 'arr'}
M = 1 << 64


class E23(c03.E3):
    PEELEXIT = True


def kind(h):
    return ev.sym('kind', h, hi=7)


def child(eng, st, h, p, n):
    return ev.sym('member', h, ev.content(eng, st, p, n), ev.norm(st, n), hi=(1 << 47))


def element(h, i):
    return ev.sym('element', h, i, lo=1, hi=(1 << 47))


def when(eng, st, c, yes, no):
    """the answer depends on a condition: one partition each way; yes/no: state -> value"""
    out = []
    for s in eng.assume(st.copy(), c):
        out.append(('ret', s, yes(s), None))
    for s in eng.assume(st, absint.c_not(c)):
        out.append(('ret', s, no(s), None))
    return out


def inkind(h, name):
    lo, hi = IS[name]
    k = kind(h)
    return c_eq(k - lo) if lo == hi else c_and(c_ge(k - lo), c_ge((-k) + hi))


def hook(eng, F, st, ins, callee, args):
    if callee.startswith('sink_'):
        st.event((callee,) + tuple(args) + (ins,))
        return [('ret', st, None, None)]
    if not callee.startswith('yyjson_'):
        return None
    f = callee[7:]
    a = [ev.norm(st, x) for x in args]
    h = a[0]
    zero = lambda s: ZERO
    if f.startswith('is_') and f[3:] in IS:
        return [('ret', st, inkind(h, f[3:]), None)]
    if f == 'get_bool':
        return when(eng, st, c_and(inkind(h, 'bool'), c_ge(ev.sym('bool', h, hi=1) - 1)), lambda s: c_ge(ONE - 1), lambda s: c_ge(ZERO - 1))
    if f in ('is_true', 'is_false'):
        b = ev.sym('bool', h, hi=1)
        return when(eng, st, c_and(inkind(h, 'bool'), c_ge(b - 1) if f == 'is_true' else c_ge(-b)), lambda s: c_ge(ONE - 1), lambda s: c_ge(ZERO - 1))
    if f in ('get_uint', 'get_sint'):
        return when(eng, st, inkind(h, 'int'), lambda s: ev.sym('payload', h), zero)
    if f == 'get_real':
        return when(eng, st, inkind(h, 'real'), lambda s: FV('f64', ('bits', ev.sym('f64', h))), lambda s: FV('f64', ('bits', ZERO)))
    if f == 'get_str':
        return when(eng, st, inkind(h, 'str'), lambda s: ev.in_pool(eng, s, 'str', h)[0], zero)
    if f == 'get_len':
        out = []
        for nm, v in (('str', lambda s: ev.in_pool(eng, s, 'str', h)[1]), ('ctn', lambda s: ev.sym('count', h, hi=1 << 56))):
            for s in eng.assume(st.copy(), inkind(h, nm)):
                out.append(('ret', s, v(s), None))
        for s in eng.assume(st, c_ge((-kind(h)) + 4)):
            out.append(('ret', s, ZERO, None))
        return out
    if f in ('arr_size', 'obj_size'):
        return when(eng, st, inkind(h, f[:3]), lambda s: ev.sym('count', h, hi=1 << 56), zero)
    if f == 'arr_get':
        return when(eng, st, c_and(inkind(h, 'arr'), c_ge(ev.sym('count', h, hi=1 << 56) - a[1] - 1)), lambda s: element(h, a[1]), zero)
    if f == 'obj_getn':
        return when(eng, st, inkind(h, 'obj'), lambda s: child(eng, s, h, a[1], a[2]), zero)
    if f == 'obj_iter_init':
        eng.store(st, a[1], ZERO, 'i64', ins)
        eng.store(st, a[1] + 8, ev.sym('count', h, hi=1 << 56), 'i64', ins)
        eng.store(st, a[1] + 16, h, 'i64', ins)
        eng.store(st, a[1] + 24, h, 'i64', ins)
        return when(eng, st, inkind(h, 'obj'), lambda s: c_ge(ONE - 1), lambda s: c_ge(ZERO - 1))
    if f == 'obj_iter_next':
        rp = eng.split_ptr(st, a[0])
        rd = lambda o: ev.norm(st, eng.as_lin(st, eng.read(st, rp[0].name, rp[1] + o, 'i64')))
        i, n, o = rd(0), rd(8), rd(24)
        out = []
        for s in eng.assume(st.copy(), c_ge(n - i - 1)):
            eng.store(s, a[0], i + 1, 'i64', ins)
            k = ev.sym('keynode', o, s.facts.norm(i), lo=1, hi=(1 << 47))
            s.facts.add_eq(kind(k) - 5)
            out.append(('ret', s, k, None))
        for s in eng.assume(st, c_ge(i - n)):
            out.append(('ret', s, ZERO, None))
        return out
    if f == 'read':
        k = sum(1 for x in st.events() if isinstance(x, tuple) and x[0] == 'parse')
        d = ev.sym('doc', Lin(k), hi=1 << 46)
        st.event(('parse', d, a[0], a[1], ins))
        return [('ret', st, d, None)]
    if f == 'doc_get_root':
        return when(eng, st, c_ge(h - 1), lambda s: root(h), zero)
    if f == 'doc_free':
        st.event(('free', h, ins))
        return [('ret', st, None, None)]
    raise absint.Give('yyjson function ' + callee)


def root(d):
    return ev.sym('root', d, lo=1, hi=(1 << 47))


def expected(eng, st, name, k, h):
    """[(state, required?, value)]: value None means the call has to fail"""
    acc = name[4:]
    if acc in PRED:
        lo, hi = IS[PRED[acc]]
        return [(st, ONE if lo <= k <= hi else ZERO)]
    if acc == 'asBool':
        return [(st, ev.sym('bool', h, hi=1) if k == 1 else None)]
    if acc.startswith('asInt') or acc.startswith('asUInt'):
        if k not in (2, 3) or acc[2] == 'U' and k == 3:
            return [(st, None)]
        v = ev.sym('payload', h) - (M if k == 3 else 0)
        w = int(acc.lstrip('asUInt'))
        lo, hi = (0, (1 << w) - 1) if acc[2] == 'U' else (-(1 << w - 1), (1 << w - 1) - 1)
        c = c_and(c_ge(v - lo), c_ge((-v) + hi))
        return [(s, v) for s in eng.assume(st.copy(), c)] + [(s, None) for s in eng.assume(st, absint.c_not(c))]
    if acc in ('asDouble', 'asFloat'):
        return [(st, FV('f64', ('bits', ev.sym('f64', h))) if k == 4 else None)]
    if acc in ('asString', 'asStringView'):
        return [(st, ev.in_pool(eng, st, 'str', h) if k == 5 else None)]
    if acc == 'arraySize':
        return [(st, ev.sym('count', h, hi=1 << 56) if k == 6 else None)]
    if acc == 'elem':
        if k != 6:
            return [(st, None)]
        i = eng.syms[2]
        c = c_ge(ev.sym('count', h, hi=1 << 56) - i - 1)
        return [(s, element(h, s.facts.norm(i))) for s in eng.assume(st.copy(), c)] + [(s, None) for s in eng.assume(st, absint.c_not(c))]
    if acc in ('get', 'has'):
        m = child(eng, st, h, eng.ptr('in'), st.facts.norm(eng.syms['in']))
        if k != 7:
            return [(st, ZERO if acc == 'has' else None)]
        out = []
        for s in eng.assume(st.copy(), c_ge(m - 1)):
            out.append((s, ONE if acc == 'has' else m))
        for s in eng.assume(st, c_eq(m)):
            out.append((s, ZERO if acc == 'has' else None))
        return out
    raise Broken(acc)


def value_task(k, n=None):
    def task(mod, name):
        r = Result('%s on %s%s' % (name, KINDS[k], '' if n is None else ' of %d' % n))

        def prep(eng, st, args, syms):
            ev.ensure_pool(eng, st)
            h = args[0]
            for a in (args[0], args[1]):
                st.facts.add_ge(a - 1)
                st.facts.add_ge((-a) + (1 << 47))
            st.facts.add_eq(kind(h) - k)
            if k == 3:
                st.facts.add_ge(ev.sym('payload', h) - (1 << 63))
            if n is not None:
                st.facts.add_eq(ev.sym('count', h, hi=1 << 56) - n)
        eng = run_entry(mod, name, {'call': hook}, prep, cls=E23)
        r.take(eng, bounds=False)
        h = eng.syms[0]
        R = rules.Rule(r, eng)
        what = '%s on a JSON %s' % (name[4:], KINDS[k])
        for e in eng.exits:
            if e.kind == 'throw' and e.val != DE:
                if not ev.resource(e):
                    R.never(e.st, 'error', what, '%s raises %s' % (what, e.val), e.ins)
                continue
            if e.kind not in ('ret', 'throw'):
                continue
            if name == 'drv_keys':
                keys(r, R, eng, e, h, k, n, what)
                continue
            for s, want in expected(eng, e.st.copy(), name, k, h):
                if e.kind == 'throw':
                    if want is not None:
                        R.never(s, 'value', what + ' fails', what + ' raises an error', e.ins)
                    else:
                        r.inst('error')
                    continue
                got = mp.sinks(s)[0]
                if want is None:
                    R.never(s, 'error', what + ' accepted', what + ' succeeds', got[-1])
                    continue
                if isinstance(want, tuple):
                    text(R, eng, s, got, want, what)
                    continue
                if name == 'drv_asFloat':
                    v = got[1]
                    ok = isinstance(v, FV) and v.key[0] == 'fptrunc' and v.key[-1] == want
                    if ok:
                        r.inst('value')
                    else:
                        r.unk('%s: result of asFloat' % r.name)
                    continue
                if name.startswith('drv_asInt'):
                    for z, v in eng.signed(s, eng.as_lin(s, got[1]), 64):
                        R.equal(z, v + M, want + M, 'value', what, what + ' returns another number', got[-1])
                    continue
                R.equal(s, got[1], want, 'value', what, what + ' returns another value', got[-1])
        return r
    return task


def text(R, eng, s, got, want, what):
    R.equal(s, got[2], want[1], 'value', what + ' length', what + ' has another length', got[-1])
    a, b = ev.content(eng, s, got[1], want[1]), ev.content(eng, s, *want)
    if a is None and b is None:
        return
    z = s.copy()
    z.facts.add_ge(z.facts.norm(want[1]) - ev.jay() - 1)
    if a == 'dead':
        R.never(z, 'value', what + ' dead', what + ' refers to released memory', got[-1])
    elif not isinstance(a, Lin) or not isinstance(b, Lin):
        R.r.unk('%s: content of %s' % (R.r.name, what))
    else:
        R.equal(z, a, b, 'value', what + ' content', what + ' has other contents', got[-1])


def keys(r, R, eng, e, h, k, n, what):
    if e.kind == 'throw':
        if k == 7:
            R.never(e.st, 'keys', what, 'listing the keys of an object fails', e.ins)
        else:
            r.inst('error')
        return
    if k != 7:
        R.never(e.st, 'error', what + ' accepted', what + ' succeeds', e.ins)
        return
    got = mp.sinks(e.st)
    if len(got) != n:
        R.never(e.st, 'keys', 'number of keys', '%d keys are listed for %d members' % (len(got), n), e.ins)
        return
    for i, g in enumerate(got):
        node = ev.sym('keynode', ev.norm(e.st, h), Lin(i), lo=1, hi=(1 << 47))
        text(R, eng, e.st.copy(), g, ev.in_pool(eng, e.st, 'str', node), 'key listing')
        r.inst('keys')


FINAL = {'drv_own_back': 0, 'drv_own_assign': 0}


def own_task(mod, name):
    r = Result(name)

    def prep(eng, st, args, syms):
        ev.ensure_pool(eng, st)
    eng = run_entry(mod, name, {'call': hook, 'follow_cleanup': True}, prep, cls=E23)
    r.take(eng, bounds=False)
    R = rules.Rule(r, eng)
    for e in eng.exits:
        if e.kind not in ('ret', 'throw'):
            continue
        if e.kind == 'throw' and e.val != DE and not ev.resource(e):
            R.never(e.st, 'error', 'parse', 'a parse failure raises %s' % e.val, e.ins)
        evs = [x for x in e.st.events() if isinstance(x, tuple)]
        parses = [x for x in evs if x[0] == 'parse']
        for x in parses:
            R.equal(e.st, x[2], eng.ptr('in'), 'parse', 'text', 'another text is parsed', x[-1])
            R.equal(e.st, x[3], eng.syms['in'], 'parse', 'text length', 'another length of text is parsed', x[-1])
            for s in eng.assume(e.st.copy(), c_ge(x[1] - 1)):
                frees = [y for y in evs if y[0] == 'free' and s.facts.norm(y[1] - x[1]) == ZERO]
                if len(frees) != 1:
                    R.never(s, 'ownership', 'released %d times' % min(len(frees), 2), 'the parsed document is released %d times' % len(frees), e.ins or x[-1])
                else:
                    r.inst('ownership')
            for s in eng.assume(e.st.copy(), c_eq(x[1])):
                if e.kind == 'ret':
                    R.never(s, 'parse', 'failure accepted', 'text that does not parse is accepted', x[-1])
        for y in evs:
            if y[0] == 'free' and not any(e.st.facts.norm(y[1] - x[1]) == ZERO for x in parses):
                R.never(e.st, 'ownership', 'foreign', 'something else than the parsed document is released', y[-1])
        sk = [i for i, x in enumerate(evs) if x[0] == 'sink_u64']
        if e.kind == 'ret' and sk:
            d = parses[FINAL.get(name, 0)][1]
            R.equal(e.st, evs[sk[0]][1], root(d), 'ownership', 'value', 'the reader does not stand on the root of its document', evs[sk[0]][-1])
            if any(y[0] == 'free' and e.st.facts.norm(y[1] - d) == ZERO for y in evs[:sk[0]]):
                R.never(e.st, 'ownership', 'early', 'the document is released while a reader still stands on it', evs[sk[0]][-1])
        if e.kind == 'throw':
            for s in eng.assume(e.st.copy(), c_ge(parses[-1][1] - 1)) if parses else ():
                if not ev.resource(e):
                    R.never(s, 'parse', 'rejected', 'text that parses is rejected', e.ins)
            r.inst('error')
    return r


# ---- writer: the document built out of yyjson's nodes, compared with the calls
NEW = {'null': 0, 'bool': 1, 'uint': 1, 'sint': 1, 'real': 1, 'str': 1, 'strcpy': 1, 'strn': 2, 'strncpy': 2, 'arr': 0, 'obj': 0}


def whook(eng, F, st, ins, callee, args):
    if callee == '__cxa_atexit':
        return [('ret', st, ZERO, None)]
    if not callee.startswith('yyjson_mut_'):
        return hook(eng, F, st, ins, callee, args)
    f = callee[11:]
    a = [ev.norm(st, x) for x in args]
    if f == 'doc_new':
        st.event(('jdoc', ins))
        return [('ret', st, ev.sym('mutdoc', lo=1, hi=1 << 46), None)]
    if f == 'doc_free':
        st.event(('jfree', a[0], ins))
        return [('ret', st, None, None)]
    if f == 'doc_set_root':
        st.event(('jroot', a[1], ins))
        return [('ret', st, None, None)]
    if f in NEW:
        k = sum(1 for x in st.events() if isinstance(x, tuple) and x[0] == 'jnew')
        h = ev.sym('jnode', Lin(k), lo=1, hi=1 << 46)
        p = ()
        if f in ('strn', 'strncpy'):
            p = (a[1], a[2], ev.content(eng, st, a[1], a[2]), ev.literal(eng, st, a[1], a[2]))
        elif NEW[f]:
            p = (a[1],)
        st.event(('jnew', h, f, p, ins))
        return [('ret', st, h, None)]
    if f in ('arr_add_val', 'arr_append', 'obj_add'):
        st.event(('jadd',) + tuple(a) + (ins,))
        return [('ret', st, c_ge(ONE - 1), None)]
    if f == 'write':
        evs = [x for x in st.events() if isinstance(x, tuple) and x[0] == 'jwrite']
        rn = 'jsontext%d' % len(evs)
        n = ev.sym('textlen', Lin(len(evs)), hi=1 << 62)
        eng.new_region(st, rn, 'heap', n, ('unk', rn))
        if a[2] != ZERO:
            eng.store(st, a[2], n, 'i64', ins)
        st.event(('jwrite', a[0], eng.ptr(rn), n, ins))
        return [('ret', st, eng.ptr(rn), None)]
    raise absint.Give('yyjson function ' + callee)


def built(st, h):
    """(kind, payload, children) of a node"""
    kids = []
    me = None
    for x in st.events():
        if isinstance(x, tuple) and x[0] == 'jnew' and x[1] == h:
            me = x
        elif isinstance(x, tuple) and x[0] == 'jadd' and x[1] == h:
            kids.append(x[2:-1])
    return me, kids


def compare(R, eng, st, h, d, what):
    """node h holds the value described by d = (kind, ...)"""
    me, kids = built(st, h)
    if me is None:
        R.never(st, 'write', 'node', 'something else than a new value is stored (%s)' % what)
        return
    _, _, f, p, ins = me
    k = d[0]
    wrong = lambda t: R.never(st, 'write', k + ' ' + t, 'a %s is written as %s (%s)' % (k, t, what), ins)
    plain = {'null': 'null', 'bool': 'bool', 'i64': 'sint', 'u64': 'uint', 'f64': 'real', 'arr': 'arr', 'map': 'obj'}
    if k in plain:
        if f != plain[k]:
            return wrong('JSON ' + f)
        if k in ('bool', 'i64', 'u64', 'f64'):
            if k == 'bool':
                R.equal(st, p[0], d[1], 'write', k, 'another boolean is written (%s)' % what, ins)
            elif k == 'f64':
                R.equal(st, p[0], d[1], 'write', k, 'another number is written (%s)' % what, ins)
            else:
                R.equal(st, p[0], d[1], 'write', k, 'another number is written (%s)' % what, ins)
        elif k == 'arr':
            if len(kids) != len(d[1]):
                return wrong('array of %d elements instead of %d' % (len(kids), len(d[1])))
            for x, y in zip(kids, d[1]):
                compare(R, eng, st, x[0], y, what)
        elif k == 'map':
            if 2 * len(kids) != len(d[1]):
                return wrong('object of %d members' % len(kids))
            for x, (dk, dv) in zip(kids, zip(d[1][0::2], d[1][1::2])):
                if len(x) != 2:
                    return wrong('array')
                wtext(R, eng, st, x[0], dk, what)
                compare(R, eng, st, x[1], dv, what)
        return
    if k == 'str':
        return wtext(R, eng, st, h, d, what)
    if k == 'blob':
        import base64
        b = bytes([d[3]]) * d[2].c
        if f != 'arr' or len(kids) != 3:
            return wrong('JSON %s of %d' % (f, len(kids)))
        for x, want in zip(kids, (b'~b', base64.b64encode(b), b'base64')):
            me = built(st, x[0])[0]
            if me is None or me[2] not in ('strncpy', 'strn') or me[3][3] is None:
                R.r.unk('%s: blob element' % R.r.name)
            elif me[2] == 'strn' and not static(eng, st, me[3][0]):
                R.never(st, 'write', 'copy', 'the bytes of a blob\'s text are not copied (%s)' % what, me[-1])
            elif me[3][3] != want:
                R.never(st, 'write', 'blob', 'a blob is written as another text: %r for %r (%s)' % (me[3][3], want, what), me[-1])
            else:
                R.r.inst('blob')


def static(eng, st, p):
    rp = eng.split_ptr(st, p) if isinstance(p, Lin) else None
    return rp is not None and rp[0].kind in ('const', 'global')


def wtext(R, eng, st, h, d, what):
    me = built(st, h)[0]
    if me is None or me[2] not in ('str', 'strn', 'strcpy', 'strncpy'):
        R.never(st, 'write', 'text', 'a %s is not written as a string (%s)' % (d[0], what), me and me[-1])
        return
    _, _, f, p, ins = me
    if f in ('str', 'strn'):
        R.never(st, 'write', 'copy', 'the bytes of a %s are not copied: they have to outlive the call (%s)' % (d[0], what), ins)
        return
    if f == 'strcpy':
        z = st.copy()       # a NUL ends the copy
        z.facts.add_eq(d[2] - 2)
        if not z.facts.dead:
            z.facts.add_eq(eng.as_lin(z, eng.read(z, d[1], ZERO, 'i8')))
            R.never(z, 'write', 'nul', 'a %s is copied up to its first NUL only (%s)' % (d[0], what), ins)
        return
    R.equal(st, p[1], d[2], 'write', d[0] + ' length', 'a %s is written with another length (%s)' % (d[0], what), ins)
    z = st.copy()
    z.facts.add_ge(d[2] - ev.jay() - 1)
    if z.facts.dead or z.facts.infeasible():
        return
    want = ev.content(eng, st, eng.ptr(d[1]), d[2])
    if p[2] is None:
        return
    if not isinstance(p[2], Lin) or not isinstance(want, Lin):
        R.r.unk('%s: content of a %s' % (R.r.name, d[0]))
        return
    R.equal(z, p[2], want, 'write', d[0] + ' content', 'a %s is written with other contents (%s)' % (d[0], what), ins)


def start(mod):
    W = rt.Writer.__new__(rt.Writer)
    rt.Session.__init__(W, mod, hooks={'call': whook})
    W.eng.PEELW = 64
    for f in sorted(f for f in mod.funcs if f.startswith('_GLOBAL__sub_I_')):
        ex = [e for e in W.call(W.st, f, []) if e.kind == 'ret']
        if len(ex) != 1:
            raise Broken('initialisation of globals')
        W.st = ex[0].st
    W.r = W.obj('writer', Lin(W.const('drv_sizeof')))
    W.bsize = Lin(W.const('drv_sizeofb'))
    ex = [e for e in W.call(W.st, 'drv_init', [W.r]) if e.kind == 'ret']
    if len(ex) != 1:
        raise Broken('writer construction')
    W.st = ex[0].st
    return W


def history(ops):
    """the operations, in step with the protocol automaton"""
    def task(mod, nm):
        r = Result('calls ' + ' '.join(o if isinstance(o, str) else o[0] for o in ops))
        W = start(mod)
        eng = W.eng
        R = rules.Rule(r, eng)
        what = r.name
        sts = [(W.st, [], (False, ()))]
        for i, op in enumerate(list(ops) + ['finish']):
            name, hint = op if isinstance(op, tuple) else (op, None)
            nxt = []
            for st, h, g in sts:
                g2 = g if name == 'finish' else rt.Grammar.step(g, name)
                ex, d = W.op(st, i, name, hint)
                if name == 'blob' and isinstance(hint, tuple):
                    d = d + (hint[1],)
                for e in ex:
                    if e.kind == 'throw' and rt.resource(e):
                        continue
                    if g2 is None:
                        if e.kind == 'ret':
                            R.never(e.st, 'misuse', name + ' accepted', '%s is accepted where the protocol has no place for it (%s)' % (name, what), e.ins)
                        elif e.kind == 'throw':
                            r.inst('misuse')
                        continue
                    if e.kind == 'throw' and name in ('barr', 'bmap') and rt.Grammar.step(g, 'null') is None:
                        r.inst('misuse')        # a container where no value has a place: refused at once
                        continue
                    if e.kind == 'throw':
                        if not (name == 'finish' and g2[1]):
                            R.never(e.st, 'write', name + ' refused', '%s is refused in a correct sequence (%s)' % (name, what), e.ins)
                        continue
                    if e.kind == 'ret':
                        nxt.append((e.st, h + [d], g2))
            sts = nxt
        for st, h, g in sts:
            if g[1]:
                continue        # finished with open containers: the reader's business
            evs = [x for x in st.events() if isinstance(x, tuple)]
            wr = [i for i, x in enumerate(evs) if x[0] == 'jwrite']
            fr = [i for i, x in enumerate(evs) if x[0] == 'jfree']
            roots = [x for x in evs if x[0] == 'jroot']
            if len(wr) != 1 or not roots:
                R.never(st, 'finish', 'text', 'finishing does not produce the document\'s text (%s)' % what)
                continue
            if any(i < wr[0] for i in fr) or len(fr) > 1:
                R.never(st, 'finish', 'release', 'the document is released before its text is made, or twice (%s)' % what, evs[fr[0]][-1])
            late = [x for x in evs[wr[0]:] if x[0] in ('jnew', 'jadd', 'jroot')]
            if late:
                R.never(st, 'finish', 'late', 'values are added after the text was made (%s)' % what, late[0][-1])
            sk = mp.sinks(st)[-1]
            R.equal(st, sk[1], evs[wr[0]][2], 'finish', 'result', 'the result is not the document\'s text (%s)' % what, sk[-1])
            R.equal(st, sk[2], evs[wr[0]][3], 'finish', 'result length', 'the result has another length than the text (%s)' % what, sk[-1])
            compare(R, eng, st, roots[-1][1], rt.parse(h), what)
        r.take(eng, bounds=False)
        return r
    return ('drv_init', task)


def histories(deep):
    V = ['null', 'bool', 'i64', 'u64', 'f64', 'str']
    out = [(), ('barr', 'earr'), ('bmap', 'emap')] + [(v,) for v in V] + [('barr', v, 'earr') for v in V] + [('bmap', 'key', v, 'emap') for v in V]
    out += [(('blob', (n, 0xc5)),) for n in (0, 1, 2, 3, 7)] + [('barr', ('blob', (2, 9)), 'earr'), ('bmap', 'key', ('blob', (2, 250)), 'emap')]
    out += [('barr', 'i64', 'str', 'bool', 'earr'), ('bmap', 'key', 'i64', 'key', 'str', 'emap'), ('barr', 'barr', 'earr', 'u64', 'earr'), ('barr', 'bmap', 'key', 'f64', 'emap', 'null', 'earr'),
            ('bmap', 'key', 'barr', 'i64', 'earr', 'key', 'bool', 'emap'), ('bmap', 'key', 'bmap', 'key', 'str', 'emap', 'emap')]
    # misuse
    ops = V[:1] + ['str', 'barr', 'bmap', 'earr', 'emap', 'key']
    pre = [(), ('i64',), ('barr',), ('bmap',), ('bmap', 'key'), ('barr', 'i64'), ('barr', 'bmap'), ('bmap', 'key', 'barr'), ('barr', 'earr'), ('bmap', 'key', 'i64')]
    for p in pre:
        for o in ops:
            out.append(p + (o,))
    if deep:
        out += [('barr',) + (v, w) + ('earr',) for v in V for w in V] + [('bmap', 'key', v, 'key', w, 'emap') for v in V for w in V[3:]]
    return [history(h) for h in dict.fromkeys(out)]


# ---- blobs: an array of exactly three strings, the first "~b", the last "base64"
TEXTS = [(b'', b''), (b'AQID', b'\1\2\3'), (b'+/8=', b'\xfb\xff'), (b'AA==', b'\0'), (b'AQIDBAUG', b'\1\2\3\4\5\6')]


def blobs(deep):
    full = {'kind': 6, 'count': 3, 'kinds': (5, 5, 5), 'lens': (2, 4, 6), 'bytes': (b'~b', b'AQID', b'base64')}
    out = [('a tagged array', full, b'\1\2\3')]
    for t, raw in TEXTS[:] if deep else TEXTS[:4]:
        out.append(('a tagged array with text %r' % t, dict(full, lens=(2, len(t), 6), bytes=(b'~b', t, b'base64')), raw))
    for k in range(8):
        if k != 6:
            out.append(('a JSON ' + KINDS[k], {'kind': k}, None))
    out.append(('an array of fewer than three', dict(full, count=('<', 3)), None))
    out.append(('an array of more than three', dict(full, count=('>', 3)), None))
    for i in range(3):
        for k in range(8):
            if k != 5:
                out.append(('a tagged array whose element %d is a %s' % (i, KINDS[k]), dict(full, kinds=tuple(k if j == i else 5 for j in range(3))), None))
    for i in (0, 2):
        for c in '<>':
            out.append(('element %d of a length %s the tag\'s' % (i, c), dict(full, lens=tuple((c, n) if j == i else n for j, n in enumerate(full['lens']))), None))
        for j in range(full['lens'][i]):
            out.append(('element %d differing from the tag at %d' % (i, j), dict(full, differ=(i, j)), None))
    return [blob_task(*x) for x in out]


def blob_task(label, case, want):
    def constrain(st, v, c):
        if isinstance(c, int):
            st.facts.add_eq(v - c)
        elif c[0] == '<':
            st.facts.add_ge((-v) + (c[1] - 1))
        else:
            st.facts.add_ge(v - (c[1] + 1))

    def task(mod, _):
        r = Result('isBlob and asBlob on ' + label)
        for name in ('drv_isBlob', 'drv_asBlob'):
            W = rt.Session(mod, hooks={'call': whook})
            eng, st = W.eng, W.st
            eng.EXPAND = 8
            for f in sorted(f for f in mod.funcs if f.startswith('_GLOBAL__sub_I_')):
                ex = [e for e in W.call(st, f, []) if e.kind == 'ret']
                if len(ex) != 1:
                    raise Broken('initialisation of globals')
                st = ex[0].st.copy()
            h, dh = W.sym('h', 1, 1 << 47), W.sym('d', 1, 1 << 47)
            ev.ensure_pool(eng, st)
            st.facts.add_ge(st.mem[ev.POOL].size - 4096)
            constrain(st, kind(h), case['kind'])
            if 'count' in case:
                constrain(st, ev.sym('count', h, hi=1 << 56), case['count'])
                for i in range(3):
                    e = element(h, Lin(i))
                    constrain(st, kind(e), case['kinds'][i])
                    constrain(st, ev.sym('off', 'str', e, hi=1 << 62), 100 * i)
                    constrain(st, ev.sym('len', 'str', e, hi=1 << 62), case['lens'][i])
                    for j, c in enumerate(case['bytes'][i]):
                        b = eng.as_lin(st, eng.read(st, ev.POOL, Lin(100 * i + j), 'i8'))
                        if case.get('differ') != (i, j):
                            st.facts.add_eq(b - c)
                states = [st]
                if 'differ' in case:
                    i, j = case['differ']
                    b = eng.as_lin(st, eng.read(st, ev.POOL, Lin(100 * i + j), 'i8'))
                    states = eng.assume(st, c_ne(b - case['bytes'][i][j]))
            else:
                states = [st]
            R = rules.Rule(r, eng)
            for s0 in states:
                for e in W.call(s0, name, [h, dh]):
                    if e.kind == 'throw' and ev.resource(e) or e.kind not in ('ret', 'throw'):
                        continue
                    if e.kind == 'throw':
                        if want is not None or name == 'drv_isBlob':
                            R.never(e.st, 'recognise', name + ' fails', '%s fails on %s' % (name[4:], label), e.ins)
                        elif e.val != DE:
                            R.never(e.st, 'recognise', name + ' error', '%s on %s raises %s' % (name[4:], label, e.val), e.ins)
                        else:
                            r.inst('recognise')
                        continue
                    got = mp.sinks(e.st)[-1]
                    if name == 'drv_isBlob':
                        R.equal(e.st, got[1], ONE if want is not None else ZERO, 'recognise', 'isBlob', '%s is%s taken for a blob' % (label, ' not' if want is not None else ''), got[-1])
                    elif want is None:
                        R.never(e.st, 'recognise', 'asBlob', '%s is read as a blob' % label, got[-1])
                    else:
                        if R.equal(e.st, got[2], Lin(len(want)), 'recognise', 'blob length', 'the blob of %s has another length' % label, got[-1]):
                            pass
                        rp = eng.split_ptr(e.st, e.st.facts.norm(got[1])) if want else None
                        for j, c in enumerate(want):
                            v = eng.read(e.st, rp[0].name, rp[1] + j, 'i8') if rp else None
                            if not isinstance(v, Lin):
                                r.unk('%s: blob content' % r.name)
                                break
                            R.equal(e.st, v, Lin(c), 'recognise', 'blob content', 'the blob of %s has other contents' % label, got[-1])
            r.take(eng, bounds=False)
        return r
    return ('drv_isBlob', task)


def run(ctx):
    mod = ctx.compile('json_read.cpp', extra=JSON)
    tasks = []
    for nm in sorted(n for n in mod.funcs if n.startswith('drv_')):
        if nm.startswith('drv_own'):
            tasks.append((nm, own_task))
            continue
        for k in range(len(KINDS)):
            if nm == 'drv_keys' and k == 7:
                tasks += [(nm, value_task(k, n)) for n in range(4 if ctx.tier == 'quick' else 9)]
            else:
                tasks.append((nm, value_task(k)))
    ctx.analyse_list(mod, tasks)
    ctx.analyse_list(ctx.compile('json_rt.cpp', extra=JSON, heap=True, init=True), histories(ctx.tier != 'quick'))
    ctx.analyse_list(ctx.compile('json_blob.cpp', extra=JSON, heap=True, init=True), blobs(ctx.tier != 'quick'))
    ctx.need('write', 40)
    ctx.need('recognise', 60)
    ctx.need('misuse', 20)
    ctx.need('blob', 6)
    ctx.need('value', 60)
    ctx.need('error', 80)
    ctx.need('ownership', 6)
    ctx.need('keys', 3)
    ctx.assumptions = ['yyjson, which is not installed here, behaves as its documentation says (declared in standin_json/yyjson.h, answered in checks/c23.py)',
                       'allocation does not fail']
    return finish(ctx, 'Abstract interpretation of every JSON reader accessor on an arbitrary value of every JSON kind, numbers, lengths, contents, keys and indices arbitrary; '
                  'the object listing for the listed member counts; construction, moving and destruction of readers with every outcome of parsing.',
                  ['value: the result is what the document holds', 'error: wrong kinds, numbers out of range, missing keys and indices past the end raise DeserializationError and nothing else',
                   'keys: every key once, in order', 'parse: exactly the given text is parsed, failures are errors', 'ownership: the parsed document is released exactly once, after its last use'])
