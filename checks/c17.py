"""Maps: lookup, membership and key listing against the entries written, for an arbitrary wanted key."""
from core import *
from absint import c_ge, c_eq, c_ne, c_not
import c21
import cb
import models
import mp
import mpw
import rt
import rules

RULE = 'lookup'


def same_key(W, st, a, pb, nb):
    """partitions of st: [(state, equal?)] for the byte strings of document key `a` and (pb, nb)"""
    eng = W.eng
    out = [(s, False) for s in eng.assume(st.copy(), c_ne(a[2] - nb))]
    for s in eng.assume(st.copy(), c_eq(a[2] - nb)):
        n = s.facts.norm(nb)
        if n.is_const() and n.c == 0:
            out.append((s, True))
            continue
        for z in eng.assume(s.copy(), c_eq(n)):
            out.append((z, True))
        for z in eng.assume(s, c_ge(n - 1)):
            x, y, m = (z.facts.norm(v) for v in (a[1] if isinstance(a[1], Lin) else eng.ptr(a[1]), pb, n))
            if (y.t, y.c) < (x.t, x.c):
                x, y = y, x
            v = models.memcmp_atom(z, (x, y, m))
            out += [(q, True) for q in eng.assume(z.copy(), c_eq(v))]
            out += [(q, False) for q in eng.assume(z, c_ne(v))]
    return [(s, e) for s, e in out if not s.facts.dead and not s.facts.infeasible()]


def position(W, st, keys, pb, nb):
    """[(state, index of the first equal key or None)]"""
    out, left = [], [st]
    for i, k in enumerate(keys):
        nxt = []
        for s in left:
            for q, eq in same_key(W, s, k, pb, nb):
                if eq:
                    out.append((q, i))
                else:
                    nxt.append(q)
        left = nxt
    return out + [(s, None) for s in left]


# ---- CBOR: documents laid out by hand (the writer belongs to jsoncons)
class E17(c21.E21):
    PUREREC = True
    PEELEXIT = True
    PEELW = 64


def cbor_case(name, head, keycls, n, tail, outer=b''):
    def task(mod, nm):
        r = Result('%s: %s' % (nm, name))
        keys, vals = [], []

        def prep(eng, st, args, syms):
            o = c21.lay(eng, st, ZERO, [head])
            for i in range(n):
                k = o
                o = c21.lay(eng, st, o, [keycls])
                h, ln = cb.argument(eng, st, keycls, k)
                keys.append((None, eng.ptr('in') + k + h, ln))
                vals.append(o)
                o = c21.lay(eng, st, o, ['uint16'])
            o = c21.lay(eng, st, o, [tail] if tail else [])
            st.facts.add_ge(syms['in'] - o)
        keys.clear()
        vals.clear()

        def fresh(*a):
            keys.clear()
            vals.clear()
            return prep(*a)
        eng = run_entry(mod, nm, {'call': sink_hook}, prep=fresh, cls=E17)
        r.take(eng, bounds=False)
        R = rules.Rule(r, eng)
        if nm == 'drv_root_keys':
            for e in eng.exits:
                if e.kind != 'ret':
                    if e.kind == 'throw':
                        R.never(e.st, RULE, 'cbor keys', 'listing the keys fails (%s)' % name, e.ins)
                    continue
                vs = [x for x in e.st.events() if isinstance(x, tuple) and x[0] == 'sink_view']
                if len(vs) != n:
                    R.never(e.st, RULE, 'cbor keys', '%d of %d keys are listed (%s)' % (len(vs), n, name), e.ins)
                    continue
                for v, k in zip(vs, keys):
                    R.equal(e.st, v[2], k[2], RULE, 'cbor keys', 'a listed key has another length (%s)' % name, v[-1])
                    rp = eng.split_ptr(e.st, v[1])
                    want = eng.split_ptr(e.st, k[1])[1]
                    for s in eng.assume(e.st.copy(), c_ge(k[2] - 1)):
                        if rp is None or rp[0].name != 'in':
                            r.unk('%s: origin of a listed key' % r.name)
                        else:
                            R.equal(s, rp[1], want, RULE, 'cbor keys', 'a listed key is not the stored one (%s)' % name, v[-1])
                    r.inst('listed')
            return r
        W = type('W', (), {'eng': eng})
        q, nq = eng.ptr('key'), eng.syms['key']
        for e in eng.exits:
            if e.kind not in ('ret', 'throw'):
                continue
            for z, i in position(W, e.st.copy(), keys, q, nq):
                if nm == 'drv_root_contains':
                    if e.kind == 'throw':
                        R.never(z, RULE, 'cbor membership', 'asking for membership fails (%s)' % name, e.ins)
                    else:
                        R.equal(z, mp.sinks(z)[0][1], i is not None, RULE, 'cbor membership',
                                'a key that is %s the map is reported otherwise (%s)' % ('not in' if i is None else 'in', name), e.ins)
                    r.inst('membership')
                elif i is None:
                    if e.kind == 'ret':
                        R.never(z, RULE, 'cbor absent', 'looking up a key that is not in the map succeeds (%s)' % name, e.ins)
                    r.inst('lookup')
                elif e.kind == 'throw':
                    R.never(z, RULE, 'cbor present', 'looking up a key of the map fails (%s)' % name, e.ins)
                else:
                    R.equal(z, mp.sinks(z)[0][1], cb.argument(eng, z, 'uint16', z.facts.norm(vals[i]))[1], RULE, 'cbor value', 'lookup returns another entry\'s value (%s)' % name, e.ins)
                    r.inst('value')
        return r
    return task


def cbor_cases(deep=False):
    out = []
    for head, tail, t in ((lambda n: bytes([0xa0 + n]), None, 'map'), (lambda n: bytes([0xb9, 0, n]), None, 'map16'), (lambda n: b'\xbf', b'\xff', 'indefinite map')):
        for n in (0, 1, 2, 3) if deep else (0, 1, 2):
            for kc in ('text', 'text8', 'text16', 'text32') if n else ('text',):
                if kc != 'text' and not deep and (n > 1 or t == 'map16') or kc > 'text2' and (n > 1 or not deep):
                    continue
                for d in ('drv_root_contains', 'drv_root_get', 'drv_root_keys'):
                    out.append((d, cbor_case('%s of %d, keys %s' % (t, n, kc), head(n), kc, n, tail)))
    return out


def case(proto, n, kinds, nested, large=False):
    def task(mod, nm):
        what = '%s map of %d entries (%s)%s%s' % (proto, n, ' '.join(kinds), ' in an array' if nested else '', ' with large values' if large is True else ' with a value of %d bytes' % large if large else '')
        r = Result(what)
        W = rt.Writer(mod, hooks={'call': mpw.append_hook(False)} if proto == 'msgpack' else None)
        W.DIGITS = W.EXACT = proto == 'msgpack'
        R = rules.Rule(r, W.eng)
        small = lambda v: [(-v) + 65535]
        tiny = lambda v: [(-v) + 31]
        lk, lv = (tiny, small) if large is True else (tiny, (large, 0)) if large else (small, tiny)
        ops = [('bmap', n)] + [x for k in kinds for x in (('key', lk), (k, lv) if k in ('str', 'blob') and proto == 'msgpack' else k)] + ['emap']
        if nested:
            ops = [('barr', 1)] + ops + ['earr']
        for e, h in rt.run_history(W, ops + ['finish'], on_throw=None):
            b = rt.buffer_of(e)
            if b is None:
                continue
            doc = rt.parse(h)
            if nested:
                doc = doc[1][0]
            keys, vals = doc[1][0::2], doc[1][1::2]
            st = e.st.copy()
            # the wanted key
            dg, W.DIGITS = W.DIGITS, False
            q, nq = W.input(st, 'wanted')
            W.DIGITS = dg
            d = W.obj_in(st, 'reader', W.dsize)
            for x in W.call(st, 'drv_open', [d, b[1], b[2]]):
                if x.kind != 'ret':
                    continue        # C06 decides acceptance
                if not nested:
                    look(W, R, x.st, 'drv_d', d, keys, vals, q, nq, what)
                    continue
                s = x.st.copy()
                o = W.obj_in(s, 'element', W.vsize)
                for y in W.call(s, 'drv_d_at', [d, ZERO, o]):
                    if y.kind == 'ret':
                        look(W, R, y.st, 'drv_v', o, keys, vals, q, nq, what)
        r.take(W.eng, bounds=False)
        return r
    return ('drv_d_has', task)


def skip(e):
    return e.kind in ('unknown', 'stop') or (e.kind == 'throw' and rt.resource(e))


def look(W, R, st, X, d, keys, vals, q, nq, what):
    eng = W.eng
    rd = rt.Reading(W, R, RULE, what)
    # membership
    for e in W.call(st, X + '_has', [d, q, nq]):
        if skip(e):
            continue
        if e.kind != 'ret':
            R.never(e.st, RULE, 'membership', 'asking for membership fails (%s)' % what, e.ins)
            continue
        s = rd.last(e)[0]
        for z, i in position(W, e.st.copy(), keys, q, nq):
            R.equal(z, s[1], ZERO if i is None else ONE, RULE, 'membership',
                    'a key that is %s the map is reported otherwise (%s)' % ('not in' if i is None else 'in', what), s[-1])
            R.r.inst('membership')
    # lookup
    o = W.obj_in(st, 'found', W.vsize)
    for e in W.call(st, X + '_get', [d, q, nq, o]):
        if skip(e):
            continue
        for z, i in position(W, e.st.copy(), keys, q, nq):
            R.r.inst('lookup')
            if i is None:
                if e.kind == 'ret':
                    R.never(z, RULE, 'lookup absent', 'looking up a key that is not in the map succeeds (%s)' % what, e.ins)
                continue
            if e.kind != 'ret':
                R.never(z, RULE, 'lookup present', 'looking up a key of the map fails (%s)' % what, e.ins)
                continue
            v = vals[i]
            for x in W.call(z, 'drv_v_' + v[0], [o]):
                if skip(x):
                    continue
                if x.kind != 'ret':
                    R.never(x.st, RULE, 'lookup value', 'lookup returns another entry\'s value (%s)' % what, x.ins)
                    continue
                s = rd.last(x)[0]
                if v[0] in ('str', 'blob'):
                    rd.bytes(x.st, s, v, 'value')
                else:
                    rd.eq(x.st, s[1], v[1], 'lookup value', 'lookup returns another entry\'s value', s[-1])
                R.r.inst('value')
    # listing
    n0 = len(rd.last_all(st))
    for e in W.call(st, X + '_keys', [d]):
        if skip(e):
            continue
        if e.kind != 'ret':
            R.never(e.st, RULE, 'listing', 'listing the keys fails (%s)' % what, e.ins)
            continue
        got = rd.last_all(e.st)[n0:]
        if len(got) != len(keys):
            R.never(e.st, RULE, 'listing', 'the listing has %d keys for %d entries (%s)' % (len(got), len(keys), what), e.ins)
            continue
        for g, k in zip(got, keys):
            rd.bytes(e.st, g, k, 'key')
        R.r.inst('listing')


def le(eng, st, o, n):
    v = ZERO
    for i in range(n):
        v = v + eng.as_lin(st, eng.read(st, 'buf', st.facts.norm(o + i), 'i8'), 8).scale(1 << (8 * i))
    return st.facts.norm(v)


def agree(proto, n):
    """arbitrary bytes: whatever the map holds, membership and lookup have to agree"""
    def task(mod, nm):
        r = Result('%s map of %d entries in arbitrary bytes' % (proto, n))
        S = rt.Session(mod)
        eng = S.eng
        eng.QUOT = proto == 'zera'
        eng.PEELW = 64
        eng.PUREREC = True
        eng.UNROLL = 0
        R = rules.Rule(r, eng)
        st = S.st.copy()
        p, size = S.input(st, 'buf')
        q, nq = S.input(st, 'wanted')
        d = S.obj_in(st, 'reader', Lin(S.const('drv_sizeofd')))
        o = S.obj_in(st, 'found', Lin(S.const('drv_sizeofv')))
        st.facts.add_ge(size - 64)
        put = lambda o, v: st.facts.add_eq(le(eng, st, o, 1) - v)
        if proto == 'msgpack':
            put(ZERO, 0x80 + n)
        else:
            # offsets below 256, so that equal positions are spelled alike; the entries are arbitrary
            for i in (9, 10, 11, 14, 15, 18, 19):
                put(Lin(i), 0)
            root = st.facts.norm(le(eng, st, Lin(8), 1) + 20)
            put(root, 6)
            for i in (5, 6, 7):
                put(root + i, 0)
            obj = st.facts.norm(le(eng, st, root + 4, 1) + 20)
            for i in range(4):
                put(obj + i, n if i == 0 else 0)
        for e in S.call(st, 'drv_open', [d, p, size]):
            if e.kind == 'ret':
                both(S, R, e.st, d, q, nq, o)
        r.take(eng, bounds=False)
        return r
    return ('drv_d_has', task)


def both(S, R, st, d, q, nq, o):
    for e in S.call(st, 'drv_d_has', [d, q, nq]):
        if skip(e):
            continue
        has = None
        if e.kind == 'ret':
            has = [x for x in e.st.events() if isinstance(x, tuple) and x[0] == 'sink_bool'][-1][1]
        for g in S.call(e.st, 'drv_d_get', [d, q, nq, o]):
            if skip(g):
                continue
            R.r.inst('agreement')
            if has is None:
                if g.kind == 'ret':
                    R.never(g.st, RULE, 'agreement', 'asking for membership fails although the lookup succeeds', g.ins)
            elif g.kind == 'ret':
                R.equal(g.st, has, ONE, RULE, 'agreement', 'the lookup succeeds but the key is reported as missing', g.ins)
            else:
                R.equal(g.st, has, ZERO, RULE, 'agreement', 'the key is reported as a member but its lookup fails', g.ins)


def run(ctx):
    deep = ctx.tier != 'quick'
    mods = {p: ctx.compile(p + '_rt.cpp', heap=True) for p in ('zera', 'msgpack')}
    for proto, mod in mods.items():
        L = [(), ('f64',), ('str',), ('f64', 'f64'), ('blob', 'f64'), ('f64', 'str')]
        if proto == 'msgpack' or deep:
            L += [('f64', 'f64', 'f64')]
        if deep:
            L += [('bool', 'i64'), ('str', 'blob'), ('i64', 'u64')]
        tasks = [case(proto, len(k), k, nest) for k in L for nest in (False, True) if not nest or len(k) < 2 or set(k) == {'f64'} and len(k) < 3]
        if proto == 'msgpack':      # values of every length, where the position of the next entry depends on it
            tasks += [case(proto, len(k), k, False, True) for k in [('blob', 'f64'), ('str', 'f64')]]
            tasks += [case(proto, 2, ('str', 'f64'), False, n) for n in (32, 256, 65536)]
        tasks += [agree(proto, n) for n in ((0, 1, 2, 3) if proto == 'zera' else (0, 1))]
        ctx.analyse_list(mod, tasks)
    ctx.analyse_list(ctx.compile('cbor_read.cpp', extra=cb.CBOR), cbor_cases(deep))
    ctx.need('membership', 200)
    ctx.need('lookup', 600)
    ctx.need('value', 100)
    ctx.need('listing', 40)
    ctx.need('agreement', 40)
    return finish(ctx, 'Maps written by the real writer (keys of every content and length up to 65535, repeated and empty keys included; zero to three entries; as the root and inside an array) and asked for an arbitrary wanted key; '
                  'and maps of up to three (MsgPack: one) entries in arbitrary bytes, where membership and lookup must agree.',
                  ['membership: true exactly if a stored key has the same length and bytes', 'lookup: the value next to the first such key, an error if there is none', 'listing: every key once, in stored order',
                   'agreement: on arbitrary bytes the lookup succeeds exactly if the key is reported as a member'])
