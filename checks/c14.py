"""Base64: RFC 4648 text for symbolic bytes, strict decoding; lengths one by one (loops peeled, byte values arbitrary)."""
from core import *
from absint import UNDEF, Give, c_ge, c_eq, c_ne
import ev
import rules

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
SEXT = bytes(ALPHA.index(c) if c in ALPHA else 64 for c in range(256))
BAD = []            # ranges of characters outside the alphabet and other than '='
for _c in range(256):
    if _c not in ALPHA and _c != ord('='):
        if BAD and BAD[-1][1] == _c - 1:
            BAD[-1][1] = _c
        else:
            BAD.append([_c, _c])


def byte(i):
    return atom(T.get('byte', ('in', Lin(i)), 0, 255))


def hook(eng, F, st, ins, callee, args):
    if callee == 'ev_result':
        n = st.facts.norm(eng.as_lin(st, args[1]))
        vals = None
        if n.is_const():
            vals = []
            rp = eng.split_ptr(st, st.facts.norm(args[0])) if n.c else None
            eng.quiet += 1
            try:
                for i in range(n.c):
                    v = UNDEF if rp is None or not st.mem[rp[0].name].alive else eng.read(st, rp[0].name, rp[1] + i, 'i8')
                    vals.append(v)
            except Give:
                vals = None
            finally:
                eng.quiet -= 1
        st.event(('res', n, vals, ins))
        return [('ret', st, None, None)]
    return None


def table_for(pos, size, good):
    """the lookup table the code applied to this index, if it agrees with the standard where that matters"""
    for k, a in list(T.key2id.items()):
        if k[0] == 'tab' and isinstance(k[1][0], bytes) and k[1][1] == pos and good(k[1][0]):
            return k[1][0]
    return None


def result(t, r, e, what):
    rs = [x for x in e.st.events() if isinstance(x, tuple) and x and x[0] == 'res']
    if len(rs) != 1 or rs[0][2] is None:
        r.unk('%s: result not tracked' % r.name)
        return None
    return rs[0]


def encode(n):
    def task(mod, nm):
        r = Result('encode %d bytes' % n)
        eng = start(mod, nm, n)
        r.take(eng)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('unknown', 'stop'):
                continue
            if e.kind == 'throw' and ev.resource(e):
                continue
            if e.kind != 'ret':
                R.never(e.st, 'encode', 'fails', 'encoding %d bytes ends in %s' % (n, e.kind), e.ins)
                continue
            res = result(R, r, e, 'encode')
            if res is None:
                continue
            size = (n + 2) // 3 * 4
            if not R.equal(e.st, res[1], Lin(size), 'encode', 'length', 'the text of %d bytes has the wrong length' % n, res[3]) or len(res[2]) != size:
                continue
            for k in range(size):
                g, q = k // 4, k % 4
                have = min(3, n - 3 * g)
                st = e.st.copy()
                if q > have:
                    R.equal(st, res[2][k], Lin(ord('=')), 'encode', 'padding', 'character %d of the text of %d bytes is not padding' % (k, n), res[3])
                    continue
                v = ZERO
                for j in range(3):
                    v = v + (byte(3 * g + j).scale(1 << (16 - 8 * j)) if j < have else ZERO)
                ix = eng.bits(st, v, 18 - 6 * q, 24 - 6 * q)
                got = res[2][k]
                got = st.facts.norm(got) if isinstance(got, Lin) else got
                want = None
                if isinstance(got, Lin) and len(got.t) == 1 and got.c == 0 and T.info[got.t[0][0]][0] == 'tab':
                    tb, pos = T.info[got.t[0][0]][1][:2]
                    if isinstance(tb, bytes) and tb[:64] == ALPHA and eng.decide(st, c_eq(st.facts.norm(pos - ix))) is True:
                        r.inst('encode')
                        continue
                want = atom(T.get('tab', (ALPHA, st.facts.norm(ix), 'i8'), 43, 122))
                R.equal(st, got, want, 'encode', 'character', 'character %d of the text of %d bytes is wrong' % (k, n), res[3])
        return r
    return ('drv_enc', task)


def start(mod, nm, n):
    def prep(eng, st, args, syms):
        st.facts.add_eq(syms['in'] - n)
        eng.PEEL = 4 * n + 9
        eng.PEELEXIT = True
        eng.JOINAT = 400
        eng.UNROLL_WORK = 10 ** 9
        eng.SPLIT = ('tab', 'bitq', 'bitr', 'byte') if nm == 'drv_enc' else ('tab', 'bitq', 'bitr')
    return run_entry(mod, nm, {'call': hook}, prep)


def sextet(eng, st, k):
    c = byte(k)
    tb = table_for(st.facts.norm(c), 256, lambda t: len(t) == 256 and all(t[x] == SEXT[x] for x in ALPHA) and all(t[x] >= 64 for x in range(256) if x not in ALPHA)) \
        or table_for(c, 256, lambda t: len(t) == 256 and all(t[x] == SEXT[x] for x in ALPHA))
    return atom(T.get('tab', (tb or SEXT, c, 'i8'), 0, 255))


def refine(eng, st, k):
    """use the contents of the lookup tables applied to character k under its present range"""
    lo, hi = st.facts.interval(st.facts.norm(byte(k)))
    for key, a in list(T.key2id.items()):
        if key[0] == 'tab' and isinstance(key[1][0], bytes) and key[1][1] == byte(k) and hi < len(key[1][0]):
            vals = key[1][0][lo:hi + 1]
            st.facts.set_bound(a, min(vals), max(vals))


def decode(n):
    def task(mod, nm):
        r = Result('decode %d characters' % n)
        eng = start(mod, nm, n)
        r.take(eng)
        R = rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind in ('unknown', 'stop') or (e.kind == 'throw' and ev.resource(e)):
                continue
            if e.kind == 'ret':
                strict(eng, R, e, n)
            elif e.kind != 'throw' or 'DeserializationError' not in str(e.val):
                R.never(e.st, 'strict', 'error type', 'decoding ends in %s %s' % (e.kind, e.val), e.ins)
            if n % 4:
                continue
            for m in {n, max(n - 1, 0), max(n - 2, 0)} if n else {0}:
                canonical(eng, R, r, e, n, m)
        return r
    return ('drv_dec', task)


def strict(eng, R, e, n):
    """returned: no character before the first '=' is outside the alphabet"""
    for k in range(n):
        for lo, hi in BAD:
            st = e.st.copy()
            f = st.facts
            f.add_ge(byte(k) - lo)
            f.add_ge(Lin(hi) - byte(k))
            ss = [st]
            for i in range(k):
                ss = [x for y in ss for x in eng.assume(y, c_ne(byte(i) - ord('=')))]
            for s in ss:
                if s.facts.dead:
                    continue
                refine(eng, s, k)
                if s.facts.dead or s.facts.infeasible():
                    R.r.inst('strict')
                    continue
                R.never(s, 'strict', 'invalid accepted', 'text of %d characters with an invalid character at %d is accepted' % (n, k), e.ins)


def canonical(eng, R, r, e, n, m):
    """the canonical texts with m characters before the padding decode to their bytes"""
    st = e.st.copy()
    f = st.facts
    for k in range(m, n):
        f.add_eq(byte(k) - ord('='))
    ss = [st]
    for k in range(m):
        ss = [x for y in ss for x in eng.assume(y, c_ne(byte(k) - ord('=')))]
    for s in ss:
        if s.facts.dead:
            continue
        sx = [sextet(eng, s, k) for k in range(m)]
        for x in sx:
            s.facts.add_ge(Lin(63) - x)
        if m < n:       # unused bits are zero
            w = 2 if m == n - 1 else 4
            last = s.facts.norm(sx[-1])
            s.facts.add_eq(s.facts.norm(last - eng.div2k(s, last, w).scale(1 << w)))
        if s.facts.dead or s.facts.infeasible():
            continue
        if e.kind != 'ret':
            R.never(s, 'decode', 'rejected', 'a correct text of %d characters (%d of padding) is rejected' % (n, n - m), e.ins)
            continue
        res = result(R, r, e, 'decode')
        if res is None:
            continue
        size = m * 6 // 8
        if not R.equal(s, res[1], Lin(size), 'decode', 'length', 'decoding %d characters (%d of padding) gives the wrong number of bytes' % (n, n - m), res[3]) or len(res[2]) != size:
            continue
        for i in range(size):
            g, q = i // 3, i % 3
            v = ZERO
            for j in range(4):
                if 4 * g + j < m:
                    v = v + sx[4 * g + j].scale(1 << (18 - 6 * j))
            t = s.copy()
            want = eng.bits(t, v, 16 - 8 * q, 24 - 8 * q)
            R.equal(t, res[2][i], want, 'decode', 'byte', 'byte %d decoded from %d characters (%d of padding) is wrong' % (i, n, n - m), res[3])


def run(ctx):
    mod = ctx.compile('base64.cpp', heap=True)
    top = 44 if ctx.tier == 'quick' else 68
    tasks = [encode(n) for n in range(69)] + [decode(n) for n in range(top + 1)]
    ctx.analyse_list(mod, tasks)
    ctx.use_obligations()
    ctx.need('encode', 60)
    ctx.need('decode', 30)
    ctx.need('strict', 60)
    return finish(ctx, 'Abstract interpretation of base64Encode/base64Decode for every length up to %d with arbitrary byte values (loops peeled, no sampling of contents).' % top,
                  ['encoding n arbitrary bytes gives the RFC 4648 characters and padding', 'decoding any canonical text of that length gives the encoded bytes',
                   'a text with a character outside the alphabet before the first padding character never decodes', 'only DeserializationError is thrown; no access out of bounds'])
