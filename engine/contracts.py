"""Recursive functions: template pre/post-conditions solved by fixpoint.

For a call pattern (which arguments are pointers into the same object, which are
integers) the contract relates argument offsets o_i, integer arguments x_j, the
object's size S and the result r.  Candidate preconditions are those templates that
hold at the analysed call; candidate postconditions start as all templates; both are
dropped until the body is consistent with them (greatest fixpoint)."""
from lin import Lin, T, ZERO, ONE, Facts, atom, show
from absint import Give, UNDEF, FV, State, Exit, width, tysize, loc_of


class Contract:
    def __init__(self):
        self.pattern = None
        self.pre = []
        self.post = []
        self.throws = set()
        self.pure = True
        self.ready = False


GROUP = ('input', 'global', 'param', 'vecbuf', 'heap')


def fields(eng, st, r, base, groups, vals):
    """a local object passed by address: its 8-byte members, each a pointer into a group, an integer or a constant"""
    out = []
    c = st.mem[r.name]
    if any(not isinstance(L, dict) for L in c.layers):
        vals.append(None)
        return ('x',)
    offs = sorted({o for L in c.layers for o, (n, _) in L.items() if n == 8 and o >= base})
    got = []
    for o in offs:
        v = eng.read(st, r.name, Lin(o), 'i64')
        if not isinstance(v, Lin):
            continue
        v = st.facts.norm(v)
        if v.is_const():
            out.append((o - base, ('k', v.c)))
            continue
        rp = eng.split_ptr(st, v)
        if rp is None:
            out.append((o - base, ('i', 64)))
            got.append(v)
        elif rp[0].kind in GROUP:
            out.append((o - base, ('p', groups.setdefault(rp[0].name, len(groups)))))
            got.append(rp)
    vals.append(got)
    return ('obj', tuple(out))


def flat(pat, vals):
    """the pointer and integer slots of a call pattern, members of objects included"""
    fp, fv = [], []
    for p, v in zip(pat, vals):
        if p[0] == 'obj':
            fp += [q for _, q in p[1] if q[0] != 'k']
            fv += v
        else:
            fp.append(p)
            fv.append(v)
    return fp, fv


def classify(eng, st, F, args):
    pat = []
    groups = {}
    vals = []
    for a, v in zip(F.args, args):
        if a['ty'] == 'p':
            rp = eng.split_ptr(st, v) if isinstance(v, Lin) else None
            if rp is None:
                pat.append(('x',))
                vals.append(v)
                continue
            r, off = rp
            if r.kind in GROUP:
                g = groups.setdefault(r.name, len(groups))
                pat.append(('p', g))
                vals.append((r, off))
            elif r.kind == 'alloca' and off.is_const():
                pat.append(fields(eng, st, r, off.c, groups, vals))
            else:
                pat.append(('x',))
                vals.append(v)
        elif isinstance(a['ty'], str) and a['ty'][0] == 'i':
            pat.append(('i', width(a['ty'])))
            vals.append(eng.as_lin(st, v, width(a['ty'])))
        else:
            pat.append(('x',))
            vals.append(v)
    return tuple(pat), vals, groups


def templates_pre(vars_):
    """vars_: dict with lists o (offsets), x (ints), S (sizes) of (name, group)"""
    out = []
    for o, g in vars_['o']:
        out.append(((o, 1), ))
        out.append((('S%d' % g, 1), (o, -1)))
        for x in vars_['x']:
            out.append((('S%d' % g, 1), (o, -1), (x, -1)))
        for o2, g2 in vars_['o']:
            if o2 != o and g2 == g:
                out.append(((o2, 1), (o, -1)))
    for x in vars_['x']:
        for g in vars_['S']:
            out.append((('S%d' % g, 1), (x, -1)))
        for x2 in vars_['x']:
            if x2 != x:
                out.append(((x, 1), (x2, -1)))
    return out


def call(eng, F0, st, ins, callee, args):
    F = eng.mod.fn(callee)
    pat, vals, groups = classify(eng, st, F, args)
    if any(p[0] == 'x' for p in pat):
        raise Give('recursive call %s with an untracked argument' % F.base, ins)
    key = (callee, pat)
    full = pat
    pat, vals = flat(pat, vals)
    key_args = tuple(v for v in vals if isinstance(v, Lin)) + tuple(v[1] for v in vals if not isinstance(v, Lin)) if any(p[0] == 'obj' for p in full) else ()
    con = eng.contracts.get(key)
    names = {}
    inv = {v: k for k, v in groups.items()}
    for i, (p, v) in enumerate(zip(pat, vals)):
        if p[0] == 'p':
            names['o%d' % i] = v[1]
        else:
            names['x%d' % i] = v
    for g, rn in inv.items():
        names['S%d' % g] = st.mem[rn].size

    def inst(t, c=0):
        l = Lin(c)
        for n, k in t:
            l = l + names[n].scale(k)
        return l
    if con is None:
        con = Contract()
        con.pattern = full
        vs = {'o': [('o%d' % i, p[1]) for i, p in enumerate(pat) if p[0] == 'p'],
              'x': ['x%d' % i for i, p in enumerate(pat) if p[0] == 'i'],
              'S': sorted(inv)}
        con.vs = vs
        if eng.quiet > eng.qbase:
            # first met in a provisional pass: start optimistic, weakened later if needed
            con.pre = [t for t in templates_pre(vs) if not st.facts.entails_ge((-inst(t)) - 1)]
        else:
            con.pre = [t for t in templates_pre(vs) if st.facts.entails_ge(inst(t))]
        eng.contracts[key] = con
        solve(eng, F, con)
    # preconditions at this call site (only definitive passes count)
    if eng.quiet <= eng.qbase:
        bad = [t for t in con.pre if not st.facts.entails_ge(inst(t))]
        if bad and not st.facts.infeasible():
            con.pre = [t for t in con.pre if t not in bad]
            con.changed = True
            if con.ready:
                # a weaker call site: solve again, and analyse the entry point again
                solve(eng, F, con)
                eng.restart = True
    # result
    out = []
    pk = None
    if eng.PUREREC and all(eng.regions[rn].ro for rn in inv.values()):
        pk = (callee, tuple(st.facts.norm(a) if isinstance(a, Lin) else a for a in tuple(args) + key_args))
    known = dict(st.glob.get('pure', ())).get(pk) if pk else None     # the same call on the same bytes ends alike
    for t in sorted(con.throws, key=str):
        if known is not None and known != t:
            continue
        s2 = st.copy()
        if pk and known is None:
            s2.glob['pure'] = s2.glob.get('pure', ()) + ((pk, t),)
        s2.glob['maythrow'] = s2.glob.get('maythrow', ()) + ((callee, ins.get('id')),)
        out.append(('throw', s2, t, ins))
    if known is not None and known != 'returned':
        return out
    if pk and known is None:
        st.glob['pure'] = st.glob.get('pure', ()) + ((pk, 'returned'),)
    rty = F.j['ret']
    if rty == 'void':
        out.append(('ret', st, None, None))
        return out
    ro = all(eng.regions[rn].ro for rn in inv.values())
    nargs = tuple(st.facts.norm(a) if isinstance(a, Lin) else a for a in tuple(args) + key_args)
    if not isinstance(rty, str):
        raise Give('recursive call result type', ins)
    if rty == 'i1' or rty[0] == 'i':
        w = width(rty)
        ra = T.get('rcall', (callee, nargs) if ro else (callee, nargs, eng_count(eng)), 0, (1 << w) - 1)
        rv = atom(ra)
        rl = rv
        if w == 1:
            rv = ('ge', rl - 1)
    elif rty == 'p' and con.retgroup is not None:
        ra = T.get('rcall', (callee, nargs) if ro else (callee, nargs, eng_count(eng)), -(1 << 62), 1 << 62)
        rl = atom(ra)
        rv = atom(eng.regions[inv[con.retgroup]].addr) + rl
    else:
        raise Give('recursive call result type', ins)
    names['r'] = rl
    for t, c in con.post:
        st.facts.add_ge(inst(t, c))
    if not st.facts.dead:
        if eng.hooks.get('reccall') and not eng.quiet:
            eng.hooks['reccall'](eng, st, ins, callee, args, rv)
        out.append(('ret', st, rv, None))
    return out


def eng_count(eng):
    eng.counter += 1
    return eng.counter


def templates_post(con):
    out = []
    vs = con.vs
    r = ('r', 1)
    out += [((r,), 0), ((r,), -1)]
    for x in vs['x']:
        out.append((((x, 1), ('r', -1)), 0))
    for o, g in vs['o']:
        for c in (0, -1):
            out.append(((r, (o, -1)), c))
        for o2, g2 in vs['o']:
            if o2 != o:
                out.append((((o2, 1), ('r', -1)), 0))
        for x in vs['x']:
            out.append((((o, 1), (x, 1), ('r', -1)), 0))
    for g in vs['S']:
        out.append(((('S%d' % g, 1), ('r', -1)), 0))
        for o, g2 in vs['o']:
            out.append(((('S%d' % g, 1), (o, -1), ('r', -1)), 0))
    for x in vs['x']:
        for c in (0, -1):
            out.append(((r, (x, -1)), c))
    return out


def solve(eng, F, con):
    con.ready = False
    con.post = templates_post(con) if F.j['ret'] != 'void' else []
    con.retgroup = 0 if F.j['ret'] == 'p' else None
    con.throws = set()
    tag = F.name
    saved = (eng.quiet, eng.exits if hasattr(eng, 'exits') else None, eng.depth)
    qb = eng.qbase
    try:
        for it in range(40):
            con.changed = False
            final = False
            exits = body(eng, F, con, tag, quiet=1)
            drop = []
            throws = set()
            for e in exits:
                if e.kind == 'throw':
                    throws.add(e.val)
                elif e.kind == 'ret' and con.post:
                    names = e.st.glob['names']
                    if F.j['ret'] == 'p':
                        rp = eng.split_ptr(e.st, e.val) if isinstance(e.val, Lin) else None
                        if rp is None:
                            con.post = []
                            con.retgroup = None
                            con.changed = True
                            break
                        rl = rp[1]
                    else:
                        rl = eng.as_lin(e.st, e.val)
                    nm = dict(names)
                    nm['r'] = rl
                    for t, c in con.post:
                        if (t, c) in drop:
                            continue
                        l = Lin(c)
                        for n, k in t:
                            l = l + nm[n].scale(k)
                        if not e.st.facts.entails_ge(l) and not e.st.facts.infeasible():
                            drop.append((t, c))
            if drop:
                con.post = [p for p in con.post if p not in drop]
                con.changed = True
            if throws - con.throws:
                con.throws |= throws
                con.changed = True
            if not con.changed:
                break
        else:
            raise Give('contract does not stabilise')
        con.ready = True
        # final pass: record the obligations of the body once
        so, eng.obl = eng.obl, {}
        con.exits = body(eng, F, con, tag, quiet=0)
        con.obl, eng.obl = eng.obl, so
    finally:
        eng.quiet, ex, eng.depth = saved
        eng.qbase = qb
        if ex is not None:
            eng.exits = ex


def body(eng, F, con, tag, quiet):
    s = State()
    names = {}
    args = []
    for g in con.vs['S']:
        a = T.get('sym', ('S%d@%s' % (g, tag),), 0, 1 << 62)
        names['S%d' % g] = atom(a)
        eng.new_region(s, 'P%d@%s' % (g, tag), 'input', atom(a), ('bytes', 'P%d@%s' % (g, tag)), ro=True)
    i = 0

    def slot(p):
        nonlocal i
        if p[0] == 'k':
            return Lin(p[1])
        if p[0] == 'p':
            a = T.get('sym', ('o%d@%s' % (i, tag),), -(1 << 62), 1 << 62)
            names['o%d' % i] = atom(a)
            v = eng.ptr('P%d@%s' % (p[1], tag)) + atom(a)
        else:
            a = T.get('sym', ('x%d@%s' % (i, tag),), 0, (1 << p[1]) - 1)
            names['x%d' % i] = atom(a)
            v = atom(a)
            if p[1] == 1:
                v = ('ge', v - 1)
        i += 1
        return v
    kept = []
    for k, p in enumerate(con.pattern):
        if p[0] == 'obj':
            rn = 'O%d@%s' % (k, tag)
            eng.new_region(s, rn, 'alloca', Lin(max([o for o, _ in p[1]], default=0) + 8), ('unk', rn))
            for o, q in p[1]:
                v = slot(q)
                eng.write(s, rn, Lin(o), v, 'i64', 8)
                kept.append((rn, o, v))
            args.append(eng.ptr(rn))
        else:
            args.append(slot(p))
    for t in con.pre:
        l = ZERO
        for n, k in t:
            l = l + names[n].scale(k)
        s.facts.add_ge(l)
    s.glob['names'] = names
    eng.exits = []
    eng.quiet = quiet
    eng.qbase = quiet
    old = eng.entry
    eng.entry = F.base
    pe, eng.PEELEXIT = eng.PEELEXIT, False
    pn, eng.PEEL = eng.PEEL, type(eng).PEEL
    try:
        eng.run_function(F.name, args, s)
    finally:
        eng.entry = old
        eng.PEELEXIT = pe
        eng.PEEL = pn
    for e in eng.exits:
        for rn, o, v in kept:           # objects are read, not changed
            if e.kind in ('ret', 'throw') and not e.st.facts.infeasible():
                w = eng.read(e.st, rn, Lin(o), 'i64')
                if not isinstance(w, Lin) or not e.st.facts.entails_eq(w - v):
                    raise Give('recursive function changes the object it is called on')
    return eng.exits
