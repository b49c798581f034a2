"""Loop fixpoints: delayed widening by peeling, then inductive linear invariants."""
from lin import Lin, T, ZERO, ONE, Facts, atom, tighten, show
from absint import (Give, UNDEF, FV, Exit, LoopRec, Cont, width, loc_of, tysize)


def subst(l, m):
    hit = False
    for a, _ in l.t:
        if a in m:
            hit = True
            break
    if not hit:
        return l
    r = Lin(l.c, tuple((a, v) for a, v in l.t if a not in m))
    for a, v in l.t:
        if a in m:
            r = r + m[a].scale(v)
    return r


def deps(x, bad, memo):
    """does x mention (transitively) an atom in bad?"""
    if isinstance(x, Lin):
        return any(dep_atom(a, bad, memo) for a, _ in x.t)
    if isinstance(x, tuple):
        return any(deps(y, bad, memo) for y in x)
    if isinstance(x, FV):
        return deps(x.key, bad, memo)
    return False


def dep_atom(a, bad, memo):
    if a in bad:
        return True
    r = memo.get(a)
    if r is None:
        memo[a] = False
        r = deps(T.info[a][1], bad, memo)
        memo[a] = r
    return r


def noret_blocks(F):
    nr = getattr(F, '_noret', None)
    if nr is None:
        n = len(F.blocks)
        can = [F.blocks[b]['i'][-1]['op'] == 'ret' for b in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if not can[b] and any(can[s] for s in F.succ[b]):
                    can[b] = True
                    ch = True
        nr = [not c for c in can]
        F._noret = nr
    return nr


class Var:
    def __init__(self, kind, key, ty):
        self.kind = kind      # 'phi' 'cell' 'size'
        self.key = key
        self.ty = ty
        self.atom = None
        self.region = None
        self.entry = None     # Lin
        self.opaque = False


def generic(eng, st, v, ty, entry, uid):
    """header value for variable v; sets v.atom/v.region/v.entry"""
    if ty[0] == 'f':
        return FV(ty, ('phi', uid, v.key))
    if ty == 'p':
        if isinstance(entry, Lin) and not v.opaque:
            rp = eng.split_ptr(st, entry)
            if rp:
                v.region = rp[0]
                v.entry = rp[1]
                v.atom = T.get('phi', (uid, v.key), -(1 << 62), 1 << 62)
                return atom(v.region.addr) + atom(v.atom)
        v.opaque = True
        v.atom = None
        return atom(T.get('optr', (uid, v.key), 0, (1 << 63) - 1))
    w = width(ty)
    v.atom = T.get('phi', (uid, v.key), 0, (1 << w) - 1)
    if entry is UNDEF or entry is None:
        v.entry = None
    else:
        v.entry = eng.as_lin(st, entry, w)
    if ty == 'i1':
        return ('ge', atom(v.atom) - 1)
    return atom(v.atom)


def analyse(eng, F, hdr, st):
    r = peel(eng, F, hdr, st)
    if r is not None:
        return r
    eng.inloop += 1
    try:
        return fix(eng, F, hdr, st)
    finally:
        eng.inloop -= 1


def peel(eng, F, hdr, st):
    """iterations one by one as long as the loop condition decides each; None if it does not end that way"""
    nr = noret_blocks(F)
    saved = eng.exits
    obl = {k: list(v) for k, v in eng.obl.items()}
    notes = dict(eng.notes)
    gives = dict(eng.gives)
    eng.exits = []
    out = []
    done = False
    cur = [st.copy()]
    for it in range(eng.PEEL):
        nxt = []
        exs = []
        for s in cur:
            e, b = eng.run_region(F, hdr, {hdr: [s]})
            out.extend(e)
            exs.extend(x for x in e if not nr[x[0]])
            nxt.extend(b)
        if any(x.kind == 'unknown' for x in eng.exits):
            break
        if not nxt:
            done = True
            break
        if (exs and not eng.PEELEXIT) or len(nxt) > eng.PEELW:
            break
        cur = nxt
    mine, eng.exits = eng.exits, saved
    if not done:
        eng.obl, eng.notes, eng.gives = obl, notes, gives
        return None
    eng.exits.extend(mine)
    return out


def project(rows, eqs, keep, cap=80):
    """Fourier-Motzkin projection of {rows>=0, eqs==0} onto atoms in keep()."""
    rows = list(rows)
    eqs = list(eqs)
    # eliminate by equalities
    progress = True
    while progress and eqs:
        progress = False
        for i, e in enumerate(eqs):
            best = None
            for a, v in e.t:
                if not keep(a) and v in (1, -1):
                    best = (a, v)
                    break
            if best:
                a, v = best
                s = e.drop(a).scale(-v)
                m = {a: s}
                eqs = [subst(x, m) for j, x in enumerate(eqs) if j != i]
                rows = [subst(x, m) for x in rows]
                progress = True
                break
    for e in eqs:
        if not e.t:
            continue
        rows.append(e)
        rows.append(-e)
    rows = dedupe(rows)
    while True:
        elim = {}
        for r in rows:
            for a, v in r.t:
                if not keep(a):
                    p = elim.setdefault(a, [0, 0])
                    p[0 if v > 0 else 1] += 1
        if not elim:
            return rows
        a = min(elim, key=lambda x: elim[x][0] * elim[x][1] - elim[x][0] - elim[x][1])
        pos = [r for r in rows if r.coef(a) > 0]
        neg = [r for r in rows if r.coef(a) < 0]
        rest = [r for r in rows if not r.coef(a)]
        if len(pos) * len(neg) + len(rest) > cap * 2:
            rows = rest
            continue
        for p in pos:
            for n in neg:
                c = p.scale(-n.coef(a)) + n.scale(p.coef(a))
                c = tighten(c)
                if c.t:
                    rest.append(c)
        rows = dedupe(rest)[:cap]


def dedupe(rows):
    best = {}
    for r in rows:
        r = tighten(r)
        if not r.t:
            continue
        if r.t in best:
            best[r.t] = min(best[r.t], r.c)
        else:
            best[r.t] = r.c
    return [Lin(c, t) for t, c in best.items()]


def cont_diff(h, b):
    """cells that differ between header content h and back content b:
    list of (off,size,hval,bval), or None if not expressible"""
    if h is b:
        return []
    if h.bottom != b.bottom:
        return None

    def flat(c):
        d = {}
        for L in c.layers:
            if isinstance(L, dict):
                for o, (sz, v) in L.items():
                    for k in [k for k in d if k < o + sz and o < k + d[k][0]]:
                        if (k, d[k][0]) != (o, sz):
                            return None
                    d[o] = (sz, v)
            else:
                return None
        return d
    # common symbolic prefix allowed
    n = 0
    while n < len(h.layers) and n < len(b.layers) and h.layers[n] == b.layers[n]:
        n += 1

    class C:
        pass
    x, y = C(), C()
    x.layers, y.layers = h.layers[n:], b.layers[n:]
    dh, db = flat(x), flat(y)
    if dh is None or db is None:
        return None
    out = []
    for o, (sz, v) in db.items():
        hv = dh.get(o)
        if hv is None:
            out.append((o, sz, None, v))
        elif hv[0] != sz:
            return None
        elif hv[1] != v:
            out.append((o, sz, hv[1], v))
    return out


def fix(eng, F, hdr, st):
    eng.stats['loops'] += 1
    eng.counter += 1
    uid = 'L%d' % eng.counter
    instrs = F.blocks[hdr]['i']
    phis = [i for i in instrs if i['op'] == 'phi']
    entry_pred = st.pred
    entry_phi = {}
    for p in phis:
        for pb, o in p['in']:
            if pb == entry_pred:
                entry_phi[p['id']] = eng.val(st, o)
                break
        else:
            raise Give('loop phi without entry')
    kat = T.get('phi', (uid, 'k'), 0, None)
    variables = [Var('phi', p['id'], p['ty']) for p in phis]
    for v in variables:
        if not isinstance(v.ty, str):
            raise Give('aggregate loop variable')
    cells = {}       # (region, off) -> Var
    havoc = set()
    sizes = {}       # region -> Var (size variable)
    objs = {}        # (region,off) -> kind, for abstract objects modified in the loop

    def make_header(inv):
        s = st.copy()
        s.loopctx = st.loopctx + (kat,)
        for v in variables:
            s.env[v.key] = generic(eng, st, v, v.ty, entry_phi[v.key], uid)
        for (rn, off), v in cells.items():
            ev = eng.read(st, rn, Lin(off), v.ty)
            gv = generic(eng, st, v, v.ty, ev, uid)
            eng.write(s, rn, Lin(off), gv, v.ty, tysize(v.ty))
        for rn, v in sizes.items():
            v.atom = T.get('phi', (uid, v.key), 0, 1 << 62)
            v.entry = st.mem[rn].size
            s.cont(rn).size = atom(v.atom)
        for rn in havoc:
            c = s.cont(rn)
            c.layers = []
            c.bottom = ('unk', '%s:%s' % (uid, rn))
        for (rn, off), v in cells.items():
            if rn in havoc:
                gv = s_val(eng, v, uid)
                eng.write(s, rn, Lin(off), gv, v.ty, tysize(v.ty))
        for key, v in objs.items():
            models.havoc_obj(eng, st, s, key, v, uid)
        s.glob['phi_done'] = set(p['id'] for p in phis)
        s.facts.add_ge(atom(kat))
        for i in inv:
            s.facts.add_ge(i)
        s.ev = None
        return s

    def allvars():
        return variables + list(cells.values()) + list(objs.values()) + list(sizes.values())

    import models

    def newmap(b):
        """header atom -> new Lin at back edge b; None entries are dropped vars"""
        m = {kat: atom(kat) + 1}
        ok = True
        for v in variables:
            for pb, o in next(p for p in phis if p['id'] == v.key)['in']:
                if pb == b.pred:
                    nv = eng.val(b, o)
                    break
            else:
                raise Give('phi back edge')
            ok &= put(m, v, nv, b)
        for (rn, off), v in cells.items():
            nv = eng.read(b, rn, Lin(off), v.ty)
            ok &= put(m, v, nv, b)
        for rn, v in sizes.items():
            m[v.atom] = b.facts.norm(b.mem[rn].size)
        for key, v in objs.items():
            nv = models.obj_size(eng, b, key)
            if nv is None:
                raise Give('object vanished in loop')
            m[v.atom] = b.facts.norm(nv)
        return m, ok

    def put(m, v, nv, b):
        if v.atom is None:
            return True
        if v.ty == 'p':
            if v.opaque:
                return True
            rp = eng.split_ptr(b, nv) if isinstance(nv, Lin) else None
            if rp is None or rp[0] is not v.region:
                v.opaque = True
                return False
            m[v.atom] = b.facts.norm(rp[1])
            return True
        if v.ty[0] == 'f':
            return True
        m[v.atom] = b.facts.norm(eng.as_lin(b, nv, width(v.ty)))
        return True

    def run(inv):
        s = make_header(inv)
        saved = eng.exits
        eng.exits = []
        eng.quiet += 1
        try:
            return eng.run_region(F, hdr, {hdr: [s]}), s
        finally:
            eng.quiet -= 1
            eng.exits = saved

    def discover(inv):
        """run until the set of loop-modified memory is stable"""
        for rnd in range(8):
            (ex, backs), h = run(inv)
            changed = False
            for b in backs:
                for rn, hc in h.mem.items():
                    bc = b.mem.get(rn)
                    if bc is None or bc is hc:
                        continue
                    if bc.alive != hc.alive:
                        raise Give('object freed in loop')
                    if bc.size != hc.size and rn not in sizes:
                        sizes[rn] = Var('size', ('z', rn), 'i64')
                        changed = True
                    for off, ov in bc.objs.items():
                        if hc.objs.get(off) != ov and (rn, off) not in objs:
                            v = Var('obj', ('o', rn, off), 'i64')
                            v.obj = ov
                            if (rn, off) in [k for k in objs]:
                                continue
                            if st.mem[rn].objs.get(off) is None:
                                continue
                            objs[(rn, off)] = v
                            changed = True
                    if rn in havoc:
                        continue
                    if eng.regions[rn].kind == 'vecbuf':
                        continue
                    d = cont_diff(hc, bc)
                    if d is None:
                        havoc.add(rn)
                        changed = True
                        continue
                    for off, sz, hv, bv in d:
                        if (rn, off) in cells:
                            continue
                        ty = 'i%d' % (8 * sz)
                        if isinstance(bv, FV):
                            ty = bv.ty
                        elif isinstance(bv, Lin) and sz == 8 and eng.split_ptr(b, bv):
                            ty = 'p'
                        elif isinstance(hv, Lin) and sz == 8 and eng.split_ptr(b, hv):
                            ty = 'p'
                        cells[(rn, off)] = Var('cell', ('c', rn, off), ty)
                        changed = True
            okall = True
            maps = []
            if not changed:
                for b in backs:
                    m, ok = newmap(b)
                    okall &= ok
                    maps.append(m)
            if not changed and okall:
                return backs, maps, h
        raise Give('loop memory does not stabilise')

    # --- candidate inference -------------------------------------------------
    def entry_map():
        m = {kat: ZERO}
        for v in allvars():
            if v.atom is not None:
                if v.entry is None:
                    continue
                m[v.atom] = v.entry
        return m

    def at_entry(c):
        m = entry_map()
        for v in allvars():
            if v.atom is not None and v.entry is None and c.coef(v.atom):
                return None
        return st.facts.norm(subst(c, m))

    def candidates(backs, maps):
        cand = []
        em = entry_map()
        hatoms = set(a.atom for a in allvars() if a.atom is not None) | {kat}
        for v in allvars():
            if v.atom is None or v.entry is None:
                continue
            a = atom(v.atom)
            cand.append(a - v.entry)
            cand.append(v.entry - a)
            # constant strides
            ds = set()
            for b, m in zip(backs, maps):
                ds.add(b.facts.norm(m[v.atom] - a))
            for d in ds:
                if d.is_const():
                    cand.append(a - v.entry - atom(kat, d.c))
                    cand.append(v.entry - a + atom(kat, d.c))
        # projections of the back-edge facts onto the new values
        for b, m in zip(backs, maps):
            memo = {}
            primed = {}
            eqs = []
            for h in m:
                p = T.get('prime', (h,), None, None)
                primed[p] = h
                eqs.append(atom(p) - m[h])
            f = b.facts
            want = set()
            for h in m:
                want |= set(x for x, _ in m[h].t)
            rows = []
            pool = list(f.ineq)
            cone = set(want)
            for _ in range(3):
                add = [r for r in pool if any(a in cone for a, _ in r.t)]
                if not add:
                    break
                pool = [r for r in pool if r not in add]
                rows.extend(add)
                for r in add:
                    cone |= set(a for a, _ in r.t)
                if len(rows) > 60:
                    break
            for a in cone:
                lo, hi = f.abounds(a)
                if dep_atom(a, hatoms, memo) or a in f.bd:
                    if lo is not None:
                        rows.append(atom(a) - lo)
                    if hi is not None:
                        rows.append((-atom(a)) + hi)

            def keep(a):
                if a in primed:
                    return True
                return not (a in hatoms or dep_atom(a, hatoms, memo) or T.info[a][0] in ('amb', 'undef'))
            for r in project(rows, eqs, keep):
                if not any(a in primed for a, _ in r.t):
                    continue
                c = subst(r, {p: atom(h) for p, h in primed.items()})
                cand.append(c)
        # a loop that runs while x != y: x approaches y from one side
        for b in backs:
            for l in b.facts.neq:
                if any(a in hatoms for a, _ in l.t):
                    cand.append(l)
                    cand.append(-l)
        out = []
        seen = set()
        for c in cand:
            c = tighten(c)
            if not c.t or c in seen:
                continue
            seen.add(c)
            e = at_entry(c)
            if e is None:
                continue
            if not st.facts.entails_ge(e):
                lo, hi = st.facts.interval(e)
                if lo is not None and lo > -(1 << 33):
                    c = c - lo
                    if c in seen:
                        continue
                    seen.add(c)
                else:
                    continue
            out.append(c)
        return out

    def houdini(inv):
        while True:
            backs, maps, h = discover(inv)
            keepers = []
            for c in inv:
                ok = True
                for b, m in zip(backs, maps):
                    if not b.facts.entails_ge(subst(c, m)) and not b.facts.infeasible():
                        ok = False
                        break
                if ok:
                    keepers.append(c)
            if len(keepers) == len(inv):
                return inv, backs, maps
            inv = keepers

    backs, maps, h = discover([])
    inv = []
    for rnd in range(3):
        cand = candidates(backs, maps)
        new = [c for c in cand if c not in inv]
        if not new:
            break
        before = list(inv)
        inv, backs, maps = houdini(inv + new)
        if set(inv) == set(before):
            break
    # --- final pass ------------------------------------------------------------
    rec = LoopRec(F.name, hdr, kat)
    rec.inv = inv
    rec.loc = loc_of(instrs[-1])
    s = make_header(inv)
    rec.header = s
    rec.vars = allvars()
    if eng.hooks.get('counted') and not havoc and not objs:
        # a loop all of whose variables are affine in the iteration count: its members are concrete iterations
        ok = True
        for v in rec.vars:
            if v.atom is None or v.entry is None:
                ok = False
                break
            ds = set(b.facts.norm(m[v.atom] - atom(v.atom)) for b, m in zip(backs, maps))
            if len(ds) != 1 or not list(ds)[0].is_const() or not s.facts.entails_eq(atom(v.atom) - v.entry - atom(kat, list(ds)[0].c)):
                ok = False
                break
        if ok:
            eng.exact_phi |= set(v.atom for v in rec.vars) | {kat}
    rec.entry_state = st
    mark = len(eng.exits)
    exits, fbacks = eng.run_region(F, hdr, {hdr: [s.copy()]})
    rec.backs = [(b, newmap(b)[0]) for b in fbacks]
    if eng.hooks.get('loop') and not eng.quiet:
        eng.hooks['loop'](eng, rec)

    def rechain(x):
        evs = x.events()
        x.ev = (st.ev, rec)
        for e in evs:
            x.ev = (x.ev, e)
        x.loopctx = st.loopctx
        x.approx = x.approx + (uid,)
        return x
    for e in eng.exits[mark:]:
        rechain(e.st)
    return [(t, rechain(x)) for t, x in exits]


def s_val(eng, v, uid):
    if v.ty[0] == 'f':
        return FV(v.ty, ('phi', uid, v.key))
    if v.ty == 'p' and v.region is not None and not v.opaque:
        return atom(v.region.addr) + atom(v.atom)
    if v.atom is None:
        return atom(T.get('optr', (uid, v.key), 0, (1 << 63) - 1))
    return atom(v.atom)
