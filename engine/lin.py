"""Linear expressions over symbolic atoms and the conjunctive linear-inequality
domain (a polyhedral abstract domain with exact rational arithmetic)."""
from math import gcd

INF = None


class Lin:
    """const + sum coef*atom; immutable; integer coefficients."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t          # tuple of (atom, coef), sorted by atom, no zero coef
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, v in o.t:
            n = d.get(a, 0) + v
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def atoms(self):
        return [a for a, _ in self.t]

    def coef(self, a):
        for x, v in self.t:
            if x == a:
                return v
        return 0

    def drop(self, a):
        return Lin(self.c, tuple((x, v) for x, v in self.t if x != a))

    def __repr__(self):
        return 'Lin(%s)' % show(self)


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def atom(a, k=1):
    return Lin(0, ((a, k),))


class AtomTable:
    def __init__(self):
        self.key2id = {}
        self.info = []      # (kind, args)
        self.lo = []
        self.hi = []
        self.defs = {}      # atom -> list of Lin >= 0 always valid (definition facts)
        self.fresh_n = 0

    def get(self, kind, args, lo, hi, defs=()):
        k = (kind, args)
        i = self.key2id.get(k)
        if i is None:
            i = len(self.info)
            self.key2id[k] = i
            self.info.append(k)
            self.lo.append(lo)
            self.hi.append(hi)
        return i

    def fresh(self, kind, lo, hi, tag=None):
        self.fresh_n += 1
        return self.get(kind, (self.fresh_n, tag), lo, hi)

    def kind(self, a):
        return self.info[a][0]

    def args(self, a):
        return self.info[a][1]


T = AtomTable()


def reset():
    global T
    T.__init__()


def show_atom(a, depth=3):
    k, args = T.info[a]
    if depth <= 0:
        return '%s#%d' % (k, a)

    def sa(x):
        if isinstance(x, Lin):
            return show(x, depth - 1)
        if isinstance(x, tuple):
            return '(' + ','.join(sa(y) for y in x) + ')'
        return str(x)
    if k == 'sym':
        return str(args[0])
    if k == 'addr':
        return '&' + str(args[0])
    if k == 'byte':
        return '%s[%s]' % (args[0], sa(args[1]))
    return '%s(%s)' % (k, ','.join(sa(x) for x in args))


def show(l, depth=3):
    if not isinstance(l, Lin):
        return str(l)
    ps = []
    for a, v in l.t:
        n = show_atom(a, depth)
        ps.append(n if v == 1 else '-' + n if v == -1 else '%s*%s' % (fmtint(v), n))
    if l.c or not ps:
        ps.append(fmtint(l.c))
    return ' + '.join(ps).replace('+ -', '- ')


def fmtint(v):
    if abs(v) >= 1 << 31:
        for b in (64, 63, 62, 48, 32, 31):
            for d in (-1, 0, 1):
                if abs(v) == (1 << b) + d:
                    return ('-' if v < 0 else '') + '2^%d%s' % (b, '' if d == 0 else '%+d' % d)
    return str(v)


def tighten(l):
    """Integer tightening of l >= 0."""
    if not l.t:
        return l
    g = 0
    for _, v in l.t:
        g = gcd(g, v)
        if g == 1:
            return l
    return Lin(l.c // g, tuple((a, v // g) for a, v in l.t))


# --------------------------------------------------------------------------
# exact feasibility of { rows >= 0, lo <= x <= hi } : bounded simplex (Bland)
# --------------------------------------------------------------------------
class LPGiveUp(Exception):
    pass


STATS = {'lp': 0, 'pivots': 0}


def feasible(rows, bounds, limit=400):
    """rows: list of Lin (>=0).  bounds: atom -> (lo,hi) with None for infinite.
    Returns True if the rational relaxation is feasible, False if infeasible.
    Fraction-free: row b means den[b] * b = sum of integer multiples of nonbasic variables, all of
    which sit at integer bounds; num[b] is the value of the right-hand side."""
    STATS['lp'] += 1
    vs = []
    seen = {}
    for r in rows:
        for a, _ in r.t:
            if a not in seen:
                seen[a] = len(vs)
                vs.append(a)
    n = len(vs)
    lo = [None] * n
    hi = [None] * n
    val = [0] * n
    for i, a in enumerate(vs):
        l, h = lo[i], hi[i] = bounds(a)
        if l is not None:
            if h is not None and l > h:
                return False
            val[i] = l
        elif h is not None:
            val[i] = h
    m = len(rows)
    # slack variables n..n+m-1, slack_j = row_j - const_j >= -const_j
    lo = lo + [-r.c for r in rows]
    hi = hi + [None] * m
    val += [0] * m
    tab, den, num = {}, {}, {}
    for j, r in enumerate(rows):
        tab[n + j] = row = {seen[a]: v for a, v in r.t}
        den[n + j] = 1
        num[n + j] = sum(v * val[k] for k, v in row.items())
    it = 0
    while True:
        bad = None
        for b in sorted(tab):
            l, h = lo[b], hi[b]
            if l is not None and num[b] < l * den[b]:
                bad, up = b, True
                break
            if h is not None and num[b] > h * den[b]:
                bad, up = b, False
                break
        if bad is None:
            return True
        it += 1
        STATS['pivots'] += 1
        if it > limit:
            raise LPGiveUp()
        row = tab[bad]
        piv = None
        for k in sorted(row):
            if (row[k] > 0) == up:
                if hi[k] is None or val[k] < hi[k]:
                    piv = k
                    break
            elif lo[k] is None or val[k] > lo[k]:
                piv = k
                break
        if piv is None:
            return False
        # pivot: bad leaves at its bound, piv enters:  |a| piv = sign(a) * (den bad - others)
        a = row.pop(piv)
        if a > 0:
            nrow = {k: -v for k, v in row.items()}
            nrow[bad] = den[bad]
        else:
            nrow = row
            nrow[bad] = -den[bad]
            a = -a
        del tab[bad], den[bad], num[bad]
        if a != 1:
            g = gcd(a, *nrow.values())
            if g != 1:
                a //= g
                nrow = {k: v // g for k, v in nrow.items()}
        val[bad] = lo[bad] if up else hi[bad]
        for b, rw in tab.items():
            f = rw.pop(piv, None)
            if f is not None:
                if a != 1:
                    g = gcd(a, f)
                    f //= g
                    g = a // g
                    if g != 1:
                        for k in rw:
                            rw[k] *= g
                        den[b] *= g
                for k, v in nrow.items():
                    x = rw.get(k, 0) + f * v
                    if x:
                        rw[k] = x
                    else:
                        del rw[k]
                if den[b] != 1:
                    g = gcd(den[b], *rw.values())
                    if g != 1:
                        den[b] //= g
                        for k in rw:
                            rw[k] //= g
                num[b] = sum(v * val[k] for k, v in rw.items())
        tab[piv] = nrow
        den[piv] = a
        num[piv] = sum(v * val[k] for k, v in nrow.items())


class Facts:
    """Conjunction of linear facts over atoms: eqs (solved form), bounds, ineqs, neqs."""
    __slots__ = ('eq', 'bd', 'ineq', 'neq', 'dead', 'memo', 'ver')

    def __init__(self):
        self.eq = {}
        self.bd = {}
        self.ineq = []
        self.neq = []
        self.dead = False
        self.memo = {}

    def copy(self):
        f = Facts()
        f.eq = dict(self.eq)
        f.bd = dict(self.bd)
        f.ineq = list(self.ineq)
        f.neq = list(self.neq)
        f.dead = self.dead
        f.memo = self.memo      # shared until mutated (copy-on-write: replaced on mutation)
        return f

    def _touch(self):
        self.memo = {}

    # -- normalisation -----------------------------------------------------
    def norm(self, l):
        eq = self.eq
        if not eq:
            return l
        for a, _ in l.t:
            if a in eq:
                break
        else:
            return l
        n = 0
        while True:
            hit = False
            c = l.c
            d = {}
            for a, v in l.t:
                e = eq.get(a)
                if e is None:
                    x = d.get(a, 0) + v
                    if x:
                        d[a] = x
                    else:
                        d.pop(a, None)
                else:
                    hit = True
                    c += e.c * v
                    for a2, v2 in e.t:
                        x = d.get(a2, 0) + v2 * v
                        if x:
                            d[a2] = x
                        else:
                            d.pop(a2, None)
            l = Lin(c, tuple(sorted(d.items())))
            if not hit:
                return l
            n += 1
            if n > 50:
                return l
            for a, _ in l.t:
                if a in eq:
                    break
            else:
                return l

    def abounds(self, a):
        b = self.bd.get(a)
        if b is None:
            return (T.lo[a], T.hi[a])
        return b

    def interval(self, l):
        lo = hi = l.c
        for a, v in l.t:
            x, y = self.abounds(a)
            if v < 0:
                x, y = y, x
            if lo is not None:
                lo = None if x is None else lo + v * x
            if hi is not None:
                hi = None if y is None else hi + v * y
            if lo is None and hi is None:
                break
        return lo, hi

    # -- adding facts --------------------------------------------------------
    def set_bound(self, a, lo, hi):
        l0, h0 = self.abounds(a)
        nl = l0 if lo is None else lo if l0 is None else max(l0, lo)
        nh = h0 if hi is None else hi if h0 is None else min(h0, hi)
        if (nl, nh) == (l0, h0):
            return
        self._touch()
        if nl is not None and nh is not None and nl > nh:
            self.dead = True
            return
        self.bd[a] = (nl, nh)
        if nl is not None and nl == nh:
            self.set_eq(a, Lin(nl))
        elif self.neq:
            self.recheck_neq()

    def set_eq(self, a, e):
        """a := e (e normalised, not containing a)."""
        self._touch()
        b = self.abounds(a)
        self.eq[a] = e
        # keep the bounds of the replaced atom
        if not e.is_const() or True:
            if b[0] is not None:
                self.add_ge(e - b[0])
            if b[1] is not None and not self.dead:
                self.add_ge((-e) + b[1])
        old = self.ineq
        self.ineq = []
        for r in old:
            if self.dead:
                return
            if r.coef(a):
                self.add_ge(self.norm(r))
            else:
                self.ineq.append(r)
        if self.neq:
            self.recheck_neq()

    def recheck_neq(self):
        old = self.neq
        self.neq = []
        for r in old:
            if self.dead:
                return
            self.add_ne(r)

    def add_ge(self, l):
        """assume l >= 0"""
        if self.dead:
            return
        l = tighten(self.norm(l))
        if not l.t:
            if l.c < 0:
                self.dead = True
            return
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            self.dead = True
            return
        if len(l.t) == 1:
            a, v = l.t[0]
            if v > 0:
                self.set_bound(a, -(l.c // v), None)
            else:
                self.set_bound(a, None, l.c // (-v))
            return
        for r in self.ineq:
            if r.t == l.t:
                if r.c <= l.c:
                    return
        self._touch()
        self.ineq = [r for r in self.ineq if r.t != l.t]
        nl = tuple((a, -v) for a, v in l.t)
        for r in self.ineq:
            if r.t == nl:
                if r.c + l.c < 0:
                    self.dead = True
                    return
                if r.c + l.c == 0:      # equality
                    self.add_eq(l)
                    return
        self.ineq.append(l)
        # interval propagation on this constraint
        self.propagate(l)

    def propagate(self, l):
        for a, v in l.t:
            # v*a >= -(rest max)
            m = l.c
            for x, w in l.t:
                if x != a:
                    b = self.abounds(x)
                    y = b[1] if w > 0 else b[0]
                    if y is None:
                        m = None
                        break
                    m += w * y
            if m is None:
                continue
            if v > 0:
                nb = -(m // v)
                lo, hi = self.abounds(a)
                if lo is None or nb > lo:
                    self.set_bound(a, nb, None)
            else:
                nb = m // (-v)
                lo, hi = self.abounds(a)
                if hi is None or nb < hi:
                    self.set_bound(a, None, nb)
            if self.dead:
                return

    def add_eq(self, l):
        if self.dead:
            return
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.dead = True
            return
        g = 0
        for _, v in l.t:
            g = gcd(g, v)
        if l.c % g:
            self.dead = True
            return
        if g != 1:
            l = Lin(l.c // g, tuple((a, v // g) for a, v in l.t))
        # unique mixed-radix digits?
        sol = self.digits(l)
        if sol is False:
            self.dead = True
            return
        if sol is not None:
            for a, v in sol:
                if self.dead:
                    return
                if a not in self.eq:
                    self.set_eq(a, Lin(v))
            return
        # solve for an atom with coefficient +-1 (prefer the newest, i.e. most derived)
        best = None
        for a, v in () if modaddr(l) else l.t:
            if v in (1, -1):
                if best is None or rank(a) > rank(best[0]):
                    best = (a, v)
        if best:
            a, v = best
            e = l.drop(a).scale(-v)     # v*a + rest = 0 -> a = -rest/v
            self.set_eq(a, e)
            # check interval of the equation
            return
        self._touch()
        for s in (l, -l):
            self.ineq.append(s)
            self.propagate(s)

    def digits(self, l):
        """l == 0 where l = sum c_i*a_i - V with a mixed radix system: unique solution."""
        if len(l.t) < 1:
            return None
        ts = sorted(l.t, key=lambda x: abs(x[1]))
        sgn = 1 if ts[0][1] > 0 else -1
        V = -l.c * sgn
        low = 0
        items = []
        for a, v in ts:
            v *= sgn
            if v <= 0:
                return None
            lo, hi = self.abounds(a)
            if lo is None or hi is None:
                return None
            V -= v * lo
            if low >= v and items:
                return None
            items.append((a, v, lo, hi))
            low += v * (hi - lo)
        if V < 0 or V > low:
            return False
        sol = []
        for a, v, lo, hi in reversed(items):
            d = V // v
            if d > hi - lo:
                return False
            V -= d * v
            sol.append((a, lo + d))
        if V:
            return False
        return sol

    def add_ne(self, l):
        if self.dead:
            return
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                self.dead = True
            return
        lo, hi = self.interval(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return
        if len(l.t) == 1:
            a, v = l.t[0]
            if (-l.c) % v:
                return
            k = -l.c // v
            x, y = self.abounds(a)
            if x == k:
                self.neq = [q for q in self.neq]
                self.set_bound(a, k + 1, None)
                return
            if y == k:
                self.set_bound(a, None, k - 1)
                return
        if lo == 0:
            self.add_ge(l - 1)
            return
        if hi == 0:
            self.add_ge((-l) - 1)
            return
        if l in self.neq or (-l) in self.neq:
            return
        if len(l.t) > 1 or self.ineq:
            if self.entails_ge(l):
                self.add_ge(l - 1)
                return
            if self.entails_ge(-l):
                self.add_ge((-l) - 1)
                return
        self._touch()
        self.neq.append(l)

    # -- entailment ------------------------------------------------------------
    def relevant(self, l, cap=60):
        want = set(l.atoms())
        rows = []
        pool = list(self.ineq)
        changed = True
        while changed and pool:
            changed = False
            rest = []
            for r in pool:
                if any(a in want for a, _ in r.t):
                    rows.append(r)
                    for a, _ in r.t:
                        if a not in want:
                            want.add(a)
                            changed = True
                else:
                    rest.append(r)
            pool = rest
            if len(rows) > cap:
                break
        return rows, want

    def entails_ge(self, l, depth=2):
        if self.dead:
            return True
        l = tighten(self.norm(l))
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if not l.t:
            return l.c >= 0
        k = (l, depth)
        r = self.memo.get(k)
        if r is None:
            r = self._entails(l, depth)
            self.memo[k] = r
        return r

    def _entails(self, l, depth):
        rows, want = self.relevant(l)
        if not rows:
            return False
        goal = (-l) - 1
        try:
            if not feasible(rows + [goal], self.abounds):
                return True
        except LPGiveUp:
            return False
        if depth <= 0:
            return False
        # integrality: case split on a small-range atom in the cone
        cand = []
        for a in want:
            lo, hi = self.abounds(a)
            if lo is not None and hi is not None and 0 < hi - lo <= 3:
                near = l.coef(a) != 0
                cand.append((0 if near else 1, hi - lo, a))
        cand.sort()
        for _, _, a in cand[:4]:
            lo, hi = self.abounds(a)
            ok = True
            for v in range(lo, hi + 1):
                f = self.copy()
                f.memo = {}
                f.set_bound(a, v, v)
                if f.dead:
                    continue
                if not f.entails_ge(l, depth - 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        if self.dead:
            return True
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        lo, hi = self.interval(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        g = 0
        for _, v in l.t:
            g = gcd(g, v)
        if l.c % g:
            return True
        if l in self.neq or (-l) in self.neq:
            return True
        if self.digits(l) is False:
            return True
        return self.entails_ge(l - 1) or self.entails_ge((-l) - 1)

    def infeasible(self):
        """Is the whole conjunction (rationally) unsatisfiable?"""
        if self.dead:
            return True
        if not self.ineq:
            return False
        try:
            if not feasible(list(self.ineq), self.abounds):
                return True
        except LPGiveUp:
            pass
        return False

    def min_of(self, l):
        """A proven lower bound of l (interval only)."""
        return self.interval(self.norm(l))[0]


def modaddr(l):
    """an equation about an address modulo something: solving it would hide the base of the pointer"""
    return any(T.info[a][0] == 'div' and any(T.info[b][0] == 'addr' for b, _ in T.info[a][1][0].t) for a, _ in l.t)


RANK = {'sym': 1, 'byte': 2, 'addr': 0}


def rank(a):
    return (RANK.get(T.info[a][0], 3), a)
