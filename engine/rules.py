"""Rule evaluation on partitions: proved / violated with a concrete member / undecided."""
from lin import Lin, T, ZERO, ONE, atom, show
from absint import FV, UNDEF, c_not, c_and, c_or, c_ge, c_eq, c_ne, loc_of
import witness


def values_eq(eng, st, got, want):
    """condition under which got == want, True/False, or None if not comparable"""
    if isinstance(want, FV):
        if got == want:
            return True
        if not isinstance(got, FV) or got.ty != want.ty:
            return None
        if got.key[0] == 'bits' and want.key[0] == 'bits':
            return c_eq(st.facts.norm(got.key[1] - want.key[1]))
        return True if same_float(st, got, want) else ('feq', got, want)
    if got is UNDEF or got is None or isinstance(got, FV):
        return None
    w = eng.as_lin(st, want)
    g = eng.as_lin(st, got)
    return c_eq(st.facts.norm(g - w))


def same_float(st, got, want):
    """got is want narrowed and widened again, and the program compared the two as equal"""
    if not (got.key[0] == 'fpext' and isinstance(got.key[2], FV) and got.key[2].key[0] == 'fptrunc' and got.key[2].key[2] == want):
        return False
    for p, v in (('oeq', 1), ('une', 0)):
        for a in ((p, got, want), (p, want, got)):
            if ('fcmp', a) in T.key2id and st.facts.norm(atom(T.key2id[('fcmp', a)])) == Lin(v):
                return True
    return False


def neg(c):
    if c[0] == 'feq':
        return ('fne', c[1], c[2])
    return c_not(c)


class Rule:
    """accumulates verdicts for one analysed entry point"""
    def __init__(self, r, eng):
        self.r = r
        self.eng = eng

    def must(self, st, c, rule, key, text, ins=None, pre=()):
        """c has to hold on every member of st satisfying pre"""
        eng = self.eng
        if pre:
            s = st.copy()
            ss = [s]
            for p in pre:
                ss = [x for y in ss for x in eng.assume(y, p)]
            ok = True
            for x in ss:
                ok &= self.must(x, c, rule, key, text, ins)
            return ok
        if st.facts.dead or st.facts.infeasible():
            return True
        if c is None:
            self.r.unk('%s: %s: value not comparable (%s)' % (self.r.name, rule, text))
            return True
        if c is True or (c is not False and c[0] != 'feq' and eng.decide(st, c) is True):
            self.r.inst(rule)
            return True
        goal = [] if c is False else [neg(c)]
        try:
            m = witness.find(eng, st, goal)
        except witness.Opaque as e:
            self.r.unk('%s: %s: depends on %s (%s)' % (self.r.name, rule, e, text))
            return True
        except Exception as e:
            self.r.unk('%s: %s: %r (%s)' % (self.r.name, rule, e, text))
            return True
        if m is None:
            self.r.unk('%s: %s: neither proved nor refuted (%s)' % (self.r.name, rule, text))
            return True
        self.r.bad('%s %s' % (rule, key), '%s: %s [%s]; witness %s' % (loc_of(ins) if ins else self.r.name, text, self.r.name,
                                                                      witness.describe(m)[:600]))
        return False

    def never(self, st, rule, key, text, ins=None, pre=()):
        return self.must(st, False, rule, key, text, ins, pre)

    def equal(self, st, got, want, rule, key, text, ins=None, pre=()):
        return self.must(st, values_eq(self.eng, st, got, want), rule, key, text, ins, pre)
