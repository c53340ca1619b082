"""Undoing a trail: the array that results from undoing the entries of a trail
from the last one down to a given one, and the lemmas about it."""
import z3
from .core import Lemma, And, Or, Not, I, R, B
from .sums import Induction

SEL = z3.ArraySort(I, B)
IDX = z3.ArraySort(I, I)


class Undo:
    """UNDO(sel, ti, tv, a, m, val): val with the selected entries m-1, ..., a put
    back in this order, where entry x puts tv[x] to index ti[x]."""

    def __init__(self, name, sort):
        self.sort = sort
        A = z3.ArraySort(I, sort)
        self.f = z3.Function(name, SEL, IDX, A, I, I, A, A)
        U = self.f
        s, s2 = z3.Consts('sel sel2', SEL)
        t, t2 = z3.Consts('ti ti2', IDX)
        w, w2, val, val2 = z3.Consts('tv tv2 val val2', A)
        a, b, m, v, x, e = z3.Ints('a b m v x e')
        D = self.definition
        rng = lambda lo, y, hi: And(lo <= y, y < hi)
        same = lambda lo, hi: z3.ForAll([x], z3.Implies(rng(lo, x, hi), And(s2[x] == s[x], t2[x] == t[x], w2[x] == w[x])),
                                        patterns=[s2[x], t2[x], w2[x]])
        two = (s, t, w, s2, t2, w2)
        N = lambda n: '%s (%s)' % (n, name)
        u = z3.Int('u')
        but = z3.ForAll([u], z3.Implies(u != v, val2[u] == val[u]), patterns=[val2[u]])

        def ind(n, vs, hyps, goal, local):
            """By induction from a = m downwards; goal and local take a."""
            return Induction(N(n), vs, hyps, lambda k: goal(m - k), None, lambda k: local(m - k), m - a)
        self.push = ind('a new entry undoes the change it was made for', two + (val, val2, v, a, m),
                        [same(a, m), s2[m], t2[m] == v, w2[m] == val[v], but],
                        lambda c: U(s2, t2, w2, c, m + 1, val2) == U(s, t, w, c, m, val),
                        lambda c: [D(s2, t2, w2, c, m + 1, val2), D(s, t, w, c, m, val), D(s2, t2, w2, c + 1, m + 1, val2)])
        self.other = ind('an entry that is not selected has no effect', two + (val, a, m),
                         [same(a, m), Not(s2[m])],
                         lambda c: U(s2, t2, w2, c, m + 1, val) == U(s, t, w, c, m, val),
                         lambda c: [D(s2, t2, w2, c, m + 1, val), D(s, t, w, c, m, val), D(s2, t2, w2, c + 1, m + 1, val)])
        self.frame = ind('equal entries undo the same', two + (val, a, m), [same(a, m)],
                         lambda c: U(s2, t2, w2, c, m, val) == U(s, t, w, c, m, val),
                         lambda c: [D(s2, t2, w2, c, m, val), D(s, t, w, c, m, val)])
        self.keep = ind('a change of an entry on the trail is undone', (s, t, w, val, val2, v, a, m, e),
                        [e < m, s[e], t[e] == v, but],
                        lambda c: And(z3.Implies(c <= e, U(s, t, w, c, m, val2) == U(s, t, w, c, m, val)),
                                      z3.ForAll([u], z3.Implies(u != v, U(s, t, w, c, m, val2)[u] == U(s, t, w, c, m, val)[u]),
                                                patterns=[U(s, t, w, c, m, val2)[u]])),
                        lambda c: [D(s, t, w, c, m, val2), D(s, t, w, c, m, val)])
        self.miss = ind('values without an entry stay', (s, t, w, val, v, a, m),
                        [z3.ForAll([x], z3.Implies(rng(a, x, m), Not(And(s[x], t[x] == v))), patterns=[t[x]])],
                        lambda c: z3.Implies(c >= a, U(s, t, w, c, m, val)[v] == val[v]), lambda c: [D(s, t, w, c, m, val)])
        self.split = Induction(N('undoing in two steps'), (s, t, w, val, a, b, m), [b <= m],
                               lambda k: U(s, t, w, b - k, m, val) == U(s, t, w, b - k, b, U(s, t, w, b, m, val)), None,
                               lambda k: [D(s, t, w, b - k, m, val), D(s, t, w, b - k, b, U(s, t, w, b, m, val))], b - a)
        self.append = ind('the only entry of an index can be undone last', (s, t, w, val, a, m),
                          [z3.ForAll([x], z3.Implies(rng(a, x, m), Not(And(s[x], s[m], t[x] == t[m]))), patterns=[t[x]])],
                          lambda c: z3.Implies(c >= a, U(s, t, w, c, m + 1, val) == z3.If(
                              s[m], z3.Store(U(s, t, w, c, m, val), t[m], w[m]), U(s, t, w, c, m, val))),
                          lambda c: [D(s, t, w, c, m + 1, val), D(s, t, w, c, m, val), D(s, t, w, c + 1, m + 1, val)])
        self.empty = Lemma(N('an empty trail'), (s, t, w, val, a, m), [a >= m, D(s, t, w, a, m, val)], U(s, t, w, a, m, val) == val)
        self.lemmas = [self.push, self.other, self.frame, self.keep, self.miss, self.split, self.append]

    def definition(self, s, t, w, a, m, val):
        U = self.f
        r = U(s, t, w, a + 1, m, val)
        return U(s, t, w, a, m, val) == z3.If(a >= m, val, z3.If(s[a], z3.Store(r, t[a], w[a]), r))

    def none(self, s, t, w, a, m, val):
        """Nothing to undo: follows from the definition."""
        return z3.Implies(a >= m, self.f(s, t, w, a, m, val) == val)

    def all(self):
        r = []
        for x in self.lemmas:
            r += x.parts()
        return r + [self.empty]


UV = Undo('UNDO_VALUES', R)
UI = Undo('UNDO_NUMBERS', I)


def undo_lemmas():
    return UV.all() + UI.all()
