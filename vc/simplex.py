"""Contracts of the simplex core of Solver<V>: the bookkeeping of basic and
non-basic variables, the equations, the queue of conflicting variables and the
active bounds. The contracts come in layers ("features") so that each property
is decided with the invariants it needs:

  eq     the values satisfy the equations of the tableau, the solutions of the
         equations never change
  queue  basic variables that violate a bound are queued, non-basic ones satisfy
         their bounds
"""
from .solver import *
from .sums import *

DEF = z3.Function('solution_of_the_original_equations', ROW, B)
_X = z3.Const('X!sol', ROW)


class S(Slv):
    """View of a solver including its trails."""

    def __init__(self, ex, st, path=Path('this', ())):
        super().__init__(ex, st, path)
        t = self.t
        a = t.f['assignment_trail_']
        self.mA, (self.TL, self.TI, self.TV) = a.len, (a.elem.f[k] for k in ('_0', '_1', '_2'))
        b = t.f['bound_trail_']
        self.mB, (self.BV, self.BR, self.BP) = b.len, (b.elem.f[k] for k in ('_0', '_1', '_2'))
        o = t.f['trail_offset_']
        self.n, f = o.len, o.elem.f
        self.OL, self.OB, self.OA = f['level'], f['bound'], f['assignment']
        self.CC = t.f['conflict_clause_']
        self.PQ = t.f['propagate_queue_']
        self.w = View(st.store['$world'])

    def basic(self, i):
        return self.IDX[self.nn + i]

    def has_lo(self, v):
        return self.LO[v] != 0

    def has_up(self, v):
        return self.UP[v] != 0

    def lo(self, v):
        return self.B.val[self.LO[v]]

    def up(self, v):
        return self.B.val[self.UP[v]]

    def below(self, v, x=None):
        x = self.VAL[v] if x is None else x
        return And(self.has_lo(v), x < self.lo(v))

    def above(self, v, x=None):
        x = self.VAL[v] if x is None else x
        return And(self.has_up(v), x > self.up(v))

    def conflict(self, v, x=None):
        return Or(self.below(v, x), self.above(v, x))

    def sol(self, x):
        return SOL(self.A, self.IDX, self.nn, self.nb, x)

    def sol_def(self, x):
        return sol_def(self.A, self.IDX, self.nn, self.nb, x)

    def sol_at(self, x, i):
        return sol_at(self.A, self.IDX, self.nn, self.nb, x, i)


def rng(lo, v, hi):
    return And(lo <= v, v < hi)


def allv(s, f, *pats):
    v = z3.Int('v')
    return z3.ForAll([v], z3.Implies(rng(0, v, s.N), f(v)), patterns=[p(v) for p in pats])


def cong(k, i, *fs):
    """An instance of congruence, as a hint for the solvers."""
    return z3.Implies(k == i, And([f(k) == f(i) for f in fs]))


def perm(s):
    """Positions and variables correspond one to one."""
    return [('number of variables', And(s.nn >= 0, s.nb >= 0, s.N == s.nn + s.nb)),
            ('each position holds a variable', allv(s, lambda p: And(rng(0, s.IDX[p], s.N), s.REV[s.IDX[p]] == p),
                                                    lambda p: s.IDX[p])),
            ('each variable has a position', allv(s, lambda v: And(rng(0, s.REV[v], s.N), s.IDX[s.REV[v]] == v),
                                                  lambda v: s.REV[v]))]


def shape(s):
    """Entries of the tableau lie within its rows and columns."""
    k, l = z3.Ints('k l')
    return [('no entries outside', z3.ForAll([k, l], z3.Implies(And(k >= 0, l >= 0, Or(k >= s.nb, l >= s.nn)), s.A[k][l] == 0),
                                             patterns=[s.A[k][l]]))]


def eqs(s):
    return [('the values satisfy the equations', s.sol(s.VAL))]


def same_def(s):
    return [('the solutions of the equations are the original ones', z3.ForAll(
        [_X], s.sol(_X) == DEF(_X), patterns=[s.sol(_X)]))]


def trails(s):
    """The trails refer to variables, their offsets grow with the levels."""
    k, l, x = z3.Ints('k l x')
    return [('trail of values', And(s.mA >= 0, z3.ForAll([x], z3.Implies(rng(0, x, s.mA), rng(0, s.TI[x], s.N)), patterns=[s.TI[x]]))),
            ('trail of bounds', And(s.mB >= 0, z3.ForAll([x], z3.Implies(rng(0, x, s.mB), rng(0, s.BV[x], s.N)), patterns=[s.BV[x]]))),
            ('offsets lie within the trails', And(s.n >= 0, z3.ForAll([k], z3.Implies(rng(0, k, s.n), And(
                0 <= s.OA[k], s.OA[k] <= s.mA, 0 <= s.OB[k], s.OB[k] <= s.mB)), patterns=[s.OA[k], s.OB[k]]))),
            ('offsets grow', z3.ForAll([k, l], z3.Implies(And(0 <= k, k < l, l < s.n), And(
                s.OA[k] <= s.OA[l], s.OB[k] <= s.OB[l], s.OL[k] < s.OL[l])), patterns=[
                    z3.MultiPattern(s.OA[k], s.OA[l]), z3.MultiPattern(s.OB[k], s.OB[l]), z3.MultiPattern(s.OL[k], s.OL[l])]))]


def queue(s):
    """The queue holds every basic variable that violates a bound."""
    v = z3.Int('v')
    return [('queued variables exist', z3.ForAll([v], z3.Implies(s.Q[v], rng(0, v, s.N)), patterns=[s.Q[v]])),
            ('flagged variables are in the queue', allv(s, lambda v: z3.Implies(s.QUEUED[v], s.Q[v]), lambda v: s.QUEUED[v])),
            ('conflicting basic variables are in the queue', allv(s, lambda v: z3.Implies(
                And(s.REV[v] >= s.nn, s.conflict(v)), s.Q[v]), lambda v: s.VAL[v], lambda v: s.Q[v]))]


def nonbasic_ok(s):
    return [('non-basic variables satisfy their bounds', allv(s, lambda v: z3.Implies(
        s.REV[v] < s.nn, Not(s.conflict(v))), lambda v: s.VAL[v]))]


def all_ok(s):
    return [('all variables satisfy their bounds', allv(s, lambda v: Not(s.conflict(v)), lambda v: s.VAL[v]))]


def active(s):
    """The active bounds exist and belong to their variables."""
    b = s.B
    return [('active lower bounds', allv(s, lambda v: And(s.LO[v] >= 0, z3.Implies(s.LO[v] != 0, And(
        s.LO[v] < b.n, b.var[s.LO[v]] == v, Or(b.rel[s.LO[v]] == GE, b.rel[s.LO[v]] == EQ)))), lambda v: s.LO[v])),
            ('active upper bounds', allv(s, lambda v: And(s.UP[v] >= 0, z3.Implies(s.UP[v] != 0, And(
                s.UP[v] < b.n, b.var[s.UP[v]] == v, Or(b.rel[s.UP[v]] == LE, b.rel[s.UP[v]] == EQ)))), lambda v: s.UP[v]))]


def consistent(s):
    return [('lower bounds are below upper bounds', allv(s, lambda v: z3.Implies(
        And(s.has_lo(v), s.has_up(v)), s.lo(v) <= s.up(v)), lambda v: s.LO[v], lambda v: s.UP[v]))]


def asserted(s):
    """The literals of active bounds are true."""
    return [('active bounds are asserted', allv(s, lambda v: And(
        z3.Implies(s.has_lo(v), s.w.true[s.B.lit[s.LO[v]]]), z3.Implies(s.has_up(v), s.w.true[s.B.lit[s.UP[v]]])),
        lambda v: s.LO[v], lambda v: s.UP[v]))]


def boundsok(s, c, n, x):
    """The bounds of all literals whose negations are the first n elements of c hold."""
    b = z3.Int('b')
    return z3.ForAll([b], z3.Implies(And(0 < b, b < s.B.n, HAS(c, n, -s.B.lit[b])), s.B.holds(b, x[s.B.var[b]])),
                     patterns=[s.B.lit[b]])


def implied(s, c, n, f):
    """f holds for all solutions of the equations that satisfy these bounds."""
    x = z3.Const('X', ROW)
    return z3.ForAll([x], z3.Implies(And(DEF(x), boundsok(s, c, n, x)), f(x)), patterns=[DEF(x)])


def infeasible(s, c, n):
    """No solution of the equations satisfies the bounds of all literals whose
    negations are the first n elements of c."""
    x = z3.Const('X', ROW)
    return z3.ForAll([x], Not(And(DEF(x), boundsok(s, c, n, x))), patterns=[DEF(x)])


def refuted(s, c, n):
    """All literals of the clause are false."""
    x = z3.Int('x')
    return z3.ForAll([x], z3.Implies(HAS(c, n, x), s.w.true[-x]), patterns=[HAS(c, n, x)])


def pqueue(s):
    x = z3.Int('x')
    return [('rows to propagate exist', z3.ForAll([x], z3.Implies(rng(0, x, s.PQ.len), rng(0, s.PQ.elem[x], s.nb)),
                                                  patterns=[s.PQ.elem[x]]))]


def kept(a, b, *fields):
    return [('%s stays' % f, getattr(a, f) == getattr(b, f)) for f in fields]


VARF = lambda c, *fs: [Path(c.tpath.root, c.tpath.acc + (('f', 'variables_'), ('i', None), ('f', f))) for f in fs]


def mods_values(c):
    return VARF(c, 'value', 'level', 'queued', 'propagate') + [
        F(c.tpath, n) for n in ('assignment_trail_', 'conflicts_', 'propagate_queue_')]


class Layer:
    """The contracts for a set of features."""

    def __init__(self, p, V, *features):
        self.p, self.V, self.f = p, V, set(features)
        self.N = 'Solver<%s>::' % V
        e = enums(p, 'State')
        self.SAT, self.UNSAT, self.UNKNOWN = e['Satisfiable'], e['Unsatisfiable'], e['Unknown']

    def has(self, f):
        return f in self.f

    def pre(self, c):
        return S(c.ex, c.pre_st, c.tpath)

    def post(self, c):
        return S(c.ex, c.post_st, c.tpath)

    # ---- invariants
    def inv(self, s, eq=True, nonbasic=True):
        r = perm(s) + pqueue(s) + shape(s) + trails(s) + queue(s)[:1]
        if self.has('eq'):
            r += (eqs(s) if eq else []) + same_def(s)
        if self.has('queue'):
            r += queue(s)[1:] + active(s) + consistent(s)
            if nonbasic is True:
                r += nonbasic_ok(s)
        if self.has('clause'):
            r += asserted(s)
        return r

    # ---- enqueue_
    def enqueue_(self):
        def pre(c):
            a = self.pre(c)
            return [('row', rng(0, c.arg(0), a.nb))] + perm(a) + pqueue(a) + queue(a)[:2 if self.has('queue') else 1]

        def post(c):
            a, b = self.pre(c), self.post(c)
            x = z3.Int('x')
            v = a.basic(c.arg(0))
            r = pqueue(b) + queue(b)[:1]
            if self.has('queue'):
                r += queue(b)[1:2] + [
                    ('the variable is queued if it violates a bound', z3.Implies(a.conflict(v), b.Q[v])),
                    ('nothing leaves the queue', z3.ForAll([x], z3.Implies(a.Q[x], b.Q[x]), patterns=[a.Q[x], b.Q[x]]))]
            return r
        return Contract(self.N + 'enqueue_', pre, post, lambda c: VARF(c, 'queued', 'propagate') + [
            F(c.tpath, n) for n in ('conflicts_', 'propagate_queue_')])

    # ---- values
    def moved(self, a, b, j, th, skip=None):
        """The non-basic variable in column j has moved by th, the basic ones follow."""
        i, v = z3.Ints('i v')
        return [('basic variables follow', z3.ForAll([i], z3.Implies(rng(0, i, a.nb), b.VAL[a.basic(i)] ==
                                                                     a.VAL[a.basic(i)] + PROD(a.A[i][j], th)),
                                                     patterns=[a.A[i]]), [lambda i: [zero_fact(a.A[i][j], th)]]),
                ('the other non-basic variables stay', z3.ForAll([v], z3.Implies(And(rng(0, v, a.nn), v != j), b.VAL[a.IDX[v]] ==
                                                                                a.VAL[a.IDX[v]]), patterns=[a.IDX[v]]))]

    def follows(self, a, b, done, j, th, x):
        """Values of the basic variables while column j is walked."""
        i = z3.Int('i')
        return z3.ForAll([i], z3.Implies(And(rng(0, i, a.nb), i != x), b.VAL[a.basic(i)] == z3.If(
            done[i], a.VAL[a.basic(i)] + PROD(a.A[i][j], th), a.VAL[a.basic(i)])), patterns=[a.A[i]])

    def walk_inv(self, L, j, th, moved, skip=None):
        """Invariant of the walk along column j in update_ and pivot_; moved: values
        of variables changed outside the walk, as pairs (variable, value)."""
        a, b = S(L.ex, L.f.pre_st, L.f.tpath), S(L.ex, L.st, L.f.tpath)
        done = L.pos
        i, v = z3.Ints('i v')
        r = [('basic variables follow', self.follows(a, b, done, j, th, z3.IntVal(-1) if skip is None else skip))]
        ex = And([v != x for x, _ in moved]) if moved else z3.BoolVal(True)
        r += [('non-basic variables stay', z3.ForAll([v], z3.Implies(And(rng(0, v, a.N), a.REV[v] < a.nn, ex), b.VAL[v] == a.VAL[v]),
                                                     patterns=[b.VAL[v]]))]
        r += [('moved variable %d' % k, b.VAL[x] == y) for k, (x, y) in enumerate(moved)]
        r += pqueue(b) + trails(b) + queue(b)[:1]
        if self.has('queue'):
            r += queue(b)[1:2] + [('conflicting basic variables are in the queue', allv(b, lambda v: z3.Implies(
                And(a.REV[v] >= a.nn, b.conflict(v), *([v != x for x, _ in moved])), b.Q[v]), lambda v: b.VAL[v], lambda v: b.Q[v]))]
        return r

    def update_(self):
        def pre(c):
            a = self.pre(c)
            r = self.inv(a, nonbasic=False) + [('column', rng(0, c.arg(1), a.nn))]
            if self.has('queue'):
                x = a.IDX[c.arg(1)]
                r += [('the new value satisfies the bounds', Not(a.conflict(x, c.arg(2)))),
                      ('the other non-basic variables satisfy their bounds', allv(a, lambda v: z3.Implies(
                          And(a.REV[v] < a.nn, v != x), Not(a.conflict(v))), lambda v: a.VAL[v]))]
            return r

        def post(c):
            a, b = self.pre(c), self.post(c)
            j, v = c.arg(1), c.arg(2)
            x = a.IDX[j]
            th = v - a.VAL[x]
            i = z3.Int('i')
            r = [('[cut] the variable gets the value', b.VAL[x] == v)]
            r += [('[cut] ' + l, *f) for l, *f in self.moved(a, b, j, th)]
            if self.has('eq'):
                r += [('[cut] each equation holds', z3.ForAll([i], z3.Implies(rng(0, i, a.nb), eqn(b.A, b.IDX, b.nn, i, b.VAL)),
                                                              patterns=[b.A[i]]),
                       [lambda i: [UPD.at(a.A[i], a.VAL, b.VAL, a.IDX, a.nn, j, th), a.sol_at(a.VAL, i)]]),
                      ('the values satisfy the equations', b.sol(b.VAL), [b.sol_def(b.VAL)])]
            if self.has('queue'):
                r += queue(b) + nonbasic_ok(b)
            return r + pqueue(b) + trails(b) + queue(b)[:1]

        def inv(L):
            a = S(L.ex, L.f.pre_st, L.f.tpath)
            j, v = L.f.arg(1), L.f.arg(2)
            return self.walk_inv(L, j, v - a.VAL[a.IDX[j]], [])
        return Contract(self.N + 'update_', pre, post, mods_values, loops=[LoopSpec(inv)])

    def pivot_(self):
        def pre(c):
            a = self.pre(c)
            i, j = c.arg(1), c.arg(2)
            q = [('the new value satisfies the bounds', Not(a.conflict(a.basic(i), c.arg(3))))] if self.has('queue') else []
            return self.inv(a) + q + [('row', rng(0, i, a.nb)), ('column', rng(0, j, a.nn)),
                                                  ('the entry is not zero', a.A[i][j] != 0)]

        def post(c):
            a, b = self.pre(c), self.post(c)
            i, j, v = c.arg(1), c.arg(2), c.arg(3)
            xi, xj = a.basic(i), a.IDX[j]
            th = QUOT(v - a.VAL[xi], a.A[i][j])
            k, l = z3.Ints('k l')
            r = [('[cut] the basic variable gets the value', b.VAL[xi] == v),
                 ('[cut] the non-basic variable moves accordingly', b.VAL[xj] == a.VAL[xj] + th)]
            r += [('[cut] the basic variable follows', a.VAL[xi] + PROD(a.A[i][j], th) == v, [quot_fact(v - a.VAL[xi], a.A[i][j])]),
                  ('[cut] the other basic variables follow', z3.ForAll([k], z3.Implies(
                      And(rng(0, k, a.nb), k != i), b.VAL[a.basic(k)] == a.VAL[a.basic(k)] + PROD(a.A[k][j], th)),
                      patterns=[a.A[k]]), [lambda k: [zero_fact(a.A[k][j], th)]])]
            for lb, f, *h in self.moved(a, b, j, th):
                r.append(('[cut] ' + lb, f, [lambda k: [cong(k, i, a.basic, lambda k: b.VAL[a.basic(k)], lambda k: a.A[k][j], lambda k: PROD(a.A[k][j], th))]]))
            r += [('[cut] the two variables swap positions', And(
                z3.ForAll([l], z3.Implies(rng(0, l, a.N), b.IDX[l] == z3.If(l == j, a.IDX[a.nn + i], z3.If(l == a.nn + i, a.IDX[j], a.IDX[l]))), patterns=[b.IDX[l]]),
                z3.ForAll([l], z3.Implies(rng(0, l, a.N), b.REV[l] == z3.If(l == xi, j, z3.If(l == xj, a.nn + i, a.REV[l]))), patterns=[b.REV[l]])))]
            r += [('[cut] ' + lb, *f) for lb, *f in perm(b)]
            if self.has('eq'):
                r += [('[cut] each equation holds before the exchange', z3.ForAll([k], z3.Implies(
                    rng(0, k, a.nb), eqn(a.A, a.IDX, a.nn, k, b.VAL)), patterns=[a.A[k]]),
                    [lambda k: [UPD.at(a.A[k], a.VAL, b.VAL, a.IDX, a.nn, j, th), a.sol_at(a.VAL, k)]]),
                    ('[cut] the solutions stay', z3.ForAll([_X], a.sol(_X) == b.sol(_X), patterns=[b.sol(_X)]),
                     [lambda X: [FWD.at(a.A, b.A, a.IDX, b.IDX, a.nn, a.nb, i, j, X)]]),
                    ('the values satisfy the equations', b.sol(b.VAL), [a.sol_def(b.VAL), mark(b.sol(b.VAL))])]
                r += same_def(b)
            r += shape(b)
            if self.has('queue'):
                r += queue(b) + nonbasic_ok(b)
            return r + pqueue(b) + trails(b) + queue(b)[:1]

        def inv(L):
            a = S(L.ex, L.f.pre_st, L.f.tpath)
            i, j, v = L.f.arg(1), L.f.arg(2), L.f.arg(3)
            xi, xj = a.basic(i), a.IDX[j]
            th = QUOT(v - a.VAL[xi], a.A[i][j])
            return self.walk_inv(L, j, th, [(xi, v), (xj, a.VAL[xj] + th)], skip=i)
        return Contract(self.N + 'pivot_', pre, post, lambda c: mods_values(c) + VARF(c, 'index', 'reverse_index') + [
            F(c.tpath, 'tableau_'), F(c.tpath, 'statistics_', 'pivots')], loops=[LoopSpec(inv)])


    # ---- select_
    def select_(self):
        def pre(c):
            return self.inv(self.pre(c))

        def ret(c, a):
            return c.narg(0), c.narg(1), ptr(c.ex, c.narg(2))

        def post(c):
            a, b = self.pre(c), self.post(c)
            i, j, v = ret(c, a)
            r = pqueue(b) + queue(b)[:1]
            unknown = c.rval == self.UNKNOWN
            r += [('row and column exist', z3.Implies(unknown, And(rng(0, i, a.nb), rng(0, j, a.nn)))),
                  ('there is a bound', z3.Implies(unknown, v != 0)),
                  ('the entry is not zero', z3.Implies(unknown, a.A[i][j] != 0))]
            if self.has('queue'):
                x = a.basic(i)
                r += [('the value is the violated bound', z3.Implies(unknown, Or(
                    And(a.below(x), v == a.LO[x]), And(a.above(x), v == a.UP[x])))),
                      ('without conflict, all variables satisfy their bounds', z3.Implies(c.rval == self.SAT, And(
                          [f for _, f in all_ok(b)])))]
                r += queue(b)[1:]
            r += [('no other result', Or(unknown, c.rval == self.SAT, c.rval == self.UNSAT))]
            if self.has('clause'):
                n, C = b.CC.len, b.CC.elem
                r += [('the clause rules out only impossible combinations', z3.Implies(c.rval == self.UNSAT, infeasible(b, C, n))),
                      ('the clause is conflicting', z3.Implies(c.rval == self.UNSAT, refuted(b, C, n)))]
            return r

        def inv(L):
            b = S(L.ex, L.st, L.f.tpath)
            return pqueue(b) + queue(b)[:3 if self.has('queue') else 1]

        def walk(L):
            a, b = S(L.ex, L.f.pre_st, L.f.tpath), S(L.ex, L.st, L.f.tpath)
            i, kk, lower = L.v('i'), L.v('kk'), L.v('lower')
            xi = L.v('ii')
            ri, rj, rv = (L.val(L.f.apath(k)) for k in range(3))
            rv = ptr(L.ex, rv)
            r = [('the chosen entry', Or(kk == a.N, And(ri == i, rng(0, rj, a.nn), kk == a.IDX[rj], a.A[i][rj] != 0,
                                                        rv == z3.If(lower, a.LO[xi], a.UP[xi]))))]
            if self.has('clause'):
                n, C = b.CC.len, b.CC.elem
                l = z3.Int('l')
                up = lower == (a.A[i][l] > 0)
                x = a.IDX[l]
                first = z3.If(lower, a.LO[xi], a.UP[xi])
                r += [('the clause has a literal', n >= 1), ('the violated bound is in the clause', HAS(C, n, -a.B.lit[first])),
                      ('the clause is conflicting', refuted(b, C, n)),
                      ('variables that cannot be changed', z3.ForAll([l], z3.Implies(And(L.pos[l], kk == a.N), And(
                          z3.Implies(up, And(a.has_up(x), a.VAL[x] >= a.up(x), HAS(C, n, -a.B.lit[a.UP[x]]))),
                          z3.Implies(Not(up), And(a.has_lo(x), a.VAL[x] <= a.lo(x), HAS(C, n, -a.B.lit[a.LO[x]]))))),
                          patterns=[a.A[i][l]]))]
            return r
        def mono(L):
            a = S(L.ex, L.f.pre_st, L.f.tpath)
            i = L.v('i')
            X = z3.Const('X', ROW)
            return [z3.ForAll([X], And(MONO.at(a.A[i], X, a.VAL, a.IDX, a.nn), MONO.at(a.A[i], a.VAL, X, a.IDX, a.nn),
                                       a.sol_at(X, i)), patterns=[DEF(X)]), a.sol_at(a.VAL, i), mark(a.sol(a.VAL))]
        return Contract(self.N + 'select_', pre, post, lambda c: VARF(c, 'queued') + [
            F(c.tpath, 'conflicts_'), F(c.tpath, 'conflict_clause_'), c.apath(0), c.apath(1), c.apath(2)],
            loops=[LoopSpec(inv), LoopSpec(walk, exit_hints=mono if self.has('clause') else None)])

    # ---- bounds
    def weak(self, s):
        """What remains if a bound could not be asserted."""
        r = perm(s) + pqueue(s) + shape(s) + trails(s) + queue(s)[:1]
        if self.has('eq'):
            r += eqs(s) + same_def(s)
        if self.has('queue'):
            r += queue(s)[1:2] + active(s)
        if self.has('clause'):
            r += asserted(s)
        return r

    def guarded(self, g, fs):
        return [(l, z3.Implies(g, f), *h) for l, f, *h in fs]

    def update_bound_(self):
        def bound(c):
            return ref_id(c.apath(1))

        def pre(c):
            a = self.pre(c)
            return self.inv(a) + valid_bound(a, bound(c)) + (
                [('the constraint is asserted', a.w.true[a.B.lit[bound(c)]])] if self.has('clause') else [])

        def post(c):
            a, b = self.pre(c), self.post(c)
            r = self.guarded(c.rval, self.inv(b)) + self.guarded(Not(c.rval), self.weak(b))
            r += grows(a, b)
            if self.has('queue'):
                r += self.guarded(c.rval, [('the bound is enforced', enforced(b, bound(c)))] + tightened(a, b))
            return r
        return Contract(self.N + 'update_bound_', pre, post, lambda c: mods_values(c) + VARF(c, 'lower_bound', 'upper_bound') + [
            F(c.tpath, 'bound_trail_'), F(c.tpath, 'conflict_clause_')] + WORLD_ROOTS[:3])

    def propagate_(self):
        full = self.has('prop')

        def pre(c):
            a = self.pre(c)
            r = perm(a) + pqueue(a) + shape(a)
            if full:
                r += same_def(a) + active(a) + vbounds(a)
            return r

        def inv(L):
            b = S(L.ex, L.st, L.f.tpath)
            return pqueue(b) + grows(self.pre(L.f), b)

        def loc(L):
            a = self.pre(L.f)
            lo, up, lc, uc = (view(L.v(n)) for n in ('lower', 'upper', 'lower_clause', 'upper_clause'))
            return a, L.v('i'), lo, up, lc, uc

        def provides(L):
            """Each entry so far has the bounds that are needed."""
            a, i, lo, up, lc, uc = loc(L)
            l = z3.Int('l')
            q, x = a.A[i][l], a.IDX[l]
            hyp = lambda o, p, n: z3.ForAll([l], z3.Implies(And(L.pos[l], o.has), z3.If(q > 0, p(x), n(x))), patterns=[q])
            return [('a lower bound exists', hyp(lo, a.has_lo, a.has_up)), ('an upper bound exists', hyp(up, a.has_up, a.has_lo)),
                    ('no value so far', And(z3.Implies(lo.has, lo.val == 0), z3.Implies(up.has, up.val == 0)))]

        def adds(L):
            """The clauses imply the bounds for the sum of the entries so far."""
            a, i, lo, up, lc, uc = loc(L)
            m = MASK(a.A[i], L.pos)
            sm = lambda x: SUM(m, x, a.IDX, a.nn)
            return [('lengths', And(lc.len >= 0, uc.len >= 0)),
                    ('the sum so far has the lower bound', z3.Implies(lo.has, implied(a, lc.elem, lc.len, lambda x: sm(x) >= lo.val))),
                    ('the sum so far has the upper bound', z3.Implies(up.has, implied(a, uc.elem, uc.len, lambda x: sm(x) <= up.val)))]

        def adds_hints(L):
            a, i, lo, up, lc, uc = loc(L)
            k = L.st.store['$current']
            done = L.bi
            before = L._pos(L.bi) if callable(L._pos) else L._pos
            m = MASK(a.A[i], before)
            q, v = a.A[i][k], a.IDX[k]
            X = z3.Const('X', ROW)
            return [MASKADD.goal_at(a.A[i], before, k), mask_def(a.A[i], before), m[k] == z3.If(before[k], a.A[i][k], z3.RealVal(0)),
                    z3.ForAll([X], And(ADD.at(m, X, a.IDX, a.nn, k, q), pmono(q, X[v], a.lo(v)), pmono(q, X[v], a.up(v))),
                              patterns=[DEF(X)])]

        def adds_entry(L):
            a, i, lo, up, lc, uc = loc(L)
            X = z3.Const('X', ROW)
            return [mask_def(a.A[i], z3.K(I, False)), z3.ForAll([X], MASK0.at(a.A[i], X, a.IDX, a.nn), patterns=[DEF(X)])]

        def adds_exit(L):
            a, i, lo, up, lc, uc = loc(L)
            m = MASK(a.A[i], L.pos)
            X = z3.Const('X', ROW)
            return [mask_def(a.A[i], L.pos), z3.ForAll([X], And(
                a.sol_at(X, i), SAME.at(m, a.A[i], X, X, a.IDX, a.IDX, a.nn)), patterns=[DEF(X)])]

        def bounded(which):
            def f(L):
                a, i, lo, up, lc, uc = loc(L)
                y = a.basic(i)
                r = inv(L) + [('lengths', And(lc.len >= 0, uc.len >= 0))]
                r += [('the clause implies the upper bound', z3.Implies(up.has, implied(a, uc.elem, uc.len, lambda x: x[y] <= up.val))),
                      ('the clause implies the lower bound', z3.Implies(lo.has, implied(a, lc.elem, lc.len, lambda x: x[y] >= lo.val)))]
                return r
            return f
        loops = [LoopSpec(provides), LoopSpec(adds, hints=adds_hints, entry_hints=adds_entry, exit_hints=adds_exit),
                 LoopSpec(bounded('upper')), LoopSpec(bounded('lower')), LoopSpec(inv), LoopSpec(inv)]
        return Contract(self.N + 'propagate_', pre, lambda c: pqueue(self.post(c)) + grows(self.pre(c), self.post(c)),
                        lambda c: VARF(c, 'propagate') + [
                            F(c.tpath, 'propagate_queue_'), F(c.tpath, 'statistics_', 'propagated_bounds')] + WORLD_ROOTS[:3],
                        loops=loops)

    def store_sat_assignment(self):
        def post(c):
            a, b = self.pre(c), self.post(c)
            return [('the trail is empty', b.mA == 0), ('nothing is to be restored', z3.ForAll([_k], z3.Implies(
                rng(0, _k, b.n), b.OA[_k] == 0), patterns=[b.OA[_k]])),
                    ('levels of changed variables are forgotten', z3.ForAll([_k], z3.Implies(
                        rng(0, _k, a.mA), b.LVL[a.TI[_k]] == 0), patterns=[a.TI[_k]])),
                    ('other levels stay', z3.ForAll([_k], z3.Implies(b.LVL[_k] != 0, b.LVL[_k] == a.LVL[_k]), patterns=[b.LVL[_k]]))] + trails(b)

        def first(L):
            a, b = self.pre(L.f), S(L.ex, L.st, L.f.tpath)
            return [('position', And(0 <= L.pos, L.pos <= a.mA)),
                    ('levels so far', z3.ForAll([_k], z3.Implies(rng(0, _k, L.pos), b.LVL[a.TI[_k]] == 0), patterns=[a.TI[_k]])),
                    ('other levels stay', z3.ForAll([_k], z3.Implies(b.LVL[_k] != 0, b.LVL[_k] == a.LVL[_k]), patterns=[b.LVL[_k]]))]

        def second(L):
            a, b = self.pre(L.f), S(L.ex, L.st, L.f.tpath)
            return [('position', And(0 <= L.pos, L.pos <= a.n)),
                    ('offsets so far', z3.ForAll([_k], z3.Implies(rng(L.pos, _k, a.n), b.OA[_k] == 0), patterns=[b.OA[_k]])),
                    ('other offsets', z3.ForAll([_k], z3.Implies(rng(0, _k, L.pos), b.OA[_k] == a.OA[_k]), patterns=[b.OA[_k]]))]
        return Contract(self.N + 'store_sat_assignment', lambda c: perm(self.pre(c)) + trails(self.pre(c)), post, lambda c: VARF(c, 'level') + [
            F(c.tpath, 'assignment_trail_'), Path(c.tpath.root, c.tpath.acc + (('f', 'trail_offset_'), ('i', None), ('f', 'assignment')))],
            loops=[LoopSpec(first), LoopSpec(second)])

    def solve(self):
        def lits(c):
            t = c.arg(1)
            return t.len, t.elem

        def known(s, n, L):
            """All bounds of the first n literals are enforced."""
            x, k = z3.Ints('x k')
            return z3.ForAll([x, k], z3.Implies(And(rng(0, x, s.blen), rng(0, k, n), s.KEY[x] == L[k]), enforced(s, s.BID[x])),
                             patterns=[z3.MultiPattern(s.KEY[x], L[k])])

        def pre(c):
            a = self.pre(c)
            r = self.inv(a) + [('bounds exist', bounds_wf(a)), ('equal keys are adjacent', adjacent(a.bounds))]
            if self.has('prop'):
                r += vbounds(a)
            if self.has('clause'):
                n, L = lits(c)
                k = z3.Int('k')
                r += [('the literals are true', z3.ForAll([k], z3.Implies(rng(0, k, n), a.w.true[L[k]]), patterns=[L[k]]))]
            return r

        def post(c):
            a, b = self.pre(c), self.post(c)
            n, L = lits(c)
            r = self.guarded(c.rval, self.inv(b)) + self.guarded(Not(c.rval), self.weak(b))
            r += grows(a, b)
            if self.has('queue'):
                r += self.guarded(c.rval, all_ok(b) + tightened(a, b) + [
                    ('the constraints of the literals are enforced', known(b, n, L)),
                    ('the asserted constraints hold', z3.ForAll([_x], z3.Implies(And(rng(0, _x, b.blen), z3.Exists([_k], And(
                        rng(0, _k, n), L[_k] == b.KEY[_x]))), b.B.holds(b.BID[_x], b.VAL[b.B.var[b.BID[_x]]])), patterns=[b.KEY[_x]]))])
            return r

        def outer(L):
            a, b = self.pre(L.f), S(L.ex, L.st, L.f.tpath)
            n, lv = lits(L.f)
            r = self.inv(b) + grows(a, b)
            if self.has('queue'):
                r += tightened(a, b) + [('bounds of the literals so far', known(b, L.pos, lv))]
            return r

        def inner(L):
            a, b = self.pre(L.f), S(L.ex, L.st, L.f.tpath)
            n, lv = lits(L.f)
            lit = L.v('lit')
            r = self.inv(b) + grows(a, b) + [('position', And(0 <= L.entry_pos, L.entry_pos <= L.pos, L.pos <= b.blen)),
                                             ('the first bound of the literal', z3.ForAll([_x], z3.Implies(
                                                 rng(0, _x, L.entry_pos), b.KEY[_x] != lit), patterns=[b.KEY[_x]])),
                                             ('bounds of the literal', z3.ForAll([_x], z3.Implies(
                                                 rng(L.entry_pos, _x, L.pos), b.KEY[_x] == lit), patterns=[b.KEY[_x]]))]
            if self.has('queue'):
                e = S(L.ex, L.entry, L.f.tpath)
                r += tightened(a, b) + [(l + ' since the literal', f) for l, f in tightened(e, b)] + [('bounds of this literal', z3.ForAll([_x], z3.Implies(
                    rng(L.entry_pos, _x, L.pos), enforced(b, b.BID[_x])), patterns=[b.KEY[_x]]))]
            return r

        def search(L):
            a, b = self.pre(L.f), S(L.ex, L.st, L.f.tpath)
            return self.inv(b) + grows(a, b)
        return Contract(self.N + 'solve', pre, post, lambda c: mods_values(c) + VARF(c, 'lower_bound', 'upper_bound', 'index', 'reverse_index') + [
            F(c.tpath, n) for n in ('bound_trail_', 'conflict_clause_', 'trail_offset_', 'tableau_', 'statistics_')] + WORLD_ROOTS[:3],
            loops=[LoopSpec(outer), LoopSpec(inner), LoopSpec(search)])


_x, _k = z3.Ints('x k')


def vbounds(s):
    """The bounds listed with a variable are bounds of it."""
    v, x = z3.Ints('v x')
    n, e = s.VB.len, s.VB.elem
    return [('numbers of bounds', allv(s, lambda v: n[v] >= 0, lambda v: n[v])),
            ('bounds of variables', z3.ForAll([v, x], z3.Implies(And(rng(0, v, s.N), rng(0, x, n[v])), And(
                rng(1, e[v][x], s.B.n), s.B.var[e[v][x]] == v, rng(0, s.B.rel[e[v][x]], 3))), patterns=[e[v][x]]))]


def ref_id(p):
    """The number of the bound a reference refers to."""
    if not isinstance(p, Path) or p.root != '@Bound' or len(p.acc) != 1:
        raise Unsupported('reference to a bound: %r' % (p,))
    return p.acc[0][1]


def valid_bound(s, b):
    return [('the bound exists', rng(1, b, s.B.n)), ('its variable exists', rng(0, s.B.var[b], s.N)),
            ('its relation', rng(0, s.B.rel[b], 3))]


def enforced(s, b):
    """The active bounds of the variable of b imply b."""
    v, r, x = s.B.var[b], s.B.rel[b], s.B.val[b]
    return And(z3.Implies(Or(r == GE, r == EQ), And(s.has_lo(v), s.lo(v) >= x)),
               z3.Implies(Or(r == LE, r == EQ), And(s.has_up(v), s.up(v) <= x)))


def tightened(a, b):
    return [('active bounds only get tighter', allv(a, lambda v: And(
        z3.Implies(a.has_lo(v), And(b.has_lo(v), b.lo(v) >= a.lo(v))),
        z3.Implies(a.has_up(v), And(b.has_up(v), b.up(v) <= a.up(v)))), lambda v: b.LO[v], lambda v: b.UP[v]))]


def grows(a, b):
    """Literals stay true, on their level, while clauses are added."""
    x = z3.Int('x')
    return [('true literals stay true', z3.ForAll([x], z3.Implies(a.w.true[x], And(b.w.true[x], b.w.level[x] == a.w.level[x])),
                                                  patterns=[b.w.true[x], a.w.true[x]])),
            ('the decision level stays', b.w.dl == a.w.dl)]


def ptr(ex, v):
    """The number of the bound a pointer points to."""
    return v if is_z3(v) else ex.ptr_id(v)


def clause_obligation(ex, st, c):
    """Each clause that is added is implied by the constraints."""
    s = S(ex, st, ex.cur_ctx.tpath)
    ex.oblig(st, 'the added clause is implied by the constraints', infeasible(s, c.elem, c.len), 'clause')


ORDER = ('enqueue_', 'update_', 'pivot_', 'select_', 'update_bound_', 'propagate_', 'store_sat_assignment', 'solve')


def setup_fn(p, V, n):
    def extra(ex, st, args):
        if n == 'update_bound_':
            b = z3.Int('bound')
            st.store.pop('arg1', None)
            return [args[0], Path('@Bound', (('i', b),))]
    return setup_solver(p, V, extra=extra)


NO_CLAUSES = tuple(n for n in ORDER if n != 'propagate_')


def verify_layer(gen, p, V, features, names=NO_CLAUSES):
    """Verify the functions `names` against their contracts with the given features."""
    L = Layer(p, V, *features)
    cs = {n: getattr(L, n)() for n in ORDER}
    ex = make_exec(p, V)
    if 'clause' in features:
        ex.on_clause = clause_obligation
    fs = {n: p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_')) for n in ORDER}
    for n, f in fs.items():
        if f is not None:
            ex.cfg.contracts[f.id] = cs[n]
    for n in names:
        if fs[n] is not None:
            own = ex.cfg.contracts.pop(fs[n].id)
            gen.verify(ex, fs[n], own, setup_fn(p, V, n))
            ex.cfg.contracts[fs[n].id] = own
