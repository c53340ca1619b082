"""Sums of products: the linear combination given by a row of the tableau, and
the lemmas about it that the solver's contracts use."""
import z3
from .core import Lemma, And, Or, Not, I, R, B

ROW = z3.ArraySort(I, R)
IDXS = z3.ArraySort(I, I)
# SUM(row, x, idx, n): the sum of row[l] * x[idx[l]] for 0 <= l < n
SUM = z3.Function('SUM', ROW, ROW, IDXS, I, R)
# MUL stands for the product; only lemmas look inside
MAT = z3.ArraySort(I, ROW)
# SOL(A, idx, nn, nb, x): x satisfies all equations of the tableau
SOL = z3.Function('SOL', MAT, IDXS, I, I, ROW, B)


# products and quotients of which only instances of lemmas are needed
PROD = z3.Function('PROD', R, R, R)
QUOT = z3.Function('QUOT', R, R, R)


def prod_def(a, b):
    return PROD(a, b) == a * b


def quot_fact(z, q):
    """The quotient times the divisor; valid for the real product and quotient."""
    return z3.Implies(q != 0, PROD(q, QUOT(z, q)) == z)


def zero_fact(a, b):
    return z3.Implies(a == 0, PROD(a, b) == 0)


def sum_def(r, x, idx, n):
    return SUM(r, x, idx, n) == z3.If(n <= 0, z3.RealVal(0), SUM(r, x, idx, n - 1) + r[n - 1] * x[idx[n - 1]])


def eqn(A, idx, nn, i, x):
    return x[idx[nn + i]] == SUM(A[i], x, idx, nn)


def sol_def(A, idx, nn, nb, x):
    i = z3.Int('i!sol')
    return SOL(A, idx, nn, nb, x) == z3.ForAll([i], z3.Implies(And(0 <= i, i < nb), eqn(A, idx, nn, i, x)),
                                               patterns=[SUM(A[i], x, idx, nn)])


def sol_at(A, idx, nn, nb, x, i):
    """Instance: a solution satisfies equation i."""
    return z3.Implies(And(SOL(A, idx, nn, nb, x), 0 <= i, i < nb), eqn(A, idx, nn, i, x))


class Induction:
    """A statement about all n >= 0, proved by induction on n; used like a Lemma."""

    def __init__(self, name, vars, hyps, goal, m, local, bound):
        """goal(n) is shown for 0 <= n <= bound from hyps; local: instances of definitions at n."""
        self.name, self.vars, self.hyps = name, list(vars), list(hyps)
        n = z3.Int('n!ind')
        self.base = Lemma(name + ' (base)', vars, list(hyps) + local(z3.IntVal(0)), goal(z3.IntVal(0)))
        self.step = Lemma(name + ' (step)', list(vars) + [n], list(hyps) + [0 <= n, n < bound, goal(n)] + local(n + 1), goal(n + 1))
        self.pre, self.split = (), None
        self.lemma = Lemma(name, vars, list(hyps) + [bound >= 0], goal(bound))

    def at(self, *ts):
        return self.lemma.at(*ts)

    def parts(self):
        steps = [self.step]
        if self.split is not None:
            s, n = self.step, self.step.vars[-1]
            steps = [Lemma('%s, %s)' % (s.name[:-1], t), s.vars, s.hyps + [c], s.goal) for t, c in (
                ('before', n < self.split), ('at', n == self.split), ('behind', n > self.split))]
        return list(self.pre) + [self.base] + steps


_r, _r2, _q = z3.Consts('r r2 q', ROW)
_x, _x2 = z3.Consts('x x2', ROW)
_d, _d2 = z3.Consts('d d2', IDXS)
_n, _j, _l = z3.Ints('n j l')
_c = z3.Real('c')


def _q1(f, *pats):
    return z3.ForAll([_l], z3.Implies(And(0 <= _l, _l < _n), f), patterns=list(pats))


# the sums are the same if rows, values and indices are the same
SAME = Induction(
    'sums of equal summands are equal', (_r, _r2, _x, _x2, _d, _d2, _n),
    [_q1(And(_r[_l] == _r2[_l], _x[_d[_l]] == _x2[_d2[_l]]), _r[_l], _r2[_l], _d[_l], _d2[_l])],
    lambda m: SUM(_r, _x, _d, m) == SUM(_r2, _x2, _d2, m), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r2, _x2, _d2, m)], _n)

# one value is changed
_t = z3.Real('t')
UPD = Induction(
    'changing one value changes the sum by the coefficient times the difference', (_r, _x, _x2, _d, _n, _j, _t),
    [0 <= _j, _j < _n, _x2[_d[_j]] == _x[_d[_j]] + _t, _q1(z3.Implies(_l != _j, _x2[_d[_l]] == _x[_d[_l]]), _r[_l], _d[_l])],
    lambda m: SUM(_r, _x2, _d, m) == SUM(_r, _x, _d, m) + z3.If(_j < m, PROD(_r[_j], _t), z3.RealVal(0)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r, _x2, _d, m), prod_def(_r[_j], _t)], _n)

_v, _w, _y, _z = z3.Reals('v w y z')
DIST = Lemma('distributing a summand', (_v, _w, _y, _z, _c), [_w == _y + _c * _z], _w * _v == _y * _v + _c * (_z * _v))


DIST2 = Lemma('distributing a factor', (_v, _w, _y, _c), [_v == _w + _y], _c * _v == _c * _w + _c * _y)


def _dist(m):
    return And(DIST.at(_x[_d[m - 1]], _r2[m - 1], _r[m - 1], _q[m - 1], _c),
               DIST.at(_x[_d[_j]], _r[_j] + _c * _q[_j], _r[_j], _q[_j], _c),
               DIST2.at(SUM(_q, _x, _d, m), SUM(_q, _x, _d, m - 1), _q[m - 1] * _x[_d[m - 1]], _c))


# a multiple of a row is added, column j is replaced
LIN = Induction(
    'adding a multiple of a row and replacing a column', (_r, _r2, _q, _x, _d, _d2, _n, _j, _c),
    [0 <= _j, _j < _n, _q1(z3.Implies(_l != _j, And(_r2[_l] == _r[_l] + _c * _q[_l], _d2[_l] == _d[_l])), _r[_l], _r2[_l], _d[_l])],
    lambda m: SUM(_r2, _x, _d2, m) == SUM(_r, _x, _d, m) + _c * SUM(_q, _x, _d, m) + z3.If(
        _j < m, _r2[_j] * _x[_d2[_j]] - (_r[_j] + _c * _q[_j]) * _x[_d[_j]], z3.RealVal(0)), None,
    lambda m: [sum_def(_r2, _x, _d2, m), sum_def(_r, _x, _d, m), sum_def(_q, _x, _d, m), _dist(m)], _n)

LIN.pre, LIN.split = (DIST, DIST2), _j

# a multiple of a row plus nothing
SCALEROW = Induction(
    'a multiple of a row with one column replaced', (_r2, _q, _x, _d, _d2, _n, _j, _c),
    [0 <= _j, _j < _n, _q1(z3.Implies(_l != _j, And(_r2[_l] == _c * _q[_l], _d2[_l] == _d[_l])), _q[_l], _r2[_l], _d[_l])],
    lambda m: SUM(_r2, _x, _d2, m) == _c * SUM(_q, _x, _d, m) + z3.If(
        _j < m, _r2[_j] * _x[_d2[_j]] - _c * _q[_j] * _x[_d[_j]], z3.RealVal(0)), None,
    lambda m: [sum_def(_r2, _x, _d2, m), sum_def(_q, _x, _d, m)], _n)

# monotonicity
MONO = Induction(
    'a sum is at most another one if each summand is', (_r, _x, _x2, _d, _n),
    [_q1(And(z3.Implies(_r[_l] > 0, _x[_d[_l]] <= _x2[_d[_l]]), z3.Implies(_r[_l] < 0, _x[_d[_l]] >= _x2[_d[_l]])), _r[_l], _d[_l])],
    lambda m: SUM(_r, _x, _d, m) <= SUM(_r, _x2, _d, m), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r, _x2, _d, m)], _n)

ZERO = Induction(
    'a sum of zeros is zero', (_r, _x, _d, _n),
    [_q1(Or(_r[_l] == 0, _x[_d[_l]] == 0), _r[_l], _d[_l])],
    lambda m: SUM(_r, _x, _d, m) == 0, None, lambda m: [sum_def(_r, _x, _d, m)], _n)

_k = z3.Int('k')
_a = z3.Real('a')
# one coefficient is changed
COEF = Induction(
    'changing one coefficient', (_r, _x, _d, _n, _k, _a), [0 <= _k, _k < _n],
    lambda m: SUM(z3.Store(_r, _k, _a), _x, _d, m) == SUM(_r, _x, _d, m) + z3.If(
        _k < m, (_a - _r[_k]) * _x[_d[_k]], z3.RealVal(0)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(z3.Store(_r, _k, _a), _x, _d, m)], _n)

# a summand is added
ADD = Induction(
    'filling in one coefficient', (_r, _x, _d, _n, _k, _a), [0 <= _k, _k < _n, _r[_k] == 0],
    lambda m: SUM(z3.Store(_r, _k, _a), _x, _d, m) == SUM(_r, _x, _d, m) + z3.If(
        _k < m, PROD(_a, _x[_d[_k]]), z3.RealVal(0)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(z3.Store(_r, _k, _a), _x, _d, m), prod_def(_a, _x[_d[_k]])], _n)

# the entries of a row that have been visited
SETS = z3.ArraySort(I, B)
MASK = z3.Function('MASK', ROW, SETS, ROW)


def mask_def(r, done):
    l = z3.Int('l')
    return z3.ForAll([l], MASK(r, done)[l] == z3.If(done[l], r[l], z3.RealVal(0)), patterns=[MASK(r, done)[l]])


_done = z3.Const('done', SETS)
MASKADD = Lemma('visiting one more entry', (_r, _done, _k), [
    mask_def(_r, _done), mask_def(_r, z3.Store(_done, _k, True))],
    MASK(_r, z3.Store(_done, _k, True)) == z3.Store(MASK(_r, _done), _k, _r[_k]))
MASK0 = Induction('nothing has been visited', (_r, _x, _d, _n), [mask_def(_r, z3.K(I, False))],
                  lambda m: SUM(MASK(_r, z3.K(I, False)), _x, _d, m) == 0, None,
                  lambda m: [sum_def(MASK(_r, z3.K(I, False)), _x, _d, m),
                             MASK(_r, z3.K(I, False))[m - 1] == z3.RealVal(0)], _n)
_p, _lo = z3.Reals('p lo')
PMONO = Lemma('multiples of a larger value', (_p, _c, _lo), [prod_def(_p, _c), prod_def(_p, _lo)], And(
    z3.Implies(Or(And(_p > 0, _c >= _lo), And(_p < 0, _c <= _lo)), PROD(_p, _c) >= PROD(_p, _lo)),
    z3.Implies(Or(And(_p > 0, _c <= _lo), And(_p < 0, _c >= _lo)), PROD(_p, _c) <= PROD(_p, _lo))))


PSTRICT = Lemma('multiples compare as the values', (_p, _c, _lo), [prod_def(_p, _c), prod_def(_p, _lo)], And(
    z3.Implies(_p > 0, (PROD(_p, _c) <= PROD(_p, _lo)) == (_c <= _lo)),
    z3.Implies(_p < 0, (PROD(_p, _c) <= PROD(_p, _lo)) == (_c >= _lo))))


def pstrict(p, c, lo):
    """Instance of PSTRICT; its hypotheses are the meaning of PROD."""
    return z3.substitute(PSTRICT.goal, (_p, p), (_c, c), (_lo, lo))


def pmono(p, c, lo):
    """Instance of PMONO; its hypotheses are the meaning of PROD."""
    return z3.substitute(PMONO.goal, (_p, p), (_c, c), (_lo, lo))


# ---- pivoting keeps the solutions
_A, _A2 = z3.Consts('A A2', MAT)
_nn, _nb, _i = z3.Ints('nn nb i')


def pivoted(A, i, j, k, l):
    """Entry (k, l) after solving row i for variable j and substituting."""
    p = A[i][j]
    return z3.If(k == i, z3.If(l == j, 1 / p, -A[i][l] / p),
                 z3.If(l == j, A[k][j] / p, A[k][l] - A[k][j] * A[i][l] / p))


def swapped(d2, d, nn, nb, i, j):
    l = z3.Int('l')
    return z3.ForAll([l], z3.Implies(And(0 <= l, l < nn + nb), d2[l] == z3.If(
        l == j, d[nn + i], z3.If(l == nn + i, d[j], d[l]))), patterns=[d2[l]])


def is_pivot(A2, A, i, j):
    k, l = z3.Ints('k l')
    return z3.ForAll([k, l], A2[k][l] == pivoted(A, i, j, k, l), patterns=[A2[k][l]])


def _pivot_lemmas():
    """The solutions before are solutions afterwards: row i and the other rows."""
    k, l = z3.Ints('k l')
    A, A2, d, d2, nn, nb, i, j, x = _A, _A2, _d, _d2, _nn, _nb, _i, _j, _x
    vs = (A, A2, d, d2, nn, nb, i, j, x)
    rows = [0 <= i, i < nb, 0 <= j, j < nn, A[i][j] != 0]
    h = rows + [is_pivot(A2, A, i, j), swapped(d2, d, nn, nb, i, j)]
    p = A[i][j]
    row_i = Lemma('pivoting: the pivot row still holds', vs,
                  h + [SCALEROW.at(A2[i], A[i], x, d, d2, nn, j, -1 / p), eqn(A, d, nn, i, x)], eqn(A2, d2, nn, i, x))
    row_k = Lemma('pivoting: the other rows still hold', vs + (k,),
                  h + [k != i, 0 <= k, k < nb, LIN.at(A[k], A2[k], A[i], x, d, d2, nn, j, -A[k][j] / p),
                       eqn(A, d, nn, i, x), eqn(A, d, nn, k, x)], eqn(A2, d2, nn, k, x))
    each = Lemma('pivoting: each equation holds', vs + (k,), h + [
        0 <= k, k < nb, SOL(A, d, nn, nb, x), sol_at(A, d, nn, nb, x, i), sol_at(A, d, nn, nb, x, k),
        SCALEROW.at(A2[i], A[i], x, d, d2, nn, j, -1 / p), LIN.at(A[k], A2[k], A[i], x, d, d2, nn, j, -A[k][j] / p),
        row_i.at(*vs), row_k.at(*vs, k)], eqn(A2, d2, nn, k, x))
    eachq = z3.ForAll([k], z3.Implies(And(0 <= k, k < nb, SOL(A, d, nn, nb, x)), eqn(A2, d2, nn, k, x)),
                      patterns=[SUM(A2[k], x, d2, nn)])
    fwd = Lemma('pivoting keeps each solution', vs, rows + [eachq, sol_def(A2, d2, nn, nb, x)],
                z3.Implies(SOL(A, d, nn, nb, x), SOL(A2, d2, nn, nb, x)))
    back = Lemma('pivoting twice at the same place gives the old matrix', vs[:-1] + (k, l),
                 h, And(A[k][l] == pivoted(A2, i, j, k, l), A2[i][j] != 0))
    turn = Lemma('pivoting back keeps the indices', vs[:-1], h, swapped(d, d2, nn, nb, i, j))
    rev = Lemma('pivoting adds no solutions', vs, rows + [
        A2[i][j] != 0, is_pivot(A, A2, i, j), swapped(d, d2, nn, nb, i, j),
        z3.Implies(And(rows[:-1] + [A2[i][j] != 0, is_pivot(A, A2, i, j), swapped(d, d2, nn, nb, i, j)]), z3.Implies(
            SOL(A2, d2, nn, nb, x), SOL(A, d, nn, nb, x)))],
        z3.Implies(SOL(A2, d2, nn, nb, x), SOL(A, d, nn, nb, x)))
    return row_i, row_k, each, fwd, back, turn, rev


PIVOT = _pivot_lemmas()
# used with the hypotheses of `back` for all k, l, which is what it proves
FWD = Lemma('pivoting keeps each solution (use)', (_A, _A2, _d, _d2, _nn, _nb, _i, _j, _x), [
    0 <= _i, _i < _nb, 0 <= _j, _j < _nn, _A[_i][_j] != 0, is_pivot(_A2, _A, _i, _j), swapped(_d2, _d, _nn, _nb, _i, _j)],
    SOL(_A, _d, _nn, _nb, _x) == SOL(_A2, _d2, _nn, _nb, _x))


# ---- membership in a clause: HAS(c, n, x): x is one of the first n elements of c
HAS = z3.Function('HAS', IDXS, I, I, B)


def has_def(c, n, x):
    k = z3.Int('k!has')
    return HAS(c, n, x) == z3.Exists([k], And(0 <= k, k < n, c[k] == x))


def has_push(c, n, y, c2=None):
    """What holds after y has been stored behind the first n elements."""
    x = z3.Int('x!has')
    c2 = z3.Store(c, n, y) if c2 is None else c2
    m = z3.simplify(n + 1)
    return z3.ForAll([x], And(HAS(c2, m, x) == Or(x == y, HAS(c, n, x)), HAS(c2, n, x) == HAS(c, n, x)),
                     patterns=[HAS(c2, m, x), HAS(c, n, x), HAS(c2, n, x)])


def has_none(c):
    x = z3.Int('x!has')
    return z3.ForAll([x], Not(HAS(c, 0, x)), patterns=[HAS(c, 0, x)])


def _has_lemmas():
    c = z3.Const('c', IDXS)
    n, x, y = z3.Ints('n x y')
    c2 = z3.Store(c, n, y)
    k = z3.Int('k!has')
    ex = lambda c, m: z3.Exists([k], And(0 <= k, k < m, c[k] == x))
    return [Lemma('members after adding one: the new ones', (c, n, x, y), [n >= 0, ex(c2, n + 1)], Or(x == y, ex(c, n))),
            Lemma('members after adding one: the last one stays', (c, n, y), [n >= 0], And(0 <= n, n < n + 1, c2[n] == y)),
            Lemma('members after adding one: the others stay', (c, n, x, y, k), [n >= 0, 0 <= k, k < n, c[k] == x],
                  And(0 <= k, k < n + 1, c2[k] == x)),
            Lemma('members after adding one: the first ones', (c, n, x, y, k), [n >= 0, 0 <= k, k < n], c2[k] == c[k]),
            Lemma('no members', (c, x), [], Not(ex(c, z3.IntVal(0))))]


HASL = _has_lemmas()


def sum_lemmas():
    r = []
    for x in (SAME, UPD, LIN, SCALEROW, MONO, ZERO, COEF, ADD, MASK0):
        r += x.parts()
    return r + list(PIVOT) + HASL + [MASKADD, PMONO, PSTRICT]
