"""C09: the reported objective value is the true optimum."""
from .trail import *
from . import harness as H, prepare
from . import c10

ASSUMPTIONS = ['termination of optimize is not claimed (C17)']


def sat_bounds(s, x):
    v = z3.Int('v')
    return z3.ForAll([v], z3.Implies(rng(0, v, s.N), sat_at(s, x, s.LO, s.UP, v)), patterns=[s.LO[v], s.UP[v], x[v]])


def ray(s, z, e, pos):
    """Moving the variable in column e upwards (pos) or downwards improves the
    objective in row z and meets no bound."""
    i = z3.Int('i')
    x = s.IDX[e]
    up = (s.A[i][e] > 0) == pos
    return And(rng(0, e, s.nn), s.A[z][e] != 0, (s.A[z][e] > 0) == pos, z3.If(pos, Not(s.has_up(x)), Not(s.has_lo(x))),
               z3.ForAll([i], z3.Implies(And(rng(0, i, s.nb), s.A[i][e] != 0), z3.If(up, Not(s.has_up(s.basic(i))), Not(s.has_lo(s.basic(i))))),
                         patterns=[s.A[i]]))


class Free:
    """A solver state made of constants, for lemmas."""

    def __init__(self):
        ia = lambda n: z3.Const(n, z3.ArraySort(I, I))
        self.A, self.IDX, self.REV, self.LO, self.UP = z3.Const('A', MAT), ia('IDX'), ia('REV'), ia('LO'), ia('UP')
        self.nn, self.nb = z3.Ints('nn nb')
        self.N = self.nn + self.nb
        self.VAL = z3.Const('VAL', ROW)

        class Bn:
            val = z3.Const('BVAL', ROW)
        self.B = Bn
    has_lo, has_up, lo, up, below, above, conflict, basic, sol, sol_def, sol_at = (
        S.has_lo, S.has_up, S.lo, S.up, S.below, S.above, S.conflict, S.basic, S.sol, S.sol_def, S.sol_at)


def ray_lemmas():
    s = Free()
    e, z, i, l, v = z3.Ints('e z i l v')
    t = z3.Real('t')
    X = z3.Const('X', ROW)
    pos = z3.Bool('pos')
    m = z3.If(pos, t, -t)
    P = [f for _, f in perm(s)]
    moved = [X[s.IDX[e]] == s.VAL[s.IDX[e]] + m,
             z3.ForAll([i], z3.Implies(rng(0, i, s.nb), X[s.basic(i)] == s.VAL[s.basic(i)] + PROD(s.A[i][e], m)), patterns=[s.A[i]]),
             z3.ForAll([l], z3.Implies(And(rng(0, l, s.nn), l != e), X[s.IDX[l]] == s.VAL[s.IDX[l]]), patterns=[s.IDX[l]])]
    base = P + [ray(s, z, e, pos), rng(0, z, s.nb), t >= 0] + moved
    vs = (s.A, s.IDX, s.REV, s.LO, s.UP, s.nn, s.nb, s.VAL, s.B.val, e, z, pos, t, X)
    other = z3.ForAll([l], z3.Implies(And(rng(0, l, s.nn), l != e), X[s.IDX[l]] == s.VAL[s.IDX[l]]), patterns=[s.A[i][l], s.IDX[l]])
    each = Lemma('ray: each equation holds', vs + (i,), base + [
        rng(0, i, s.nb), s.sol(s.VAL), s.sol_at(s.VAL, i), UPD.at(s.A[i], s.VAL, X, s.IDX, s.nn, e, m), s.A[i][e] == s.A[i][e]],
        eqn(s.A, s.IDX, s.nn, i, X))
    eachq = z3.ForAll([i], z3.Implies(rng(0, i, s.nb), eqn(s.A, s.IDX, s.nn, i, X)), patterns=[SUM(s.A[i], X, s.IDX, s.nn)])
    eqs_ = Lemma('ray: the equations hold', vs, [eachq, s.sol_def(X)], s.sol(X))
    row = s.REV[v] - s.nn
    bnd = Lemma('ray: the bounds hold', vs + (v,), base + [
        rng(0, v, s.N), Not(s.conflict(v)), prod_def(s.A[row][e], m), *mark(s.IDX[s.REV[v]])],
        Not(s.conflict(v, X[v])))
    obj = Lemma('ray: the objective grows without limit', vs, base + [prod_def(s.A[z][e], m)],
                And(X[s.basic(z)] == s.VAL[s.basic(z)] + z3.If(pos, s.A[z][e], -s.A[z][e]) * t,
                    z3.If(pos, s.A[z][e], -s.A[z][e]) > 0))
    return each, eqs_, bnd, obj


RAY = ray_lemmas()


class OptLayer(TrailLayer):
    def objective(self, s):
        v = s.obj.var
        return [('the objective variable is basic and has no bounds', z3.Implies(s.obj.active, And(
            rng(0, v, s.N), s.REV[v] >= s.nn, s.LO[v] == 0, s.UP[v] == 0)))]

    def oinv(self, s):
        return self.inv(s) + all_ok(s) + self.objective(s) + sane(s) + inv_values(s)

    def optimize(self):
        def pre(c):
            return self.oinv(self.tpre(c))

        def row(s):
            return s.REV[s.obj.var] - s.nn

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            X = z3.Const('X', ROW)
            e = z3.Int('e')
            z = row(b)
            act = a.obj.active
            r = self.oinv(b) + same_values(a, b)
            mono = lambda X: [MONO.at(b.A[z], X, b.VAL, b.IDX, b.nn), b.sol_at(X, z), b.sol_at(b.VAL, z)] + mark(b.sol(b.VAL), b.sol(X))
            return r + [
                ('nothing is done without objective', z3.Implies(Not(act), And(b.obj.bounded == a.obj.bounded, b.VAL == a.VAL))),
                ('a bounded objective value is the maximum', z3.ForAll([X], z3.Implies(
                    And(act, b.obj.bounded, DEF(X), sat_bounds(b, X)), X[b.obj.var] <= b.VAL[b.obj.var]), patterns=[DEF(X)]), [mono]),
                ('otherwise the objective grows along a ray without limit', z3.Implies(And(act, Not(b.obj.bounded)), z3.Exists(
                    [e], Or(ray(b, z, e, True), ray(b, z, e, False)), patterns=[b.A[z][e]])))]

        def loop(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            h = [lambda v: within(L, v)] if L.bi is not None else []
            return [(l, f, h) if l == all_ok(b)[0][0] else (l, f) for l, f in self.oinv(b)] + same_values(a, b)

        def within(L, v):
            """Variable v stays within its bounds: facts about its row."""
            s = T(L.ex, L.bi, L.f.tpath)
            b = T(L.ex, L.st, L.f.tpath)
            ee, pos, ll = L.v('ee'), L.v('pos_a_ze'), L.v('ll')
            bl = ptr(L.ex, L.v('bound_l'))
            e, i, l = s.REV[ee], s.REV[v] - s.nn, s.REV[ll] - s.nn
            th = b.VAL[ee] - s.VAL[ee]
            zero = z3.RealVal(0)
            q = QUOT(s.B.val[bl] - s.VAL[ll], s.A[l][e])
            r = [quot_fact(s.B.val[bl] - s.VAL[ll], s.A[l][e]), pstrict(s.A[l][e], q, zero), pstrict(s.A[l][e], zero, q), prod_def(s.A[l][e], zero),
                 pmono(s.A[i][e], th, zero), prod_def(s.A[i][e], zero), zero_fact(s.A[i][e], th)]
            for x in (s.LO[v], s.UP[v]):
                d = s.B.val[x] - s.VAL[v]
                r += [quot_fact(d, s.A[i][e]), pmono(s.A[i][e], th, QUOT(d, s.A[i][e]))]
            return r + mark(s.IDX[s.REV[v]], s.IDX[s.REV[ll]], s.IDX[e], s.REV[s.IDX[e]])

        def state(L):
            return T(L.ex, L.st, L.f.tpath)

        def better(s, z, l):
            """Variable in column l can be moved to improve row z."""
            x = s.IDX[l]
            return z3.If(s.A[z][l] > 0, Or(Not(s.has_up(x)), s.VAL[x] < s.up(x)), Or(Not(s.has_lo(x)), s.VAL[x] > s.lo(x)))

        def entering(L):
            s = state(L)
            z, ee, pos = row(s), L.v('ee'), L.v('pos_a_ze')
            l = z3.Int('l')
            e = s.REV[ee]
            return [('no candidate so far', z3.ForAll([l], z3.Implies(And(L.pos[l], ee == s.N), Not(better(s, z, l))), patterns=[s.A[z][l]])),
                    ('the candidate', Or(ee == s.N, And(rng(0, ee, s.N), rng(0, e, s.nn), s.A[z][e] != 0, pos == (s.A[z][e] > 0), better(s, z, e))))]

        def limits(s, e, pos, i, f):
            """f for the bound basic variable i runs into, and the value of the entering variable there."""
            y = s.basic(i)
            up = (s.A[i][e] > 0) == pos
            at = lambda b: (b, s.VAL[s.IDX[e]] + QUOT(s.B.val[b] - s.VAL[y], s.A[i][e]))
            return And(z3.Implies(up, f(*at(s.UP[y]))), z3.Implies(Not(up), f(*at(s.LO[y]))))

        def leaving(L):
            s = state(L)
            ee, pos, ll, ve = L.v('ee'), L.v('pos_a_ze'), L.v('ll'), L.v('v_e')
            bl = ptr(L.ex, L.v('bound_l'))
            e = s.REV[ee]
            i = z3.Int('i')
            late = lambda v: z3.If(pos, And(s.UP[ee] != 0, v >= s.up(ee)), And(s.LO[ee] != 0, v <= s.lo(ee)))
            l = s.REV[ll] - s.nn
            return [('limits so far', z3.ForAll([i], z3.Implies(L.pos[i], limits(s, e, pos, i, lambda b, v: Or(b == 0, late(v), And(
                bl != 0, z3.If(pos, ve <= v, ve >= v))))), patterns=[s.A[i]])),
                    ('the chosen limit', Or(bl == 0, And(rng(0, ll, s.N), rng(0, l, s.nb), s.A[l][e] != 0, bl != 0, Not(late(ve)),
                                                         limits(s, e, pos, l, lambda b, v: And(bl == b, ve == v)))))]
        return Contract(self.N + 'optimize', pre, post, lambda c: mods_values(c) + VARF(c, 'index', 'reverse_index') + [
            F(c.tpath, 'tableau_'), F(c.tpath, 'statistics_', 'pivots'), F(c.tpath, 'objective_', 'bounded')],
            loops=[LoopSpec(loop), LoopSpec(entering), LoopSpec(leaving)])


class KeepLayer(Layer):
    """No constraint is about the objective variable, so solving never assigns it
    bounds and never exchanges it."""

    def free(self, s):
        b = z3.Int('b')
        v = s.obj.var
        return [('no constraint is about the objective variable', z3.Implies(s.obj.active, z3.ForAll(
            [b], z3.Implies(rng(1, b, s.B.n), s.B.var[b] != v), patterns=[s.B.var[b]]))),
                ('the objective variable is basic and has no bounds', z3.Implies(s.obj.active, And(
                    rng(0, v, s.N), s.REV[v] >= s.nn, s.LO[v] == 0, s.UP[v] == 0)))]

    def keep(self, n):
        at = lambda L: self.free(S(L.ex, L.st, L.f.tpath))
        return extend(getattr(super(), n)(), lambda c: self.free(self.pre(c)), lambda c: self.free(self.post(c)), at)

    def update_bound_(self):
        return self.keep('update_bound_')

    def solve(self):
        return self.keep('solve')


def verify_keep(gen, p, V):
    """The objective variable stays basic and without bounds during solving."""
    L = KeepLayer(p, V, 'queue')
    cs = {n: getattr(L, n)() for n in ORDER}
    ex = make_exec(p, V)
    fs = {n: p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_')) for n in ORDER}
    for n, f in fs.items():
        if f is not None:
            ex.cfg.contracts[f.id] = cs[n]
    for n in ('update_bound_', 'solve'):
        if fs[n] is not None:
            own = ex.cfg.contracts.pop(fs[n].id)
            gen.verify(ex, fs[n], own, setup_fn(p, V, n), label='objective variable')
            ex.cfg.contracts[fs[n].id] = own


def verify_optimize(gen, p, V):
    L = OptLayer(p, V, 'eq', 'queue')
    ex = make_exec(p, V)
    for n, c in var_contracts(p, V).items():
        f = p.find('Solver<%s>::Variable::%s' % (V, n), allow_none=True)
        if f is not None:
            ex.cfg.contracts[f.id] = c
    for n in ORDER:
        f = p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_'))
        if f is not None:
            ex.cfg.contracts[f.id] = getattr(L, n)()
    gen.verify(ex, p.find('Solver<%s>::optimize' % V), L.optimize(), setup_fn(p, V, 'optimize'))


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    gen.prove(*sum_lemmas())
    gen.prove(*muldiv_lemmas())
    gen.prove(*RAY)
    prepare.verify(gen, p, 'objective')
    for V in VALUES:
        verify_optimize(gen, p, V)
        verify_keep(gen, p, V)
        cs = c10.solver_contracts(p, V)
        gen.verify(make_exec(p, V), p.find('Solver<%s>::get_objective' % V), cs['get_objective'], setup_solver(p, V))
    from . import threads
    threads.verify(gen, p, 'Rational', 'check')


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C09', seed, tier)
