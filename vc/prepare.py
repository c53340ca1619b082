"""Preparation of a solver: its data structures are set up, each constraint
gets a bound that is equivalent to it, and only valid clauses are added."""
from .trail import *
from .c11 import Ineqs, Terms, simple, no_terms
from .rels import *

# an arbitrary assignment to the variables and to the symbols they stand for
Y, YS = z3.Const('Y', ROW), z3.Const('YS', ROW)
ID = z3.Const('id', IDXS)
# an arbitrary assignment to the literals under which the constraints hold
TRUE = z3.Const('true', SET)
UNWATCHED = [r for r in WORLD_ROOTS if r.root != '$watched']
UNITS = Path('$units', ())
# the constraint of a bound, the bound of a constraint and its position in bounds_
OBJECTIVE = 'variables of the objective', 'no constraint is about the objective variable'
GHOSTS = '$constraint', '$bound', '$place'
# values without epsilon part
_u, _v = z3.Reals('u v')
STD = z3.Function('standard', R, B)
STANDARD = z3.ForAll([_u, _v], z3.Implies(And(STD(_u), STD(_v), _u < _v), _u + EPS <= _v), patterns=[z3.MultiPattern(STD(_u), STD(_v))])


class Inverted:
    """invert() by its contract, which is proved in problem.cc."""

    def __init__(self, r):
        self.r = r

    def __call__(self, ex, e, f, kind):
        if kind == 'call' and f['n'] == 'invert':
            def h(ex, e, st):
                def go(st, vs):
                    x = ex.rd(st, vs[0])
                    ex.oblig(st, 'precondition of invert: relation', is_rel(self.r, x), 'pre')
                    return [(st, inverted(self.r, x))]
                return ex.bind(ex.eval_list(e['args'], st), go)
            return h
        return None


_i, _l = z3.Ints('i l')


class Emplaced:
    """Keeps track of the constraints bounds are added for."""

    def __init__(self, prep):
        self.prep, self.std = prep, SolverModels()

    def __call__(self, ex, e, f, kind):
        if kind != 'mcall' or split_name(f['n']) != ('std::unordered_multimap', 'emplace'):
            return None

        def h(ex, e, st):
            out = []
            n = st.store['@Bound'].len
            for s2, it in self.std.mm_emplace(ex, e, st):
                if s2.exc is None:
                    self.added(ex, s2, n, it)
                out.append((s2, it))
            return out
        return h

    def added(self, ex, st, n, it):
        pos = [pos for over, pos in ex.loops if over == ex.cur_ctx.apath(2)]
        if not pos:
            raise Unsupported('bound without constraint')
        k = pos[-1](st)
        kof, bof, at = (ex.read(st, Path(g, ())) for g in GHOSTS)
        new = z3.Const(ex.name('places'), IDXS)
        b = z3.Int('b!at')
        st.assume(z3.ForAll([b], new[b] == z3.If(b == n, it.idx, z3.If(at[b] < it.idx, at[b], at[b] + 1)), patterns=[new[b], at[b]]))
        for g, v in zip(GHOSTS, (z3.Store(kof, n, k), z3.Store(bof, k, n), new)):
            ex.write(st, Path(g, ()), v)


class Cons(Ineqs):
    """The constraints to prepare."""

    def __init__(self, v, r):
        super().__init__(v)
        self.r = r

    def csum(self, q):
        return SUM(self.co[q], YS, self.var[q], self.len[q])

    def holds(self, q, x=None):
        return holds(self.r, self.csum(q) if x is None else x, self.rel[q], self.rhs[q])


def rowsum(s, i):
    return SUM(s.A[i], Y, ID, s.nn)


def conflicts_contract(V):
    """Two bounds conflict iff no value satisfies both."""
    def rels(c):
        a, b = c.this, c.arg(0)
        return [('kinds of bounds', And(rng(0, a.rel, 3), rng(0, b.rel, 3)))]

    def post(c):
        a, b = c.this, c.arg(0)
        below = lambda a, b: And(a.rel != GE, b.rel != LE, a.value < b.value)
        return [('bounds conflict if no value satisfies both', c.rval == Or(below(a, b), below(b, a)))]
    return Contract('Solver<%s>::Bound::conflicts' % V, rels, post)


class Prep:
    """what: the parts of the contract to prove (all if not given)."""

    def __init__(self, p, V, *what):
        self.p, self.V, self.r = p, V, enums(p, 'Relation')
        self.what = set(what) or {'base', 'constraints', 'units', 'objective', 'clauses'}

    # ---- the arguments
    def map(self, c):
        m = c.arg(1)
        m = m.t if isinstance(m, View) else m
        return m.f['has'], m.f['val'], m.f['size']

    def cons(self, c):
        return Cons(c.arg(2), self.r)

    def obj(self, c):
        return Terms(c.arg(3))

    def relation(self, x):
        """The relations there are; over the rationals there are no strict ones."""
        return And(is_rel(self.r, x), *[x != self.r[n] for n in ('Less', 'Greater') if self.V == 'Rational'])

    def known(self, has, n, var):
        k = z3.Int('k!t')
        return z3.ForAll([k], z3.Implies(rng(0, k, n), has[var[k]]), patterns=[var[k]])

    def pre(self, c):
        s = S(c.ex, c.pre_st, c.tpath)
        has, val, size = self.map(c)
        q, o = self.cons(c), self.obj(c)
        a, b, k, l = z3.Ints('a!m b!m k l')
        rels = self.relation(q.rel[k])
        each = lambda f: z3.ForAll([k], z3.Implies(rng(0, k, q.n), f), patterns=[q.lit[k]])
        return [('the first level', c.pre_st.store['$world'].f['dl'] >= 0), ('the solver is new', And(s.N == 0, s.nb == 0, s.blen == 0, s.mA == 0, s.mB == 0, s.n == 0, s.PQ.len == 0,
                                          Not(s.obj.active))),
                ('its tableau is empty', z3.ForAll([k, l], s.A[k][l] == 0, patterns=[s.A[k][l]])),
                ('no conflicts', z3.ForAll([k], Not(s.Q[k]), patterns=[s.Q[k]])),
                ('variables are numbered', And(size >= 0, z3.ForAll([a], z3.Implies(
                    has[a], rng(0, val[a], size)), patterns=[has[a], val[a]]))),
                ('different variables have different numbers', z3.ForAll([a, b], z3.Implies(
                    And(has[a], has[b], val[a] == val[b]), a == b), patterns=[z3.MultiPattern(val[a], val[b])])),
                ('relations', each(rels)),
                ('the variables of the constraints are known', each(self.known(has, q.len[k], q.var[k]))),
                ('the constraints are in normal form', each(simple(q.len[k], q.co[k], q.var[k]))),
                ('the variables of the objective are known', self.known(has, o.n, o.var)),
                ('the objective is in normal form', simple(o.n, o.co, o.var))]

    def setup(self, ex, st, args):
        st.assume(st.store['@Bound'].len == 1)      # it has no bounds yet
        k = z3.Int('k!id')
        m = ex.rd(st, args[1])
        o = Terms(ex.rd(st, args[3]))
        q = Cons(ex.rd(st, args[2]), self.r)
        st.assume(z3.ForAll([k], z3.Implies(m.f['has'][k], k >= 0), patterns=[m.f['has'][k]]))      # symbols are unsigned
        st.assume(EPS > 0, STANDARD, no_terms(), z3.ForAll([k], ID[k] == k, patterns=[ID[k]]),
                  z3.ForAll([k], z3.Implies(m.f['has'][k], Y[m.f['val'][k]] == YS[k]), patterns=[m.f['val'][k]]),
                  z3.ForAll([k], STD(Y[k]), patterns=[Y[k]]),
                  z3.ForAll([k], z3.Implies(And(rng(0, k, q.n), TRUE[q.lit[k]]), q.holds(k)), patterns=[q.lit[k]]),
                  z3.ForAll([k], z3.Implies(k != 0, TRUE[-k] == Not(TRUE[k])), patterns=[TRUE[-k], TRUE[k]]),
                  m.f['size'] + q.n + 2 < 2 ** 32, o.n >= 0, z3.ForAll([k], z3.Implies(rng(0, k, q.n), q.len[k] >= 0), patterns=[q.len[k]]),
                  z3.ForAll([k], z3.Implies(rng(0, k, q.n), q.lit[k] != 0), patterns=[q.lit[k]]))

    # ---- what holds of a solver that is being prepared
    def fresh(self, s, queue=True):
        k = z3.Int('k!v')
        r = [('number of variables', And(s.N == s.nn + s.nb, s.nb >= 0, s.nn >= 0)),
             ('variables have not moved', allv(s, lambda v: And(s.IDX[v] == v, s.REV[v] == v), lambda v: s.IDX[v], lambda v: s.REV[v])),
             ('values are zero', allv(s, lambda v: And(s.VAL[v] == 0, s.LVL[v] == 0), lambda v: s.VAL[v], lambda v: s.LVL[v])),
             ('there are no active bounds', allv(s, lambda v: And(s.LO[v] == 0, s.UP[v] == 0), lambda v: s.LO[v], lambda v: s.UP[v])),
             ('no variable is queued', allv(s, lambda v: Not(s.QUEUED[v]), lambda v: s.QUEUED[v]))]
        if queue:
            r += [('no bounds are listed', allv(s, lambda v: s.VB.len[v] == 0, lambda v: s.VB.len[v]))]
        return r

    def kind(self, L):
        o = L.over
        if o is None:
            g = L.entry.store[GHOSTS[0]]
            return 'number' if z3.is_const(g) and g.eq(L.f.pre_st.store[GHOSTS[0]]) else 'enqueue'
        if o == L.f.apath(2):
            return 'cons'
        if o == F(L.f.tpath, 'bounds_'):
            return 'list'
        if o == F(L.f.tpath, 'variables_'):
            return 'vars'
        if o.acc and o.acc[-1] == ('f', 'bounds'):
            return 'pair'
        v = L.ex.read(L.st, o)
        if isinstance(v, VV) and isinstance(v.elem, SV) and 'co' in v.elem.f:
            return 'terms'
        if isinstance(v, VV) and isinstance(v.elem, SV) and set(v.elem.f) == {'first', 'second'}:
            return 'row'
        raise Unsupported('loop over %r' % (o,))

    def match(self, s, q, b, k):
        """Bound b is equivalent to constraint k."""
        v = s.B.var[b]
        x = q.csum(k)
        return [('bounds have the literals of their constraints', And(s.B.lit[b] == q.lit[k], rng(0, v, s.N), rng(0, s.B.rel[b], 3))),
                ('the rows of bounds are the sums of their constraints', z3.Implies(v >= s.nn, rowsum(s, v - s.nn) == x)),
                ('bounds are equivalent to their constraints', s.B.holds(b, z3.If(v >= s.nn, x, Y[v])) == q.holds(k))]

    def skipped(self, s, q, k):
        return Or(q.len[k] == 0, s.w.true[-q.lit[k]])

    def bounds(self, st, s, q, pos, b0):
        b, k, x = z3.Ints('b!p k!p x!p')
        kof, bof, at = (st.store[n] for n in GHOSTS)
        each = lambda f: z3.ForAll([b], z3.Implies(rng(b0, b, s.B.n), f), patterns=[kof[b], at[b], s.B.lit[b], s.B.var[b]])
        return [
            ('bounds are numbered', And(s.blen >= 0, s.B.n >= b0)),
            ('each constraint has a bound', z3.ForAll([k], z3.Implies(And(rng(0, k, pos), Not(self.skipped(s, q, k))), And(
                rng(b0, bof[k], s.B.n), kof[bof[k]] == k)), patterns=[bof[k], q.lit[k]])),
            ('each bound has a constraint', each(rng(0, kof[b], pos)))] + [
            (l, each(f)) for l, f in self.match(s, q, b, kof[b])] + [
            ('bounds are registered', each(And(rng(0, at[b], s.blen), s.BID[at[b]] == b))),
            ('registered bounds exist', z3.ForAll([x], z3.Implies(rng(0, x, s.blen), And(
                rng(b0, s.BID[x], s.B.n), s.B.lit[s.BID[x]] == s.KEY[x])), patterns=[s.BID[x], s.KEY[x]]))]

    def units(self, st, s, q, pos, master):
        k = z3.Int('k!p')
        return [('literals of constraints that cannot hold are forced to be false', z3.ForAll([k], z3.Implies(
            And(rng(0, k, pos), master, q.len[k] == 0, Not(q.holds(k, z3.RealVal(0)))), Or(
                st.store['$units'][-q.lit[k]], s.w.true[-q.lit[k]])), patterns=[q.lit[k]]))]

    def objective(self, s, o, b0):
        """The objective has a row, and one to bound it if it is shared."""
        ob = s.obj
        b = z3.Int('b')
        f = lambda v: And(s.nn <= v, v < s.N, rowsum(s, v - s.nn) == SUM(o.co, YS, o.var, o.n))
        free = z3.ForAll([b], z3.Implies(rng(b0, b, s.B.n), s.B.var[b] != ob.var), patterns=[s.B.var[b]])
        glob = s.options.global_objective.has
        return [('there is an objective if it has terms', ob.active == (o.n > 0)),
                ('the row of the objective is its sum', z3.Implies(o.n > 0, f(ob.var))),
                ('the objective variable is not bounded', z3.Implies(o.n > 0, free)),
                ('the row to bound the objective is its sum', z3.Implies(And(o.n > 0, glob), And(f(ob.bound_var), ob.bound_var != ob.var)))]

    def inv(self, L):
        c = L.f
        s, e = S(L.ex, L.st, c.tpath), S(L.ex, L.entry, c.tpath)
        q = self.cons(c)
        has, val, size = self.map(c)
        b0 = S(L.ex, c.pre_st, c.tpath).B.n
        k, l = z3.Ints('k!r l!r')
        kind, pos = self.kind(L), L.pos
        if kind == 'number':
            allp = lambda f, *ps: z3.ForAll([k], z3.Implies(rng(0, k, pos), f), patterns=list(ps))
            return [('number of variables', And(0 <= pos, pos <= size, s.nn == size, s.N == size)),
                    ('variables so far', allp(And(s.IDX[k] == k, s.REV[k] == k), s.IDX[k], s.REV[k]))]
        if kind == 'cons':
            return [('rows', s.nb <= pos), ('columns', s.nn == size), ('level', s.w.dl == e.w.dl), ('equal keys are adjacent', adjacent(s.bounds))] + self.fresh(s) + shape(s) + self.bounds(L.st, s, q, pos, b0) + self.units(L.st, s, q, pos, c.arg(4))
        if kind == 'terms':
            t, row = Terms(L.val(L.over)), L.v('row').t
            fst, snd = row.elem.f['first'], row.elem.f['second']
            return [('terms so far', And(row.len == pos, z3.ForAll([k], z3.Implies(rng(0, k, pos), And(
                fst[k] == val[t.var[k]], snd[k] == t.co[k])),
                patterns=[t.var[k], t.co[k]] if stored(fst) else [fst[k], snd[k]])))]
        if kind == 'row':
            row, i = L.val(L.over).t, L.v('i')
            fst, snd = row.elem.f['first'], row.elem.f['second']
            return [('other rows stay', z3.ForAll([k], z3.Implies(k != i, s.A[k] == e.A[k]), patterns=[s.A[k]])),
                    ('no entries outside', z3.ForAll([l], z3.Implies(Or(l < 0, l >= s.nn), s.A[i][l] == e.A[i][l]), patterns=[s.A[i][l]])),
                    ('entries ahead', z3.ForAll([k], z3.Implies(And(pos <= k, k < row.len), s.A[i][fst[k]] == 0), patterns=[fst[k]])),
                    ('the sum of the row', rowsum(s, i) == SUM(snd, Y, fst, pos))]
        if kind == 'enqueue':
            return [('position', And(0 <= pos, pos <= s.nb)), ('no conflicts', z3.ForAll([k], Not(s.Q[k]), patterns=[s.Q[k]])),
                    ('no variable is queued', allv(s, lambda v: Not(s.QUEUED[v]), lambda v: s.QUEUED[v]))] + pqueue(s)
        if kind == 'list':
            return self.listed(s, b0)
        return grows(e, s)

    def listed(self, s, b0):
        v, x = z3.Ints('v x')
        n, e = s.VB.len, s.VB.elem
        return [('numbers of bounds', allv(s, lambda v: n[v] >= 0, lambda v: n[v])),
                ('bounds of variables', z3.ForAll([v, x], z3.Implies(And(rng(0, v, s.N), rng(0, x, n[v])), And(
                    rng(b0, e[v][x], s.B.n), s.B.var[e[v][x]] == v)), patterns=[e[v][x]]))]

    def hints(self, L):
        c = L.f
        s, b = S(L.ex, L.st, c.tpath), S(L.ex, L.bi, c.tpath)
        kind = self.kind(L)
        if kind == 'row':
            row, i = L.val(L.over).t, L.v('i')
            fst, snd = row.elem.f['first'], row.elem.f['second']
            p = L._pos(L.bi)
            j, a = fst[p], snd[p]
            return [ADD.at(b.A[i], Y, ID, b.nn, j, a), prod_def(a, Y[ID[j]]), sum_def(snd, Y, fst, z3.simplify(p + 1))] + mark(fst[p])
        if kind == 'cons':
            return self.cons_hints(L, s, b)
        return []

    def cons_hints(self, L, s, b):
        q, pos = self.cons(L.f), L._pos(L.bi)
        n = b.B.n
        co, x = q.co[pos], q.var[pos]
        c0, x0 = co[0], x[0]
        r = mark(n, b.nb)
        r += [sum_def(co, YS, x, z3.IntVal(0)), sum_def(co, YS, x, z3.IntVal(1))]
        rhs = q.rhs[pos]
        r += [z3.Implies(c0 != 0, And(c0 * (rhs / c0) == rhs)), z3.Implies(c0 > 0, And(
                  (YS[x0] * c0 < rhs) == (YS[x0] < rhs / c0), (YS[x0] * c0 > rhs) == (YS[x0] > rhs / c0))),
              z3.Implies(c0 < 0, And((YS[x0] * c0 < rhs) == (YS[x0] > rhs / c0), (YS[x0] * c0 > rhs) == (YS[x0] < rhs / c0))),
              STD(rhs), STD(rhs / c0), STD(q.csum(pos))]
        return r

    def entry_hints(self, L):
        if self.kind(L) == 'row':
            s = S(L.ex, L.st, L.f.tpath)
            row, i = L.val(L.over).t, L.v('i')
            fst, snd = row.elem.f['first'], row.elem.f['second']
            return [ZERO.at(s.A[i], Y, ID, s.nn), sum_def(snd, Y, fst, z3.IntVal(0))]
        return []

    def exit_hints(self, L):
        if self.kind(L) == 'row':
            row = L.val(L.over).t
            fst, snd = row.elem.f['first'], row.elem.f['second']
            q, o = self.cons(L.f), self.obj(L.f)
            for over, pos in L.ex.loops[:-1]:
                if over == L.f.apath(2):
                    k = pos(L.st)
                    return [SAME.at(snd, q.co[k], Y, YS, fst, q.var[k], q.len[k])] + mark(k)
            return [SAME.at(snd, o.co, Y, YS, fst, o.var, o.n)]
        return []

    def contract(self):
        def post(c):
            s, e = T(c.ex, c.post_st, c.tpath), S(c.ex, c.pre_st, c.tpath)
            if z3.is_false(z3.simplify(c.rval)):
                return []
            q, o = self.cons(c), self.obj(c)
            zero = [s.sol_def(s.VAL), z3.ForAll([_i], ZERO.at(s.A[_i], s.VAL, s.IDX, s.nn), patterns=[SUM(s.A[_i], s.VAL, s.IDX, s.nn)])]
            r = []
            if 'base' in self.what:
                r += perm(s) + pqueue(s) + shape(s) + queue(s) + active(s) + consistent(s) + nonbasic_ok(s) + asserted(s) + vbounds(s)
                r += [(eqs(s)[0][0], eqs(s)[0][1], zero)]
                r += sane(s) + inv_values(s) + inv_bounds(s) + inv_tighter(s) + inv_sat(s)
                r += [('level', s.w.dl == e.w.dl), ('bounds exist', bounds_wf(s)), ('equal keys are adjacent', adjacent(s.bounds))]
            if 'constraints' in self.what:
                r += self.bounds(c.post_st, s, q, q.n, e.B.n)
            if 'units' in self.what:
                r += self.units(c.post_st, s, q, q.n, c.arg(4))
            from .threads import Whole
            if 'objective' in self.what:
                r += self.objective(s, o, e.B.n)
                r += [f for f in Whole(self.p, self.V).winv(s) if f[0] in OBJECTIVE]
            if 'whole' in self.what:
                # the set of solutions is fixed by the equations of the new tableau
                have = {f[0] for f in r}
                X = z3.Const('X!def', ROW)
                fix = [z3.ForAll([X], s.sol(X) == DEF(X), patterns=[s.sol(X)])]
                r += [('the propagator may use the solver: ' + f[0], f[1], fix + list(f[2] if len(f) > 2 else []))
                      for f in Whole(self.p, self.V).winv(s) if (f[0] not in have or f[0] == 'bounds exist') and f[0] not in OBJECTIVE]
            return [(f[0], z3.Implies(c.rval, f[1]), *f[2:]) for f in r]
        spec = LoopSpec(self.inv, hints=self.hints, entry_hints=self.entry_hints, exit_hints=self.exit_hints)
        return Contract('Solver<%s>::prepare' % self.V, self.pre, post, modifies=lambda c: [c.tpath, UNITS] + [Path(g, ()) for g in GHOSTS] + [Path('@Bound', ())] + UNWATCHED,
                        loops=[spec] * 16)

    def verify(self, gen):
        ex = make_exec(self.p, self.V)
        _, brel, bval = simple_contracts(self.p, self.r)
        ex.cfg.ghosts['$units'] = Leaf(SET)
        for g in GHOSTS:
            ex.cfg.ghosts[g] = Leaf(IDXS)
        ex.cfg.models.insert(0, Inverted(self.r))
        ex.cfg.models.insert(0, Emplaced(self))

        def on_clause(ex, st, c):
            n = z3.simplify(c.len)
            if not z3.is_int_value(n):
                raise Unsupported('clause of unknown length')
            ls = [c.elem[k] for k in range(n.as_long())]
            s, i = S(ex, st, ex.cur_ctx.tpath), z3.Int('i!eq')
            eqs = z3.ForAll([i], z3.Implies(rng(0, i, s.nb), Y[s.nn + i] == rowsum(s, i)), patterns=[rowsum(s, i)])
            if 'clauses' in self.what:
                ex.oblig(st, 'the added clause holds whenever the constraints hold', z3.Implies(eqs, Or([TRUE[x] for x in ls])), 'clause')
            if len(ls) == 1:
                ex.write(st, UNITS, z3.Store(ex.read(st, UNITS), ls[0], True))
        ex.on_clause = on_clause

        for f in cases(self.p, 'bound_val', self.V):
            ex.cfg.contracts[f.id] = bval(self.V)
        ex.cfg.contracts[self.p.find('Solver<%s>::Bound::conflicts' % self.V).id] = conflicts_contract(self.V)
        for f in cases(self.p, 'bound_rel'):
            ex.cfg.contracts[f.id] = brel

        def setup(ex, st, args):
            link_options(ex, st, 'this')
            st.assume(st.store['@Bound'].len >= 1)
            self.setup(ex, st, args)
        gen.verify(ex, self.p.find('Solver<%s>::prepare' % self.V), self.contract(), setup)


def stored(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE


def has_local(L, n):
    return L.ex.find_local(L.entry, (n,), None, 0) is not None


def verify(gen, p, *what):
    """The contract of prepare and what it rests on."""
    inv, brel, bval = simple_contracts(p, enums(p, 'Relation'))
    pp = gen.program('problem.cc')
    gen.verify(make_exec(p, 'Rational').__class__(pp, abstract_config(pp)), pp.find('invert'), inv)
    for i, f in enumerate(cases(p, 'bound_rel')):
        gen.verify(make_exec(p, 'Rational'), f, brel, label='bound_rel [instance %d]' % i)
    gen.prove(*[x for l in (SAME, ZERO, ADD) for x in l.parts()])
    for V in VALUES:
        for f in cases(p, 'bound_val', V):
            gen.verify(make_exec(p, V), f, bval(V), setup_solver(p, V, [EPS > 0]))
        f = p.find('Solver<%s>::Bound::conflicts' % V)
        ex = make_exec(p, V)
        ex.cfg.contracts[f.id] = conflicts_contract(V)
        gen.verify(ex, f, conflicts_contract(V), setup_solver(p, V))
        Prep(p, V, *what).verify(gen)
