"""C10: global optimization requires each objective to improve by the step."""
from .solver import *
from .simplex import rng
from . import harness as H

RATIONAL = lambda V, x: ISRAT(x) if V == 'Rational' else z3.BoolVal(True)


def state_contracts(V):
    N = 'ObjectiveState<%s>::' % V

    def upd(c):
        o, n = c.this, c.nthis
        v, b = c.arg(0).first, c.arg(0).second
        take = And(o.bounded_, Or(Not(b), o.generation_ == 0, v > o.value_))
        return [('a better or unbounded value is taken over', z3.Implies(take, And(n.value_ == v, n.bounded_ == b))),
                ('taking over a value starts a new generation', z3.Implies(take, And(n.generation_ != o.generation_,
                                                                                     n.generation_ > 0))),
                ('any other value is ignored', z3.Implies(Not(take), And(n.value_ == o.value_, n.bounded_ == o.bounded_,
                                                                         n.generation_ == o.generation_))),
                ('the best value never gets worse', z3.Implies(And(n.bounded_, o.generation_ > 0), n.value_ >= o.value_)),
                ('an unbounded value stays the best', z3.Implies(Not(o.bounded_), And(Not(n.bounded_), n.value_ == o.value_)))]

    def val(c):
        o = c.this
        g, ng = c.arg(0), c.narg(0)
        return [('a value is given exactly if there is a newer one', c.rval.has == (g != o.generation_)),
                ('the value is the best one', z3.Implies(c.rval.has, And(c.rval.val.first == o.value_,
                                                                         c.rval.val.second == o.bounded_))),
                ('the generation of the value is noted', ng == o.generation_)]
    reset = Contract(N + 'reset', post=lambda c: [
        ('there is no best value', And(c.nthis.generation_ == 0, c.nthis.bounded_))],
        modifies=lambda c: [F(c.tpath, n) for n in ('value_', 'generation_', 'bounded_')])
    update = Contract(N + 'update', pre=lambda c: [('generations do not run out', c.this.generation_ < 2 ** 64 - 1)],
                      post=upd, modifies=lambda c: [F(c.tpath, n) for n in ('value_', 'generation_', 'bounded_')])
    value = Contract(N + 'value', post=val, modifies=lambda c: [c.apath(0)])
    return {'reset': reset, 'update': update, 'value': value}


def new_bound(c, value, cond, rv):
    """Under cond a bound objective >= value has been asserted by a new literal."""
    a, b = Slv(c.ex, c.pre_st, c.tpath), Slv(c.ex, c.post_st, c.tpath)
    x, y = z3.Ints('x y')
    last = c.new(Path('$last', ())).t
    n = a.B.n
    lit = b.B.lit[n]
    put = lambda label, f: (label, z3.Implies(cond, f))
    return [put('one bound is added', And(b.B.n == n + 1, b.blen == a.blen + 1)),
            put('the bound is on the objective', b.B.var[n] == a.obj.bound_var),
            put('the bound is a lower bound', b.B.rel[n] == GE),
            put('the bound has the required value', value(b.B.val[n])),
            put('the bound is found by its literal', z3.Exists([x], And(0 <= x, x < b.blen, b.KEY[x] == lit, b.BID[x] == n))),
            put('the literal is watched', c.new(Path('$watched', ()))[lit]),
            put('the literal is asserted by a unit clause', And(c.new(Path('$clauses', ())) == c.old(Path('$clauses', ())) + 1,
                                                                last.len == 1, last.elem[0] == lit)),
            put('all other bounds stay', bounds_kept(a, b)),
            put('bounds are added at most', z3.ForAll([x], z3.Implies(And(0 <= x, x < a.blen), z3.Exists([y], And(
                0 <= y, y < b.blen, b.KEY[y] == a.KEY[x], b.BID[y] == a.BID[x])))))]


def nothing(c, cond):
    """Under cond no bound and no clause is added."""
    a, b = Slv(c.ex, c.pre_st, c.tpath), Slv(c.ex, c.post_st, c.tpath)
    return [('nothing is asserted otherwise', z3.Implies(cond, And(
        b.B.n == a.B.n, b.blen == a.blen, a.KEY == b.KEY, a.BID == b.BID, bounds_kept(a, b),
        c.new(Path('$clauses', ())) == c.old(Path('$clauses', ())))))]


def state(c):
    """What is known about literals and bounds stays true."""
    a, b = Slv(c.ex, c.pre_st, c.tpath), Slv(c.ex, c.post_st, c.tpath)
    v, w = (View(s.store['$world']) for s in (c.pre_st, c.post_st))
    x = z3.Int('x')
    return [('true literals stay true', z3.ForAll([x], z3.Implies(v.true[x], And(w.true[x], w.level[x] == v.level[x])), patterns=[w.true[x], v.true[x]])),
            ('the decision level stays', w.dl == v.dl), ('bounds still exist', And(b.B.n >= 1, bounds_wf(b))),
            ('equal keys stay adjacent', adjacent(b.bounds))]


def bmods(c):
    return [F(c.tpath, 'bounds_'), F(c.tpath, 'conflict_clause_'), Path('@Bound', ())] + WORLD_ROOTS


def solver_contracts(p, V):
    N = 'Solver<%s>::' % V

    opt = lambda c: View(c.pre_st.store['$options']).global_objective
    T = z3.BoolVal(True)

    def pre(c, cond=T):
        s = Slv(c.ex, c.pre_st, c.tpath)
        return [('bounds exist', And(s.B.n >= 1, bounds_wf(s))), ('equal keys are adjacent', adjacent(s.bounds)),
                ('variable to bound the objective', z3.Implies(cond, rng(0, s.obj.bound_var, s.N))), active(c)]

    def active(c):
        s = Slv(c.ex, c.pre_st, c.tpath)
        return 'objective variable', z3.Implies(s.obj.active, rng(0, s.obj.var, s.N))

    def ipre(c):
        s = Slv(c.ex, c.pre_st, c.tpath)
        return pre(c, And(opt(c).has, s.obj.generation != c.arg(1).generation_)) + step_rational(c)

    def dpre(c):
        s = Slv(c.ex, c.pre_st, c.tpath)
        return pre(c, And(opt(c).has, s.obj.active))
    assertb = Contract(N + 'assert_bound_', pre, lambda c: new_bound(c, lambda v: v == c.arg(1), T, c.rval) + state(c), bmods)

    def step_rational(c):
        return [('the step fits the kind of numbers', z3.Implies(opt(c).has, RATIONAL(V, opt(c).val)))]

    def integ(c):
        a = Slv(c.ex, c.pre_st, c.tpath)
        st = c.arg(1)
        active = And(opt(c).has, a.obj.generation != st.generation_)
        b = Slv(c.ex, c.post_st, c.tpath)
        return new_bound(c, lambda v: v == st.value_ + opt(c).val, And(active, st.bounded_), c.rval) + \
            nothing(c, Not(And(active, st.bounded_))) + [
            ('without a new best value nothing needs to be done', z3.Implies(Not(active), c.rval)),
            ('after an unbounded value bounded ones are discarded', z3.Implies(And(active, Not(st.bounded_)), And(
                c.rval, b.obj.discard_bounded))),
            ('discarding bounded values is not switched off', z3.Implies(a.obj.discard_bounded, b.obj.discard_bounded)),
            ('discarding bounded values starts after an unbounded one only', z3.Implies(
                b.obj.discard_bounded, Or(a.obj.discard_bounded, And(active, Not(st.bounded_))))),
            ('the generation is noted', z3.Implies(opt(c).has, b.obj.generation == st.generation_)),
            ('the best value stays', And(c.narg(1).value_ == st.value_, c.narg(1).bounded_ == st.bounded_,
                                         c.narg(1).generation_ == st.generation_))] + state(c)

    def disc(c):
        a = Slv(c.ex, c.pre_st, c.tpath)
        cond = And(a.obj.active, opt(c).has, a.obj.bounded, a.obj.discard_bounded)
        return new_bound(c, lambda v: v > a.VAL[a.obj.var], cond, c.rval) + nothing(c, Not(cond)) + [
            ('nothing to discard', z3.Implies(Not(cond), c.rval))] + state(c)

    def geto(c):
        a = Slv(c.ex, c.pre_st, c.tpath)
        return [('there is a value exactly if there is an objective', c.rval.has == a.obj.active),
                ('the value is the one of the objective variable', z3.Implies(c.rval.has, And(
                    c.rval.val.first == a.VAL[a.obj.var], c.rval.val.second == a.obj.bounded)))]
    integrate = Contract(N + 'integrate_objective', ipre, integ,
                         lambda c: bmods(c) + [F(c.tpath, 'objective_', 'generation'), F(c.tpath, 'objective_', 'discard_bounded')])
    discard = Contract(N + 'discard_bounded', dpre, disc, bmods)
    get = Contract(N + 'get_objective', lambda c: [active(c)], geto)
    return {'assert_bound_': assertb, 'integrate_objective': integrate, 'discard_bounded': discard, 'get_objective': get}


def on_model_contract(V):
    def slv(c):
        return c.this.slvs_[c.pre_st.store['$world'].f['thread']].second

    def pre(c):
        t = c.this
        s = slv(c)
        return [('thread', And(c.pre_st.store['$world'].f['thread'] >= 0, c.pre_st.store['$world'].f['thread'] < t.slvs_.len)),
                ('objective variable', z3.Implies(s.objective_.active, rng(0, s.objective_.var, s.variables_.len))),
                ('generations do not run out', t.objective_state_.generation_ < 2 ** 64 - 1)]

    def post(c):
        t, n = c.this.objective_state_, c.nthis.objective_state_
        s = slv(c)
        v, b = s.variables_[s.objective_.var].value, s.objective_.bounded
        take = And(c.this.options_.global_objective.has, s.objective_.active, t.bounded_,
                   Or(Not(b), t.generation_ == 0, v > t.value_))
        return [('the objective of the model is reported if it is better', z3.Implies(take, And(
            n.value_ == v, n.bounded_ == b, n.generation_ != t.generation_))),
            ('otherwise the best value stays', z3.Implies(Not(take), And(n.value_ == t.value_, n.bounded_ == t.bounded_,
                                                                         n.generation_ == t.generation_)))]
    return Contract('Propagator<%s>::on_model' % V, pre, post,
                    lambda c: [F(c.tpath, 'objective_state_', n) for n in ('value_', 'generation_', 'bounded_')])


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    for V in VALUES:
        sc = state_contracts(V)
        for n, c in sc.items():
            f = p.find('ObjectiveState<%s>::%s' % (V, n))
            gen.verify(make_exec(p, V), f, c, setup_solver(p, V))
        ex = make_exec(p, V)
        for n, c in sc.items():
            ex.cfg.contracts[p.find('ObjectiveState<%s>::%s' % (V, n)).id] = c
        cs = solver_contracts(p, V)
        for n in ('assert_bound_', 'integrate_objective', 'discard_bounded', 'get_objective'):
            f = p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_'))
            if f is None:
                continue
            gen.verify(ex, f, cs[n], setup_solver(p, V))
            ex.cfg.contracts[f.id] = cs[n]
        f = p.find('Propagator<%s>::on_model' % V)
        ex = make_exec(p, V)
        for n, c in sc.items():
            ex.cfg.contracts[p.find('ObjectiveState<%s>::%s' % (V, n)).id] = c
        gen.verify(ex, f, on_model_contract(V), setup_solver(p, V))
        from . import threads
        threads.verify(gen, p, V, 'check', kind=threads.Bounds)


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C10', seed, tier)
