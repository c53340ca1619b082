"""C15: the sign heuristic follows the documented mode."""
from .solver import *
from . import facade
from . import harness as H


def adjust_contract(p, V):
    sel = enums(p, 'SelectionHeuristic')

    def facts(c):
        s = Slv(c.ex, c.pre_st)
        return s, c.arg(1)

    def turns(s, lit, upto=None):
        """A bound of lit or of its complement asks for the complement."""
        x = z3.Int('x')
        h = s.B.holds(s.BID[x], s.VAL[s.B.var[s.BID[x]]])
        m = s.options.select
        pos, neg = s.KEY[x] == lit, s.KEY[x] == -lit
        return z3.Exists([x], And(0 <= x, x < s.blen, Or(
            And(m == sel['Match'], Or(And(pos, Not(h)), And(neg, h))),
            And(m == sel['Conflict'], Or(And(pos, h), And(neg, Not(h)))))))

    def pre(c):
        s, lit = facts(c)
        return [('equal keys are adjacent', adjacent(s.bounds)), ('bounds exist', bounds_wf(s)),
                ('selection mode', Or([s.options.select == v for v in sel.values()]))]

    def post(c):
        s, lit = facts(c)
        return [('the literal or its complement is returned', Or(c.rval == lit, c.rval == -lit)),
                ('without a heuristic the literal is returned', z3.Implies(s.options.select == sel['None'], c.rval == lit)),
                ('the complement is returned only if a bound asks for it', z3.Implies(c.rval != lit, turns(s, lit))),
                ('the complement is returned if a bound asks for it', z3.Implies(turns(s, lit), c.rval == -lit))]

    def inv(sgn):
        def f(L):
            s = Slv(L.ex, L.f.pre_st)
            lit = sgn * L.f.arg(1)
            x = z3.Int('x')
            h = s.B.holds(s.BID[x], s.VAL[s.B.var[s.BID[x]]])
            m = s.options.select
            first = L.entry_pos
            return [('position', And(first <= L.pos, L.pos <= s.blen)),
                    ('no bound so far asks for the complement', z3.ForAll([x], z3.Implies(And(first <= x, x < L.pos), And(
                        s.KEY[x] == lit, h != (m == (sel['Conflict'] if sgn == 1 else sel['Match'])))), patterns=[s.KEY[x]]))]
        return f
    return Contract('Solver<%s>::adjust' % V, pre, post, loops=[LoopSpec(inv(1)), LoopSpec(inv(-1))])


def compare_contract(V):
    def post(c):
        t, x = c.this, c.arg(0)
        return [('a value is compared by the relation of the bound', c.rval == z3.If(
            t.rel == LE, x <= t.value, z3.If(t.rel == GE, x >= t.value, x == t.value)))]
    return Contract('Solver<%s>::Bound::compare' % V, lambda c: [('relation', And(c.this.rel >= 0, c.this.rel <= 2))], post)


def generate(gen):
    for V in VALUES:
        facade.verify_callbacks(gen, V)
    p = gen.program('solving.cc')
    check_enums(p)
    for V in VALUES:
        ex = make_exec(p, V)
        f = p.find('Solver<%s>::adjust' % V)
        cmp = p.find('Solver<%s>::Bound::compare' % V, allow_none=True)
        if cmp is not None:
            cc = compare_contract(V)
            gen.verify(ex, cmp, cc, setup_solver(p, V))
            ex.cfg.contracts[cmp.id] = cc
        ac = adjust_contract(p, V)
        gen.verify(ex, f, ac, setup_solver(p, V))
        # the propagator asks the solver of the thread
        d = p.find('Propagator<%s>::decide' % V)
        ex2 = make_exec(p, V)

        asked = []

        def result(c):
            asked.append((c.tpath, c._args))
            return ADJ(c.arg(1))
        ex2.cfg.contracts[f.id] = Contract('Solver<%s>::adjust' % V, result=result)

        def post(c):
            ok = all(t.root == 'this' and [a for k, a in t.acc if k == 'f'] == ['slvs_', 'second'] for t, _ in asked) and asked
            r = [('exactly the solvers of the propagator are asked', z3.BoolVal(bool(ok)))]
            if ok:
                t, a = asked[-1]
                r += [('the solver of the thread is asked', t.acc[1][1] == c.arg(0)),
                      ('it is asked for the literal and its answer is returned', c.rval == ADJ(c.arg(2)))]
            return r
        gen.verify(ex2, d, Contract('Propagator<%s>::decide' % V, lambda c: [
            ('thread', And(c.arg(0) >= 0, c.arg(0) < c.this.slvs_.len))], post), setup_solver(p, V))


ADJ = z3.Function('answer_of_adjust', I, I)


def harness(scratch, seed, tier, failed, incomplete):
    return H.solver_histories(scratch, 'C15', seed, tier)
