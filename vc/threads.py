"""The propagator as clingo calls it: what check, propagate and undo guarantee for
the solver of the thread that calls them. The contracts of the functions of the
solver are the ones proved for C04 to C10, taken together."""
from .trail import *
from .c09 import OptLayer, KeepLayer, extend, sat_bounds
from .trail import _x, _k, _v
from . import c10


class Whole(OptLayer, KeepLayer):
    """All that is proved about the functions of a solver."""

    def __init__(self, p, V):
        super().__init__(p, V, 'eq', 'queue', 'clause')

    def range(self, s):
        o = s.obj
        return [('variables of the objective', z3.Implies(o.active, And(rng(0, o.var, s.N), z3.Implies(
            s.options.global_objective.has, And(rng(0, o.bound_var, s.N), o.bound_var != o.var)))))]

    def winv(self, s):
        return self.inv(s) + all_ok(s) + [('bounds exist', And(s.B.n >= 1, bounds_wf(s))), ('equal keys are adjacent', adjacent(s.bounds))] + self.range(s) + \
            tinv(s) + self.free(s)

    def broken(self, s):
        """What remains after a conflict until the level is undone."""
        return self.weak(s) + [('bounds exist', And(s.B.n >= 1, bounds_wf(s))), ('equal keys are adjacent', adjacent(s.bounds))] + self.range(s) + tinv(s) + self.free(s)

    def solve(self):
        c = TrailLayer.solve(self)
        return extend(c, lambda c: self.free(self.tpre(c)), lambda c: self.free(self.tpost(c)))


class Bounds(Whole):
    """Only what concerns the bounds on the objective: solving and optimizing leave
    the bounds that exist and the state of the objective alone."""

    def winv(self, s):
        return [('bounds exist', And(s.B.n >= 1, bounds_wf(s))), ('equal keys are adjacent', adjacent(s.bounds))] + self.range(s)
    broken = winv

    def only(self, n, post=None):
        c = getattr(Whole(self.p, self.V), n)()
        return Contract(c.name, None, post, c.modifies)

    def solve(self):
        return self.only('solve', lambda c: grows(self.tpre(c), self.tpost(c)))

    def optimize(self):
        return self.only('optimize')

    def store_sat_assignment(self):
        return self.only('store_sat_assignment')

    def check(self, c, a, b, go):
        """The objective is bounded as required by what other models had."""
        glob = a.opt.global_objective.has
        n = b.s.B.n - 1
        best = a.state
        new = And(glob, a.s.obj.generation != best.generation_)
        disc = And(b.s.w.total, b.s.obj.active, glob, b.s.obj.bounded, b.s.obj.discard_bounded)
        is_bound = lambda n: And(b.s.B.var[n] == a.s.obj.bound_var, b.s.B.rel[n] == GE)
        return [('the best objective is taken over', z3.Implies(And(go, glob), b.s.obj.generation == best.generation_)),
                ('the objective has to improve the best one by the step', z3.Implies(And(go, new, best.bounded_), And(
                    b.s.B.n > a.s.B.n, is_bound(a.s.B.n), b.s.B.val[a.s.B.n] == best.value_ + a.opt.global_objective.val))),
                ('after an unbounded one bounded objectives are discarded', z3.Implies(And(go, new, Not(best.bounded_)), b.s.obj.discard_bounded)),
                ('discarding bounded objectives is not switched off', z3.Implies(a.s.obj.discard_bounded, b.s.obj.discard_bounded)),
                ('a bounded objective is discarded after an unbounded one', z3.Implies(And(go, disc), And(
                    b.s.B.n > a.s.B.n, is_bound(n), b.s.B.val[n] > b.s.VAL[b.s.obj.var])))]


def stopping(c, more=None):
    """The contract of a function that returns false if the search has to stop."""
    base = c.post

    def post(x):
        g = Path('$stopped', ())
        return base(x) + [('stopping is noted', x.post_st.store['$stopped'] == Or(x.pre_st.store['$stopped'], Not(x.rval)))] + (more(x) if more else [])
    return Contract(c.name, c.pre, post, lambda x: c.modifies(x) + [Path('$stopped', ())])


class Prop:
    """View of a propagator and the solver of the calling thread."""

    def __init__(self, c, st, path=Path('this', ())):
        ex = c.ex
        self.t = ex.read(st, path)
        self.thread = ex.read(c.pre_st, F(W, 'thread'))
        f = self.t.f
        self.slvs, self.facts, self.offs = f['slvs_'], f['facts_'], f['facts_offset_']
        at = AT(F(path, 'slvs_'), self.thread)
        self.off = ex.read(st, F(at, 'first'))
        self.s = T(ex, st, F(at, 'second'))
        self.fn, self.fl = self.facts.len, self.facts.elem
        self.n = self.fl.len[self.thread]
        self.L = self.fl.elem[self.thread]
        self.end = self.offs.elem[self.thread]
        self.opt = View(f['options_'])
        self.state = View(f['objective_state_'])


def shape(P):
    t = P.thread
    return [('without an objective there is none to exchange', z3.Implies(And(P.opt.global_objective.has, Not(P.s.obj.active)),
                                                                            P.s.obj.generation == P.state.generation_)),
            ('thread', And(rng(0, t, P.slvs.len), rng(0, t, P.fn), rng(0, t, P.offs.len))),
            ('number of facts', P.n >= 0), ('facts of earlier steps', And(0 <= P.off, P.off <= P.end, P.end <= P.n)),
            ('facts are true on the top level', z3.ForAll([_k], z3.Implies(rng(0, _k, P.n), And(
                P.s.w.true[P.L[_k]], P.s.w.level[P.L[_k]] == 0)), patterns=[P.L[_k]]))]


def parts(W_, P, broken=False):
    return shape(P) + (W_.broken(P.s) if broken else W_.winv(P.s))


def slv_contracts(p, V, W_):
    cs = {n: getattr(W_, n)() for n in ('solve', 'optimize', 'store_sat_assignment', 'undo')}
    oc = c10.solver_contracts(p, V)
    cs['solve'] = stopping(cs['solve'])
    cs['integrate_objective'] = stopping(oc['integrate_objective'])
    cs['discard_bounded'] = stopping(oc['discard_bounded'])
    return cs


def contracts(p, V, W_):
    P_ = 'Propagator<%s>::' % V
    stop = lambda st: st.store['$stopped']

    def slv(c, *fs):
        return F(AT(F(c.tpath, 'slvs_'), c.pre_st.store['$world'].f['thread']), *fs)

    def mods(c):
        return [slv(c), Path('@Bound', ()), Path('$stopped', ())] + WORLD_ROOTS

    def pre(c):
        a = Prop(c, c.pre_st)
        return parts(W_, a) + [('nothing has stopped the search', Not(stop(c.pre_st)))]

    def state(c):
        a, b = Prop(c, c.pre_st), Prop(c, c.post_st)
        g = stop(c.post_st)
        ok, bad = W_.winv(b.s), W_.broken(b.s)
        names = {l for l, *_ in bad}
        r = [(l, z3.Implies(Not(g), f)) for l, f, *_ in ok if l not in names] + bad
        return grows(a.s, b.s) + shape(b) + r

    # ---- propagate
    def ppre(c):
        t = c.arg(1)
        return pre(c) + [('the literals became true on the current level', z3.ForAll([_k], z3.Implies(rng(0, _k, t.len), And(
            Prop(c, c.pre_st).s.w.true[t.elem[_k]], Prop(c, c.pre_st).s.w.level[t.elem[_k]] == Prop(c, c.pre_st).s.w.dl)), patterns=[t.elem[_k]])),
            ('number of literals', t.len >= 0)]

    def ppost(c):
        a, b = Prop(c, c.pre_st), Prop(c, c.post_st)
        t = c.arg(1)
        top = a.s.w.dl == 0
        return state(c) + [
            ('constraints of the literals hold', z3.Implies(Not(stop(c.post_st)), z3.ForAll([_x, _k], z3.Implies(And(
                rng(0, _x, a.s.blen), rng(0, _k, t.len), a.s.KEY[_x] == t.elem[_k]), enforced(b.s, a.s.BID[_x])),
                patterns=[z3.MultiPattern(a.s.KEY[_x], t.elem[_k])]))),
            ('literals on the top level are kept as facts', z3.Implies(top, And(b.n == a.n + t.len, z3.ForAll([_k], z3.Implies(
                rng(0, _k, a.n), b.L[_k] == a.L[_k]), patterns=[b.L[_k]]), z3.ForAll([_k], z3.Implies(
                    rng(0, _k, t.len), b.L[a.n + _k] == t.elem[_k]), patterns=[t.elem[_k]])))),
            ('other literals are not', z3.Implies(Not(top), And(b.n == a.n, b.L == a.L))),
            ('facts of earlier steps stay to be integrated', b.off == a.off)]
    propagate = Contract(P_ + 'propagate', ppre, ppost, lambda c: mods(c) + [AT(F(c.tpath, 'facts_'), c.pre_st.store['$world'].f['thread'])])

    # ---- check
    def cpre(c):
        a = Prop(c, c.pre_st)
        return pre(c) + [('the step fits the kind of numbers', z3.Implies(a.opt.global_objective.has, c10.RATIONAL(V, a.opt.global_objective.val)))]

    def cpost(c):
        a, b = Prop(c, c.pre_st), Prop(c, c.post_st)
        X = z3.Const('X', ROW)
        go = Not(stop(c.post_st))
        top = a.s.w.dl == 0
        if isinstance(W_, Bounds):
            return state(c) + W_.check(c, a, b, go)
        return state(c) + [
            ('constraints of facts of earlier steps hold', z3.Implies(And(go, top), z3.ForAll([_x, _k], z3.Implies(And(
                rng(0, _x, a.s.blen), rng(a.off, _k, a.end), a.s.KEY[_x] == a.L[_k]), enforced(b.s, a.s.BID[_x])),
                patterns=[z3.MultiPattern(a.s.KEY[_x], a.L[_k])]))),
            ('all facts of earlier steps are integrated', z3.Implies(And(go, top), b.off == a.end)),
            ('facts are integrated on the top level', z3.Implies(Not(top), b.off == a.off)),
            ('active bounds only get tighter', z3.Implies(go, tightened(a.s, b.s)[0][1])),
            ('the objective of a total assignment is optimal', z3.ForAll([X], z3.Implies(
                And(go, b.s.w.total, b.s.obj.active, b.s.obj.bounded, DEF(X), sat_bounds(b.s, X)), X[b.s.obj.var] <= b.s.VAL[b.s.obj.var]), patterns=[DEF(X)]))]
    check = Contract(P_ + 'check', cpre, cpost, mods)

    # ---- undo
    def upre(c):
        a = Prop(c, c.pre_st)
        return parts(W_, a, True) + [('a level is open', a.s.open(a.s.n - 1))]

    def upost(c):
        b = Prop(c, c.post_st)
        return shape(b) + W_.winv(b.s)
    undo = Contract(P_ + 'undo', upre, upost, lambda c: [slv(c)])
    return {'propagate': propagate, 'check': check, 'undo': undo}


def setup(p, V):
    def f(ex, st, args):
        st.assume(st.store['@Bound'].len >= 1)
        st.store['$options'] = ex.read(st, Path('this', (('f', 'options_'),)))
    return f


def verify(gen, p, V, *names, kind=Whole):
    W_ = kind(p, V)
    ex = make_exec(p, V)
    ex.cfg.ghosts['$stopped'] = Leaf(B)
    for n, c in slv_contracts(p, V, W_).items():
        ex.cfg.contracts[p.find('Solver<%s>::%s' % (V, n)).id] = c
    cs = contracts(p, V, W_)
    for n in names:
        gen.verify(ex, p.find('Propagator<%s>::%s' % (V, n)), cs[n], setup(p, V))
