"""Initialization of the propagator: what preparing a solver requires is
established, and each constraint literal is watched."""
from .prepare import *
from .c13 import Reg, PropModels, init_contract

WATCHED = Path('$watched', ())


BOTH = Path('$both', ())
MODE_BOTH = 3           # clingo_propagator_check_mode_both


class Init(PropModels):
    """The calls in init(): evaluate_theory by its contract (C11), a new solver by its constructor."""

    def __init__(self, prep):
        self.prep = prep

    def __call__(self, ex, e, f, kind):
        if kind == 'mcall' and f['n'].endswith('::set_check_mode'):
            return self.set_check_mode
        if kind == 'ctor' and not e['args']:
            if f['n'] == 'Tableau::Tableau':
                return lambda ex, e, st: [(st, z3.K(I, z3.K(I, z3.RealVal(0))))]
            if f['n'].startswith('std::priority_queue'):
                return lambda ex, e, st: [(st, z3.K(I, False))]
            if f['n'].startswith(('std::unordered_multimap', 'std::deque')):
                return lambda ex, e, st: [(st, ex.default(ex.shape(ex.p.ty(e['t']))))]
        return super().__call__(ex, e, f, kind)

    def set_check_mode(self, ex, e, st):
        """Whether fixpoints are checked, too."""
        def go(st, vs):
            m = ex.rd(st, vs[0])
            ex.write(st, BOTH, m == MODE_BOTH)
            return [(st, None)]
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: ex.bind(ex.eval_list(e['args'], st), go))

    def evaluate(self, ex, e, st):
        old = ex.read(st, F(ex.cur_ctx.tpath, 'iqs_'))
        out = super().evaluate(ex, e, st)
        for s, _ in out:
            t = ex.read(s, ex.cur_ctx.tpath)
            a, q, o = Cons(old, self.prep.r), Cons(t.f['iqs_'], self.prep.r), Terms(t.f['objective_'])
            s.assume(q.n >= a.n, q.kept(a, a.n), *[f for _, f in normal(self.prep, q)], simple(o.n, o.co, o.var))
        return out

    def add_solver(self, ex, e, st):
        a = [x for x in walk(e['args']) if x.get('k') == 'call' and x['f']['n'].startswith('std::forward_as_tuple')]
        if len(a) != 2:
            raise Unsupported('construction of a solver')

        def go(st, o):
            def go2(st, first):
                def go3(st, vs):
                    fn = [f for f in ex.p.funcs if f.is_ctor and f.rec == 'Solver<%s>' % self.prep.V and len(f.ps) == 1 and 'Options' in str(f.ps[0][2])]
                    if len(fn) != 1 or len(vs) != 1:
                        raise Unsupported('constructor of Solver')
                    v = ex.read(st, o)
                    new = ex.fresh_like(v, 'slvs')
                    k = z3.Int('k!slv')
                    a, b = v.elem.f['first'], new.elem.f['first']
                    st.assume(new.len == v.len + 1, z3.ForAll([k], z3.Implies(rng(0, k, v.len), b[k] == a[k]), patterns=[b[k]]))
                    ex.write(st, o, new)
                    at = AT(o, v.len)

                    def done(st, slv):
                        old = ex.read(st, F(at, 'second'))
                        ex.write(st, F(at, 'first'), ex.rd(st, first[0]))
                        ex.write(st, F(at, 'second'), SV(old.name, {**slv.f, 'options_': old.f['options_']}))
                        return [(st, at)]
                    return ex.bind(ex.construct(st, fn[0], vs, ex.p.ty(fn[0].d['thist'])), done)
                return ex.bind(ex.eval_list(a[1]['args'], st), go3)
            return ex.bind(ex.eval_list(a[0]['args'], st), go2)
        return ex.bind(ex.eval_any(e['o'], st), go)


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def normal(prep, q):
    """What prepare requires of the constraints themselves."""
    k = z3.Int('k!n')
    each = lambda f: z3.ForAll([k], z3.Implies(rng(0, k, q.n), f), patterns=[q.lit[k]])
    return [('constraints are in normal form', each(And(simple(q.len[k], q.co[k], q.var[k]), q.len[k] >= 0))),
            ('relations of constraints', each(prep.relation(q.rel[k])))]


def contract(prep, ex):
    """Each literal of a constraint is watched; the constraints are such that solvers can be prepared."""
    base = init_contract(prep.p, prep.V, ex)

    def cons(t):
        return Cons(t.t.f['iqs_'], prep.r)

    def watched(st, q, upto):
        k = z3.Int('k!w')
        return ('the literals of constraints are watched', z3.ForAll([k], z3.Implies(rng(0, k, upto), st.store['$watched'][q.lit[k]]), patterns=[q.lit[k]]))

    def pre(c):
        return base.pre(c) + normal(prep, cons(c.this)) + [('the first level', c.pre_st.store['$world'].f['dl'] >= 0),
            ('the objective is in normal form', simple(*terms(c.this)))]

    def post(c):
        q = cons(c.nthis)
        return base.post(c) + normal(prep, q) + [watched(c.post_st, q, q.n)] + facts_post(c)

    k = z3.Int('k!f')
    raw = lambda t: t.t if hasattr(t, 't') else t

    def offsets(t, n):
        fs, of = t.f['facts_'], t.f['facts_offset_']
        return [('facts known so far are to be integrated', And(of.len == n, z3.ForAll([k], z3.Implies(rng(0, k, n), of.elem[k] == fs.elem.len[k]), patterns=[of.elem[k]])))]

    def fresh(t):
        v = t.f['slvs_']
        return [('new solvers have no facts', z3.ForAll([k], z3.Implies(rng(0, k, v.len), v.elem.f['first'][k] == 0), patterns=[v.elem.f['first'][k]]))]

    def facts_post(c):
        a, b = raw(c.this), raw(c.nthis)
        f, g = a.f['facts_'], b.f['facts_']
        both, n = c.post_st.store['$both'], c.post_st.store['$threads']
        return [('facts of earlier steps are kept', And(g.len >= f.len, z3.ForAll([k], z3.Implies(rng(0, k, f.len), And(
            g.elem.len[k] == f.elem.len[k], g.elem.elem[k] == f.elem.elem[k])), patterns=[g.elem.len[k], g.elem.elem[k]]))),
                ('each thread has a list of facts', g.len >= n),
                ('other threads start without facts', z3.ForAll([k], z3.Implies(And(k >= f.len, k < g.len), g.elem.len[k] == 0), patterns=[g.elem.len[k]])),
                ('facts of earlier steps are integrated as soon as possible', z3.ForAll([k], z3.Implies(And(
                    rng(0, k, g.len), g.elem.len[k] > 0), both), patterns=[g.elem.len[k]])),
                ('with a global objective fixpoints are checked', z3.Implies(View(b.f['options_']).global_objective.has, both)),
                ('there is at most one solver per thread', b.f['slvs_'].len <= n)] + offsets(b, g.len) + fresh(b)

    def facts_inv(L):
        t = raw(L.this)
        fs = t.f['facts_']
        return offsets(t, L.pos) + [('facts so far are noticed', z3.ForAll([k], z3.Implies(And(
            rng(0, k, L.pos), fs.elem.len[k] != 0), L.v('has_facts')), patterns=[fs.elem.len[k]])), ('position in the facts', L.pos <= fs.len)]

    def solvers_inv(L):
        t = raw(L.this)
        return fresh(t) + [('one solver per thread so far', And(t.f['slvs_'].len == L.v('i'), L.v('i') <= L.st.store['$threads']))]

    def inv(o):
        def f(L):
            t, r = L.this, o(L)
            q = cons(t)
            r = r + normal(prep, q) + [('level', L.st.store['$world'].f['dl'] >= 0), ('the objective is in normal form', simple(*terms(t)))]
            if L.over == F(L.f.tpath, 'iqs_'):
                r.append(watched(L.st, q, L.pos))
            elif L.over is None:
                r.append(watched(L.st, q, q.n))
            return r
        return f

    def terms(t):
        o = Terms(t.t.f['objective_'])
        return o.n, o.co, o.var
    return Contract(base.name, pre, post, lambda c: base.modifies(c) + [WATCHED, BOTH, Path('@Bound', ())], loops=[
        LoopSpec(lambda L, o=inv(l.inv), m=m: o(L) + (m(L) if m else [])) for l, m in zip(base.loops, (facts_inv, None, None, solvers_inv))])


def verify(gen, prep):
    ex = make_exec(prep.p, prep.V)
    ex.cfg.ghosts['$watched'] = Leaf(SET)
    ex.cfg.ghosts['$both'] = Leaf(B)
    ex.cfg.ghosts['$threads'] = Leaf(I)
    ex.cfg.models.insert(0, Init(prep))
    c = prep.contract()
    f = prep.p.find('Solver<%s>::prepare' % prep.V)
    ex.cfg.contracts[f.id] = Contract(c.name, c.pre, lambda c: [('level', z3.Implies(
        c.rval, c.post_st.store['$world'].f['dl'] == c.pre_st.store['$world'].f['dl']))], lambda c: [c.tpath, Path('@Bound', ())] + UNWATCHED)
    gen.verify(ex, prep.p.find('Propagator<%s>::init' % prep.V), contract(prep, ex), setup_solver(
        prep.p, prep.V, extra=lambda ex, st, args: st.assume(st.store['$threads'] >= 1)))
