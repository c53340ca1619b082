"""C13: the interface reports exactly the variables and their values."""
from .cstr import *
from .nums import AbstractPair
from .solver import *
from . import facade
from . import harness as H

ASSUMPTIONS = ['the text of a value is a function of the value',
               'FLINT writes a canonical fraction as an integer or reduced fraction in base ten',
               'the terms clingo builds from a name and arguments are determined by them and differ if these differ']


class Reg:
    """The variables a Propagator knows: symbols with numbers and back."""

    def __init__(self, t):
        t = t.t if isinstance(t, View) else t
        m = t.f['var_map_']
        self.has, self.num, self.size = m.f['has'], m.f['val'], m.f['size']
        v = t.f['var_vec_']
        self.n, self.sym = v.len, v.elem
        self.t = t

    def inv(self):
        i, s = z3.Ints('i s')
        return [('as many numbers as symbols', And(self.size == self.n, self.n >= 0)),
                ('each variable has its own number', z3.ForAll([i], z3.Implies(And(0 <= i, i < self.n), And(
                    self.has[self.sym[i]], self.num[self.sym[i]] == i)), patterns=[self.sym[i]])),
                ('each symbol known is a variable', z3.ForAll([s], z3.Implies(self.has[s], And(
                    0 <= self.num[s], self.num[s] < self.n, self.sym[self.num[s]] == s)), patterns=[self.has[s]]))]


def pre_reg(c):
    return Reg(c.this).inv()


class PropModels:
    """What init() of the propagator calls."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'mcall' and n.startswith('std::vector<std::pair<unsigned long, Solver<') and n.endswith('::emplace_back'):
            return self.add_solver
        if kind == 'mcall' and n.startswith('std::unordered_map') and n.endswith('::emplace'):
            return self.um_emplace
        if kind == 'call' and n == 'evaluate_theory':
            return self.evaluate
        return None

    def evaluate(self, ex, e, st):
        def go(st, vs):
            for v in vs[2:]:
                ex.havoc(st, v, name='evaluated')
                x = ex.read(st, v)
                if isinstance(x, VV):
                    st.assume(x.len >= 0)
                    l = x.elem.f.get('lhs') if isinstance(x.elem, SV) else None
                    if l is not None:
                        k = z3.Int('k!len')
                        st.assume(z3.ForAll([k], l.len[k] >= 0, patterns=[l.len[k]]))
            return [(st, None)]
        # the function object is not called here
        def args(st):
            out = [(st, [])]
            for k, a in enumerate(e['args']):
                if k < 2:
                    out = [(s, vs + [None]) for s, vs in out]
                else:
                    out = [(s2, vs + [v]) for s, vs in out for s2, v in ex.eval_any(a, s)]
            return out
        return ex.bind(args(st), go)

    def add_solver(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            ex.havoc(st, o, name='slvs')
            w = ex.read(st, o)
            k = z3.Int('k!slv')
            st.assume(w.len == v.len + 1)
            return [(st, AT(o, v.len))]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def um_emplace(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                k, x = ex.rd(st, vs[0]), ex.rd(st, vs[1])
                has, val, size = (ex.read(st, F(o, g)) for g in ('has', 'val', 'size'))
                new = Not(has[k])
                # named, to be usable in patterns
                h2, v2 = z3.Const(ex.name('has'), has.sort()), z3.Const(ex.name('val'), val.sort())
                st.assume(h2 == z3.Store(has, k, True), v2 == z3.If(has[k], val, z3.Store(val, k, x)))
                ex.write(st, F(o, 'has'), h2)
                ex.write(st, F(o, 'val'), v2)
                ex.write(st, F(o, 'size'), z3.If(new, size + 1, size))
                return [(st, SV('std::pair', {'first': IterV(o, k, 'map'), 'second': new}))]
            return ex.bind(ex.eval_list(e['args'], st), go2)
        return ex.bind(ex.eval_any(e['o'], st), go)


def propagator_contracts(p, V):
    P = 'Propagator<%s>::' % V
    def lookup(c):
        r = Reg(c.this)
        s = c.arg(0)
        i = z3.Int('i')
        return [('a variable is found', z3.Implies(c.rval.has, And(0 <= c.rval.val, c.rval.val < r.n, r.sym[c.rval.val] == s))),
                ('nothing else is found', z3.Implies(Not(c.rval.has), z3.ForAll([i], z3.Implies(And(
                    0 <= i, i < r.n), r.sym[i] != s), patterns=[r.sym[i]])))]
    idx = lambda k: lambda c: pre_reg(c) + [('number of a variable', And(0 <= c.arg(k), c.arg(k) < Reg(c.this).n))]
    def slv(c, k=0):
        return Slv(c.ex, c.pre_st, F(AT(F(c.tpath, 'slvs_'), c._args[k]), 'second'))
    def thread(c):
        return ('thread', And(c.arg(0) >= 0, c.arg(0) < c.this.slvs_.len))

    def objective(c):
        s = slv(c)
        on = s.obj.active
        return [('there is an objective', c.rval.has == on),
                ('its value is the one of the assignment', z3.Implies(on, c.rval.val.first == s.VAL[s.obj.var])),
                ('it is reported as bounded as found', z3.Implies(on, c.rval.val.second == s.obj.bounded))]
    return {
        'lookup_symbol': Contract(P + 'lookup_symbol', pre_reg, lookup),
        'get_symbol': Contract(P + 'get_symbol', idx(0), lambda c: [('the symbol of the variable', c.rval == Reg(c.this).sym[c.arg(0)])]),
        'has_value': Contract(P + 'has_value', pre_reg, lambda c: [('exactly the variables have values', z3.Implies(
            c.arg(1) >= 0, c.rval == (c.arg(1) < Reg(c.this).n)))]),
        'n_values': Contract(P + 'n_values', pre_reg, lambda c: [('all variables are counted', c.rval == Reg(c.this).n)]),
        'get_value': Contract(P + 'get_value', lambda c: pre_reg(c) + [thread(c), ('variable', And(
            0 <= c.arg(1), c.arg(1) < slv(c).N))], lambda c: [('the value of the variable in the thread', c.rval == slv(c).VAL[c.arg(1)])]),
        'get_objective': Contract(P + 'get_objective', lambda c: pre_reg(c) + [thread(c), ('variable', z3.Implies(
            slv(c).obj.active, And(slv(c).obj.var >= 0, slv(c).obj.var < slv(c).N)))], objective),
    }


def init_contract(p, V, ex):
    def terms(t):
        """Each variable of the list of terms is known."""
        pass

    def known(r, v, upto=None):
        k = z3.Int('k')
        s = v.elem.f['var'][k]
        return z3.ForAll([k], z3.Implies(And(0 <= k, k < (v.len if upto is None else upto)), r.has[s]), patterns=[s])

    def known_all(r, q, upto):
        i, k = z3.Ints('i k')
        lhs = q.elem.f['lhs']
        s = lhs.elem.f['var'][i][k]
        return z3.ForAll([i, k], z3.Implies(And(0 <= i, i < upto, 0 <= k, k < lhs.len[i]), r.has[s]), patterns=[s])

    def kept(a, b):
        s, i = z3.Ints('s i')
        return [('variables keep their numbers', z3.ForAll([s], z3.Implies(a.has[s], And(b.has[s], b.num[s] == a.num[s])),
                                                           patterns=[a.has[s], b.has[s]])),
                ('variables keep their symbols', And(b.n >= a.n, z3.ForAll([i], z3.Implies(And(
                    0 <= i, i < a.n), b.sym[i] == a.sym[i]), patterns=[b.sym[i], a.sym[i]])))]

    def post(c):
        a, b = Reg(c.this), Reg(c.nthis)
        o, q = c.nthis.t.f['objective_'], c.nthis.t.f['iqs_']
        return b.inv() + kept(a, b) + [('the variables of the objective are known', known(b, o)),
                                       ('the variables of all constraints are known', known_all(b, q, q.len))]

    def base(L):
        a, b = Reg(L.f.this), Reg(L.this)
        return b.inv() + kept(a, b)

    def facts(L):
        return [('position', L.pos >= 0)] + base(L)

    def gather(L):
        """Walk over a list of terms."""
        b = Reg(L.this)
        e = Reg(L.ethis)
        t = L.lv('terms')
        v = L.val(t)
        v = v.t if isinstance(v, View) else v
        return [('position', L.pos >= 0)] + base(L) + [
            ('the variables so far are known', known(b, v, L.pos)),
            ('what was known stays known', kept(e, b)[0][1])]

    def iqs(L):
        b = Reg(L.this)
        t = L.this.t
        o, q = t.f['objective_'], t.f['iqs_']
        return [('position', And(0 <= L.pos, L.pos <= q.len))] + base(L) + [
            ('the variables of the objective are known', known(b, o)),
            ('the variables of the constraints so far are known', known_all(b, q, L.pos))]

    def solvers(L):
        t = L.this.t
        b = Reg(L.this)
        o, q = t.f['objective_'], t.f['iqs_']
        return base(L) + [('the variables of the objective are known', known(b, o)),
                          ('the variables of all constraints are known', known_all(b, q, q.len))]
    loops = [LoopSpec(facts), LoopSpec(gather), LoopSpec(iqs), LoopSpec(solvers)]
    return Contract('Propagator<%s>::init' % V, pre_reg, post, modifies=lambda c: [c.tpath] + WORLD_ROOTS, loops=loops)


def generate(gen):
    for V in VALUES:
        facade.verify(gen, V)
    facade.verify_c_interface(gen)
    facade.verify_model(gen)
    facade.verify_text(gen)
    facade.verify_flint_text(gen)
    p = gen.program('solving.cc')
    for V in VALUES:
        for n, c in propagator_contracts(p, V).items():
            f = p.find('Propagator<%s>::%s' % (V, n))
            ex = make_exec(p, V)
            gen.verify(ex, f, c, setup_solver(p, V))
        ex = make_exec(p, V)
        ex.cfg.models.insert(0, PropModels())
        prep = p.find('Solver<%s>::prepare' % V)
        ex.cfg.contracts[prep.id] = Contract('Solver<%s>::prepare' % V, modifies=lambda c: [c.tpath] + WORLD_ROOTS)
        gen.verify(ex, p.find('Propagator<%s>::init' % V), init_contract(p, V, ex), setup_solver(p, V))


def harness(scratch, seed, tier, failed, incomplete):
    return H.end_to_end(scratch, 'C13', seed, tier)
