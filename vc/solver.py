"""The solver layer: how the solver's data structures, the tableau and clingo
are seen by the contracts of solving.cc."""
import z3
from .core import *
from .base import *
from .stdmodels import StdModels, split_name
from .sums import PROD, QUOT, prod_def, quot_fact, zero_fact, pivoted, HAS, has_push, has_none

SET = z3.ArraySort(I, B)
MAT = z3.ArraySort(I, z3.ArraySort(I, R))
LE, GE, EQ = 0, 1, 2           # BoundRelation, checked against the source by enum_check
NODE = ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base')


def enums(p, name):
    """The constants of an enumeration of the source by name."""
    for n, vs in p.enums.items():
        if n == name or n.endswith('::' + name):
            return {c['n']: int(c['v']) for c in vs['cs']}
    raise Unsupported('no enumeration ' + name)


def check_enums(p):
    e = enums(p, 'BoundRelation')
    if (e['LessEqual'], e['GreaterEqual'], e['Equal']) != (LE, GE, EQ):
        raise Unsupported('numbering of BoundRelation')


# ---------------------------------------------------------------- shapes

def solver_shapes(ex, ty):
    if ty.k == 'rec':
        q, n = ty.q, ty.n
        if n == 'Tableau':
            return Leaf(MAT, 'Tableau')
        if q == 'std::unordered_multimap':
            return Vec(lambda: Struct(n, {'first': Leaf(I), 'second': Leaf(I, 'ref:Bound')}))
        if q == 'std::unordered_map':
            return Struct(n, lambda: {'has': Leaf(SET), 'val': Leaf(z3.ArraySort(I, I)), 'size': Leaf(I, unsigned=64)})
        if q in ('std::priority_queue', 'std::unordered_set', 'std::set'):
            return Leaf(SET, 'set')
        if n == 'Clingo::Symbol':
            return Leaf(I, 'Symbol', unsigned=64)
        if q == 'Clingo::Span' or n.startswith('Clingo::Span<'):
            return Vec(lambda: ex.shape(ty.args[0]))
        if n in ('Clingo::Assignment', 'Clingo::PropagateControl', 'Clingo::PropagateInit', 'Clingo::Control',
                 'Clingo::Model', 'std::shared_mutex', 'std::mutex') or n.startswith(('std::unique_lock', 'std::shared_lock')):
            return OpaqueS(n)
        if n.endswith('Propagator') or n.startswith('Propagator<') or n.startswith('ObjectiveState<'):
            return None
        if n.startswith('lambda#'):
            return OpaqueS('function object')
    if ty.k == 'ptr' and ty.to.k == 'rec' and ty.to.n.endswith('::Bound'):
        return PtrS('Bound')
    if ty.k == 'ptr' and ty.to.k == 'rec' and ty.to.n in ('Rational', 'RationalQ'):
        return PtrS('Bound', ('value',))
    return None


WORLD = {'dl': I, 'level': z3.ArraySort(I, I), 'true': SET, 'total': B, 'thread': I}
W = Path('$world', ())


def world_shape():
    return Struct('world', {k: Leaf(s) for k, s in WORLD.items()})


class SolverExec(Exec):
    """Execution with bounds in a region and entries of the tableau as quotients."""

    def __init__(self, p, cfg):
        super().__init__(p, cfg)
        self.prods = {}      # id of a z3 term -> (x, op, y)
        self.pairs = []      # (numerator, denominator, entry)

    # a Bound is stored in the region '@Bound', containers hold its index
    def redirect(self, st, p):
        if isinstance(p, Path) and len(p.acc) >= 2 and p.acc[-1] == ('f', 'second'):
            v = self.read(st, p)
            if is_z3(v) and v.sort() == I and self.is_bounds(p):
                return Path('@Bound', (('i', v),))
        return p

    def is_bounds(self, p):
        fs = [a for k, a in p.acc if k == 'f']
        return len(fs) >= 2 and fs[-2] == 'bounds_'

    def e_mem(self, e, st):
        return [(s, self.redirect(s, v) if s.exc is None else v) for s, v in super().e_mem(e, st)]

    # number operations: remember products and quotients, so that
    # x * numerator / denominator is known to be x * entry
    def call(self, st, fn, this, args):
        op = fn.s[8:] if fn.s.startswith('operator') and fn.rec is None else None
        if op in ('*', '/', '*=', '/=') and fn.id in self.cfg.contracts and len(fn.ps) == 2:
            x = self.rd(st, args[0])
            y = self.rd(st, args[1])
            if is_z3(x) and is_z3(y) and x.sort() == R and y.sort() == I and any(
                    y.eq(n) for a, d, q in self.pairs for n in (a, d)):
                # only the product with the whole entry has a meaning
                v = z3.Real(self.name('part'))
                self.note_product(st, v, x, op[0], y)
                if len(op) == 1:
                    return [(st, v)]
                self.write(st, args[0], v)
                return [(st, args[0])]
        return super().call(st, fn, this, args)

    def note_product(self, st, v, x, op, y):
        if x.sort() != R or y.sort() != I:
            return
        self.prods[v.get_id()] = (x, op, y, v)
        p = self.prods.get(x.get_id())
        if p is None:
            return
        z, op1, y1, _ = p
        for a, d, q in self.pairs:
            for (n1, o1, n2, o2), r in (((a, '*', d, '/'), PROD(q, z)), ((d, '/', a, '*'), PROD(q, z)),
                                        ((a, '/', d, '*'), QUOT(z, q)), ((d, '*', a, '/'), QUOT(z, q))):
                if op1 == o1 and op == o2 and y1.eq(n1) and y.eq(n2):
                    st.assume(v == r)
                    if o1 == '/':
                        st.assume(quot_fact(z, q))


def muldiv_lemmas():
    """What note_product assumes: a is the numerator and d the denominator of entry q."""
    x, q, p, r = z3.Reals('x q p r')
    a, d = z3.Ints('a d')
    A, D = z3.ToReal(a), z3.ToReal(d)
    h = [d != 0, a != 0, q != 0, A == q * D]
    df = [prod_def(q, x), QUOT(x, q) == x / q, prod_def(q, QUOT(x, q))]
    vs = (x, q, a, d, p, r)
    return [Lemma('multiplying by numerator, dividing by denominator', vs, h + df + [p == x * A, r * D == p], r == PROD(q, x)),
            Lemma('dividing by denominator, multiplying by numerator', vs, h + df + [p * D == x, r == p * A], r == PROD(q, x)),
            Lemma('dividing by numerator, multiplying by denominator', vs, h + df + [p * A == x, r == p * D], r == QUOT(x, q)),
            Lemma('multiplying by denominator, dividing by numerator', vs, h + df + [p == x * D, r * A == p], r == QUOT(x, q)),
            Lemma('quotient times divisor', (x, q), df, quot_fact(x, q)),
            Lemma('product with zero', (x, q), df, zero_fact(q, x))]


# ---------------------------------------------------------------- models

class SolverModels(StdModels):
    """clingo, the hash containers, queues and the tableau."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        cls, m = split_name(n)
        if kind == 'call' and n.startswith('std::get'):
            return self.f_get
        if kind == 'mcall':
            if cls == 'std::vector' and m in ('emplace_back', 'push_back', 'clear'):
                return self.method('v_', m)
            if cls == 'std::unordered_multimap':
                return getattr(self, 'mm_' + self.OPS.get(m, m), None)
            if cls == 'std::unordered_map':
                return getattr(self, 'um_' + self.OPS.get(m, m), None)
            if cls == 'std::priority_queue':
                return getattr(self, 'pq_' + m, None)
            if cls == 'std::deque' and m == 'pop_front':
                return self.dq_pop_front
            if cls.startswith('Clingo::'):
                h = getattr(self, 'cl_' + m, None)
                if h:
                    return h
                if cls.startswith('Clingo::Span'):
                    return self.method('v_', m)
            if n.startswith('Tableau::'):
                return getattr(self, 'tb_' + m, None)
            if cls in ('std::shared_mutex', 'std::mutex', 'std::unique_lock', 'std::shared_lock'):
                return self.nothing
        if kind == 'ctor':
            if cls in ('std::unique_lock', 'std::shared_lock', 'std::lock_guard', 'std::scoped_lock'):
                return self.lock
            if cls.startswith('Clingo::Span'):
                return self.span
            if cls == 'Clingo::Assignment':
                return lambda ex, e, st: [(st, Opq('Clingo::Assignment'))]
        return None

    # ---- vectors of literals: their members
    def v_emplace_back(self, ex, e, st):
        out = []
        for s2, r in super().v_emplace_back(ex, e, st):
            if s2.exc is None and isinstance(r, Path) and r.acc and r.acc[-1][0] == 'i':
                v = ex.read(s2, Path(r.root, r.acc[:-1]))
                if isinstance(v, VV) and is_z3(v.elem) and v.elem.sort() == z3.ArraySort(I, I):
                    n, el = r.acc[-1][1], v.elem
                    if z3.is_app(el) and el.decl().kind() == z3.Z3_OP_STORE and (el.arg(1).eq(z3.simplify(n)) or el.arg(1).eq(n)):
                        c = z3.Const(ex.name('literals'), el.sort())
                        s2.assume(c == el, has_push(el.arg(0), n, el.arg(2), c), HAS(c, z3.simplify(n + 1), el.arg(2)))
                        ex.write(s2, Path(r.root, r.acc[:-1]), VV(v.len, c))
            out.append((s2, r))
        return out
    v_push_back = v_emplace_back

    def v_clear(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            if is_z3(v.elem) and v.elem.sort() == z3.ArraySort(I, I):
                st.assume(has_none(v.elem))
            return [(st, None)]
        return ex.bind(super().v_clear(ex, e, st), lambda st, _: self.obj(ex, e, st, go))

    # ---- locks: no effect in a sequential run
    def nothing(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, None)])

    def lock(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, Opq('lock'))])

    # ---- multimap of bounds: a sequence with equal keys next to each other
    def mm_find(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                k = ex.rd(st, vs[0])
                v = ex.read(st, o)
                f = ex.fresh_int('found')
                q = z3.Int('q!f')
                K = v.elem.f['first']
                st.assume(0 <= f, f <= v.len, z3.Implies(f < v.len, K[f] == k),
                          z3.ForAll([q], z3.Implies(And(0 <= q, q < f), K[q] != k), patterns=[K[q]]))
                return [(st, IterV(o, f))]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def mm_end(self, ex, e, st):
        return self.v_end(ex, e, st)

    def mm_begin(self, ex, e, st):
        return self.v_begin(ex, e, st)
    mm_cbegin, mm_cend = mm_begin, mm_end

    def mm_size(self, ex, e, st):
        return self.v_size(ex, e, st)

    def mm_empty(self, ex, e, st):
        return self.v_empty(ex, e, st)

    def mm_emplace(self, ex, e, st):
        """A new bound; existing ones stay where they are in memory."""
        def go(st, o):
            def go2(st, vs):
                k = ex.rd(st, vs[0])
                b = ex.rd(st, vs[1])
                if not isinstance(b, SV):
                    raise Unsupported('emplace of %r' % (b,))
                v = ex.read(st, o)
                reg = Path('@Bound', ())
                rv = ex.read(st, reg)
                n = rv.len
                st.assume(n >= 1)
                ex.write(st, reg, VV(z3.simplify(n + 1), rv.elem))
                ex.write(st, AT(reg, n), b)
                K, S = v.elem.f['first'], v.elem.f['second']
                new = ex.fresh_like(v, 'bounds')
                K2, S2 = new.elem.f['first'], new.elem.f['second']
                at = ex.fresh_int('at')
                q, r = z3.Ints('q!e r!e')
                old = z3.If(q < at, q, q - 1)
                st.assume(new.len == v.len + 1, 0 <= at, at <= v.len, K2[at] == k, S2[at] == n,
                          z3.ForAll([q], z3.Implies(And(0 <= q, q < new.len, q != at), And(
                              K2[q] == K[old], S2[q] == S[old])), patterns=[K2[q], S2[q]]),
                          z3.ForAll([q], z3.Implies(And(0 <= q, q < v.len), And(
                              K2[z3.If(q < at, q, q + 1)] == K[q], S2[z3.If(q < at, q, q + 1)] == S[q])),
                              patterns=[K[q], S[q]]),
                          adjacent(new))
                ex.write(st, o, SVV(new))
                return [(st, IterV(o, at))]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def f_get(self, ex, e, st):
        return [(s, ex.redirect(s, v) if s.exc is None and isinstance(ex, SolverExec) else v)
                for s, v in super().f_get(ex, e, st)]

    # ---- hash map
    def um_find(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                k = ex.rd(st, vs[0])
                return [(st, IterV(o, z3.If(ex.read(st, F(o, 'has'))[k], k, z3.IntVal(-1)), 'map'))]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def um_end(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, IterV(o, z3.IntVal(-1), 'map'))])
    um_cend = um_end

    def um_size(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, ex.read(st, F(o, 'size')))])

    # ---- priority queue: the set of its elements; one that is taken out may be in it again
    def pq_empty(self, ex, e, st):
        def go(st, o):
            s = ex.read(st, o)
            b, w = z3.Bool(ex.name('empty')), ex.fresh_int('member')
            x = z3.Int('x!pq')
            st.assume(z3.Implies(b, z3.ForAll([x], Not(s[x]), patterns=[s[x]])), z3.Implies(Not(b), s[w]))
            return [(st, b)]
        return self.obj(ex, e, st, go)

    def least(self, ex, st, s):
        t = ex.fresh_int('top')
        x, w = z3.Int('x!pq'), ex.fresh_int('member')
        ex.oblig(st, 'queue is not empty', z3.Exists([x], s[x]), 'safety')
        st.assume(s[t], z3.ForAll([x], z3.Implies(s[x], t <= x), patterns=[s[x]]))
        return t

    def pq_top(self, ex, e, st):
        def go(st, o):
            return [(st, self.least(ex, st, ex.read(st, o)))]
        return self.obj(ex, e, st, go)

    def pq_pop(self, ex, e, st):
        def go(st, o):
            s = ex.read(st, o)
            t = self.least(ex, st, s)
            ex.write(st, o, z3.Store(s, t, z3.Bool(ex.name('again'))))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    def pq_emplace(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                x = ex.rd(st, vs[0])
                s = ex.read(st, o)
                ex.write(st, o, z3.Store(s, x, True))
                return [(st, None)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)
    pq_push = pq_emplace

    def dq_pop_front(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            self.nonempty(ex, st, v.len)
            new = ex.fresh_like(v, 'popped')
            k = z3.Int('k!q')
            for (_, a), (_, b) in zip(leaves(v.elem), leaves(new.elem)):
                st.assume(z3.ForAll([k], b[k] == a[k + 1], patterns=[b[k]]))
            ex.write(st, o, VV(z3.simplify(v.len - 1), new.elem))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    # ---- clingo: the assignment and clauses
    def cl_assignment(self, ex, e, st):
        return self.oarg(ex, e, st, lambda st: Opq('Clingo::Assignment'))

    def oarg(self, ex, e, st, fn):
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, fn(st))])

    def cl_decision_level(self, ex, e, st):
        return self.oarg(ex, e, st, lambda st: ex.read(st, F(W, 'dl')))

    def cl_is_total(self, ex, e, st):
        return self.oarg(ex, e, st, lambda st: ex.read(st, F(W, 'total')))

    def cl_number_of_threads(self, ex, e, st):
        def go(st, o):
            if '$threads' not in st.store:
                st.store['$threads'] = z3.Int(ex.name('threads'))
            st.assume(st.store['$threads'] >= 1)
            return [(st, st.store['$threads'])]
        return self.obj(ex, e, st, go)

    def cl_set_check_mode(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, None)])

    def cl_theory_atoms(self, ex, e, st):
        return [(st, Opq('Clingo::TheoryAtoms'))]

    def cl_thread_id(self, ex, e, st):
        return self.oarg(ex, e, st, lambda st: ex.read(st, F(W, 'thread')))

    def lit_arg(self, ex, e, st, fn):
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: self.args(
            ex, e, st, lambda st, vs: [(st, fn(st, ex.rd(st, vs[0])))]))

    def cl_level(self, ex, e, st):
        return self.lit_arg(ex, e, st, lambda st, l: ex.read(st, F(W, 'level'))[l])

    def cl_is_true(self, ex, e, st):
        return self.lit_arg(ex, e, st, lambda st, l: ex.read(st, F(W, 'true'))[l])

    def cl_is_false(self, ex, e, st):
        return self.lit_arg(ex, e, st, lambda st, l: ex.read(st, F(W, 'true'))[-l])

    def world_grows(self, ex, st):
        """More literals may become true on the current level or below."""
        w = ex.read(st, W)
        new = ex.fresh_like(w, 'world')
        x = z3.Int('x!w')
        st.assume(new.f['dl'] == w.f['dl'], new.f['thread'] == w.f['thread'],
                  z3.ForAll([x], z3.Implies(w.f['true'][x], And(new.f['true'][x], new.f['level'][x] == w.f['level'][x])),
                            patterns=[new.f['true'][x], w.f['true'][x]]))
        ex.write(st, W, new)

    def cl_add_clause(self, ex, e, st):
        """clingo takes any clause; what it may contain is the obligation of the caller."""
        def go(st, o):
            def go2(st, vs):
                c = ex.rd(st, vs[0])
                if isinstance(c, ListV):
                    c = ex.vec_from_list(ListV([ex.rd(st, x) for x in c.items]), Vec(Leaf(I)))
                if not isinstance(c, VV):
                    raise Unsupported('clause %r' % (c,))
                h = getattr(ex, 'on_clause', None)
                if h:
                    h(ex, st, c)
                r = z3.Bool(ex.name('added'))
                ex.write(st, Path('$last', ()), c)
                self.world_grows(ex, st)
                ex.write(st, Path('$clauses', ()), ex.read(st, Path('$clauses', ())) + 1)
                return [(st, r)]
            return self.args(ex, e, st, go2)
        return ex.bind(ex.eval_any(e['o'], st), go)

    def cl_propagate(self, ex, e, st):
        def go(st, o):
            self.world_grows(ex, st)
            return [(st, z3.Bool(ex.name('propagated')))]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def cl_add_literal(self, ex, e, st):
        def go(st, o):
            l = ex.fresh_int('literal')
            st.assume(l > 0)
            h = getattr(ex, 'on_literal', None)
            if h:
                h(ex, st, l)
            return [(st, l)]
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: self.args(ex, e, st, lambda st, vs: go(st, o)))

    def cl_add_watch(self, ex, e, st):
        def go(st, vs):
            w = Path('$watched', ())
            ex.write(st, w, z3.Store(ex.read(st, w), ex.rd(st, vs[0]), True))
            return [(st, None)]
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: self.args(ex, e, st, go))

    def span(self, ex, e, st):
        def go(st, vs):
            x = ex.rd(st, vs[0])
            if isinstance(x, ListV):
                x = ex.vec_from_list(ListV([ex.rd(st, y) for y in x.items]), Vec(Leaf(I)))
            if isinstance(x, VV):
                return [(st, x)]
            if isinstance(x, IterV) and len(vs) >= 2:
                return [(st, self.slice(ex, st, ex.read(st, x.path), x.idx, ex.rd(st, vs[1])))]
            if isinstance(x, PtrV) and len(vs) >= 2 and x.path.acc and x.path.acc[-1][0] == 'i':
                n = ex.rd(st, vs[1])
                if isinstance(n, PtrV):
                    n = ex.ptr_op(st, '-', n, x)
                return [(st, self.slice(ex, st, ex.read(st, Path(x.path.root, x.path.acc[:-1])), x.path.acc[-1][1], n))]
            raise Unsupported('span of %r' % (x,))
        return self.args(ex, e, st, go)

    def slice(self, ex, st, v, first, n):
        """n elements of v."""
        if isinstance(n, IterV):
            n = n.idx - first
        if ex.cfg.check_bounds:
            ex.oblig(st, 'span is in range', And(first >= 0, n >= 0, first + n <= v.len), 'safety')
        new = ex.fresh_like(v, 'span').elem
        up, dn, k = z3.Function(ex.name('up'), I, I), z3.Function(ex.name('down'), I, I), z3.Int('k!s')
        st.assume(z3.ForAll([k], And(new[dn(k)] == v.elem[k], dn(k) == k - first, up(dn(k)) == k), patterns=[v.elem[k]]),
                  z3.ForAll([k], And(new[k] == v.elem[up(k)], up(k) == k + first, dn(up(k)) == k), patterns=[new[k]]))
        return VV(z3.simplify(n), new)

    # ---- the tableau, by the contracts proved for it (C02, C03)
    def entry(self, ex, st, q):
        """Numerator and denominator of a non-zero entry with value q."""
        a, d = ex.fresh_int('num'), ex.fresh_int('den')
        st.assume(a != 0, d != 0, q != 0, ((a > 0) == (d > 0)) == (q > 0))
        ex.pairs.append((a, d, q))
        return a, d

    def tb_get(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: self.args(ex, e, st, lambda st, vs: [
            (st, ex.read(st, o)[ex.rd(st, vs[0])][ex.rd(st, vs[1])])]))

    def tb_set(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                i, j, v = (ex.rd(st, x) for x in vs)
                A = ex.read(st, o)
                ex.write(st, o, z3.Store(A, i, z3.Store(A[i], j, v)))
                return [(st, None)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def tb_unsafe_get(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                i, j = ex.rd(st, vs[0]), ex.rd(st, vs[1])
                A = ex.read(st, o)
                ex.oblig(st, 'precondition of Tableau::unsafe_get: the entry is not zero', A[i][j] != 0, 'pre')
                st.assume(A[i][j] != 0)
                a, d = self.entry(ex, st, A[i][j])
                for p, x in zip(vs[2:], (a, d)):
                    if ex.rec is not None:
                        ex.rec.append(p)
                    st.store[p.root] = self.put(ex, st, st.store[p.root], p.acc, PtrV(ex.new_root(st, 'entry', x), False))
                return [(st, None)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def put(self, ex, st, t, acc, v):
        if not acc:
            return v
        raise Unsupported('pointer into the tableau is stored in an object')

    def tb_pivot(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                i, j, a, d = (ex.rd(st, x) for x in vs)
                A = ex.read(st, o)
                ex.oblig(st, 'precondition of Tableau::pivot: the entry is not zero', A[i][j] != 0, 'pre')
                ex.oblig(st, 'precondition of Tableau::pivot: numerator and denominator are the ones of the entry',
                         z3.Or([And(a == x, d == y, A[i][j] == q) for x, y, q in ex.pairs] or [z3.BoolVal(False)]), 'pre')
                st.assume(A[i][j] != 0)
                A2 = ex.fresh_like(A, 'pivoted')
                k, l = z3.Ints('k!p l!p')
                st.assume(z3.ForAll([k, l], A2[k][l] == pivoted(A, i, j, k, l), patterns=[A2[k][l]]))
                ex.write(st, o, A2)
                ex.pairs = list(ex.pairs)
                return [(st, None)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def tb_update_row(self, ex, e, st):
        return self.walk(ex, e, st, True)

    def tb_update_col(self, ex, e, st):
        return self.walk(ex, e, st, False)

    def walk(self, ex, e, st, row):
        """One call of the function object per non-zero entry, in no particular order."""
        def go(st, o):
            def go2(st, vs):
                fixed = ex.rd(st, vs[0])
                clo = ex.rd(st, vs[1])
                if not isinstance(clo, Closure):
                    raise Unsupported('walk with %r' % (clo,))
                return foreach(ex, e, st, o, fixed, clo, row)
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)


def SVV(v):
    return v


def foreach(ex, e, st, tab, fixed, clo, row):
    fns = [ex.p.byid[i] for i in clo.fids if i in ex.p.byid]
    for fn in fns:
        for _, _, t in fn.ps[1:]:
            if t.isref and not t.to.const:
                raise Unsupported('function object changes entries of the tableau')
    A = ex.read(st, tab)
    ent = (lambda k: A[fixed][k]) if row else (lambda k: A[k][fixed])
    root = ex.new_root(st, '$done', z3.K(I, False))
    cur = ex.new_root(st, '$cur', z3.IntVal(-1))

    def cond(st):
        return [(st, z3.Bool(ex.name('more')))]

    def body(st):
        k = ex.fresh_int('entry')
        done = ex.read(st, root)
        st.assume(k >= 0, Not(done[k]), ent(k) != 0)
        h = getattr(ex, 'entry_facts', None)
        if h:
            st.assume(h(ex, st, fixed if row else k, k if row else fixed))
        a, d = ex.cfg.solver_models.entry(ex, st, ent(k))
        ex.write(st, cur, k)
        st.store['$current'] = k
        out = []
        for s2, v in ex.call_closure(st, clo, [k, ex.new_root(st, 'num', a), ex.new_root(st, 'den', d)]):
            if s2.exc is not None:
                out.append(('x', s2, None))
                continue
            if not ex.read(s2, tab).eq(A):
                raise Unsupported('tableau changes during a walk')
            ex.write(s2, root, z3.Store(ex.read(s2, root), k, True))
            out.append(('n', s2, None))
        return out

    x = z3.Int('x!w')

    def auto(st):
        done = ex.read(st, root)
        return [z3.ForAll([x], z3.Implies(done[x], And(x >= 0, ent(x) != 0)), patterns=[done[x]])]
    out = []
    for o in ex.loop_core(e, st, cond, body, lambda st: [(st, None)], lambda st: ex.read(st, root), auto=auto):
        if o[0] == 'n':
            s2 = o[1]
            done = ex.read(s2, root)
            s2.assume(z3.ForAll([x], z3.Implies(And(x >= 0, ent(x) != 0), done[x]),
                                patterns=[done[x], ent(x)]))
            out.append((s2, None))
        elif o[0] == 'x':
            out.append((o[1], None))
        else:
            raise Unsupported('walk is left early')
    return out


def adjacent(v):
    """Equal keys are next to each other."""
    K = v.elem.f['first']
    p, q, r = z3.Ints('p q r')
    return z3.ForAll([p, q, r], z3.Implies(And(0 <= p, p <= q, q <= r, r < v.len, K[p] == K[r]), K[q] == K[p]),
                     patterns=[z3.MultiPattern(K[p], K[q], K[r])])


def is_foreach(self, x):
    n = x['f'].get('n', '')
    return n.startswith('Tableau::update_row') or n.startswith('Tableau::update_col')


SolverExec.is_foreach = is_foreach


def config(p):
    cfg = abstract_config(p)
    cfg.shapes.insert(0, solver_shapes)
    cfg.solver_models = SolverModels()
    cfg.models.insert(0, cfg.solver_models)
    cfg.ghosts = {'$world': world_shape(), '$clauses': Leaf(I), '$last': Vec(Leaf(I)), '$watched': Leaf(SET)}
    return cfg


def bound_type(p, V):
    for f in p.funcs:
        if f.rec == 'Solver<%s>::Bound' % V and f.is_method:
            return p.ty(f.d['thist'])
    return None


def setup_solver(p, V, ax=(), extra=None):
    """Setup of a member function of Solver<V> (or of a function with this at `this`)."""
    def setup(ex, st, args):
        st.assume(list(ax))
        st.assume(st.store['@Bound'].len >= 1)
        t = st.store.get('this')
        if isinstance(t, SV) and 'tableau_' in t.f:
            link_options(ex, st, 'this')
        if extra:
            return extra(ex, st, args)
    return setup


def link_options(ex, st, root):
    t = st.store[root]
    if '$options' not in st.store:
        for f in ex.p.funcs:
            if f.is_ctor and f.rec == t.name and f.ps and 'Options' in str(f.ps[0][2]):
                st.store['$options'] = ex.fresh(ex.shape(f.ps[0][2]), 'options')
                break
    f = dict(t.f)
    f['options_'] = RefV(Path('$options', ()))
    st.store[root] = SV(t.name, f)


def make_exec(p, V):
    cfg = config(p)
    bt = bound_type(p, V)
    ex = SolverExec(p, cfg)
    cfg.regions = {'Bound': ex.shape(bt)}
    return ex


class Slv:
    """View of a solver value."""

    def __init__(self, ex, st, path=Path('this', ())):
        self.ex, self.st, self.path = ex, st, path
        t = ex.read(st, path)
        self.t = t
        v = t.f['variables_']
        self.N = v.len
        e = v.elem.f
        self.VAL, self.IDX, self.REV, self.LVL = e['value'], e['index'], e['reverse_index'], e['level']
        self.LO, self.UP, self.QUEUED, self.PROP = e['lower_bound'], e['upper_bound'], e['queued'], e['propagate']
        self.VB = e['bounds']
        self.nb, self.nn = t.f['n_basic_'], t.f['n_non_basic_']
        self.A = t.f['tableau_']
        self.Q = t.f['conflicts_']
        b = t.f['bounds_']
        self.blen, self.KEY, self.BID = b.len, b.elem.f['first'], b.elem.f['second']
        self.bounds = b
        self.B = Bnd(ex, st)
        self.obj = View(t.f['objective_'])

    @property
    def options(self):
        return View(self.st.store['$options'])


class Bnd:
    def __init__(self, ex, st):
        v = st.store['@Bound']
        f = v.elem.f
        self.n, self.val, self.var, self.lit, self.rel = v.len, f['value'], f['variable'], f['lit'], f['rel']

    def holds(self, b, x):
        """Bound b holds for value x."""
        return z3.If(self.rel[b] == LE, x <= self.val[b], z3.If(self.rel[b] == GE, x >= self.val[b], x == self.val[b]))

    def wf(self):
        b = z3.Int('b')
        return z3.ForAll([b], z3.Implies(And(0 < b, b < self.n), And(self.rel[b] >= 0, self.rel[b] <= 2)),
                         patterns=[self.rel[b]])


VALUES = ('Rational', 'RationalQ')


def bounds_wf(s):
    """The containers refer to existing bounds of existing variables."""
    x = z3.Int('x')
    b = s.BID[x]
    return z3.ForAll([x], z3.Implies(And(0 <= x, x < s.blen), And(
        0 < b, b < s.B.n, s.B.lit[b] == s.KEY[x], s.B.var[b] >= 0, s.B.var[b] < s.N, s.B.rel[b] >= 0, s.B.rel[b] <= 2)),
        patterns=[s.KEY[x], s.BID[x]])


def bounds_kept(a, b):
    """All bounds of a are still there in b."""
    x, y = z3.Ints('x y')
    return And(b.B.n >= a.B.n, z3.ForAll([x], z3.Implies(And(0 <= x, x < a.B.n), And(
        b.B.val[x] == a.B.val[x], b.B.var[x] == a.B.var[x], b.B.lit[x] == a.B.lit[x], b.B.rel[x] == a.B.rel[x])),
        patterns=[b.B.val[x], b.B.var[x], b.B.lit[x], b.B.rel[x]]))


WORLD_ROOTS = [Path(r, ()) for r in ('$world', '$clauses', '$last', '$watched')]
