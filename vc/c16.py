"""C16: statistics count the work of all threads."""
from .solver import *
from .trail import extend
from . import facade, simplex
from . import harness as H

SUMTO = z3.Function('sum_below', z3.ArraySort(I, I), I, I)   # sum of the first n elements


def sum_axioms():
    a = z3.Const('a', z3.ArraySort(I, I))
    n = z3.Int('n')
    return [z3.ForAll([a, n], SUMTO(a, n) == z3.If(n <= 0, 0, SUMTO(a, n - 1) + a[n - 1]), patterns=[SUMTO(a, n)])]


class Stats:
    """clingo's user statistics: values by path."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'mcall' and n.startswith('Clingo::StatisticsBase'):
            return getattr(self, 's_' + split_name(n)[1], None)
        if kind == 'ctor' and n.startswith('Clingo::StatisticsBase'):
            return lambda ex, e, st: StdModels.args(ex, e, st, lambda st, vs: [(st, ex.rd(st, vs[0]))])
        return None

    def on(self, ex, e, st, fn):
        def go(st, o):
            v = ex.rd(st, o)
            if not isinstance(v, Opq) or not isinstance(v.data, tuple):
                raise Unsupported('statistics')
            return StdModels.args(ex, e, st, lambda st, vs: fn(st, v.data, vs))
        return ex.bind(ex.eval_any(e['o'], st), go)

    def s_add_subkey(self, ex, e, st):
        def go(st, d, vs):
            k = ex.rd(st, vs[0])
            if not isinstance(k, StrV):
                raise Unsupported('statistics key')
            return [(st, Opq('stats', d + (k.s,)))]
        return self.on(ex, e, st, go)
    s_operator_idx = s_add_subkey

    def s_value(self, ex, e, st):
        return self.on(ex, e, st, lambda st, d, vs: [(st, ex.read(st, slot(ex, st, d)))])

    def s_set_value(self, ex, e, st):
        def go(st, d, vs):
            v = ex.rd(st, vs[0])
            ex.write(st, slot(ex, st, d), z3.ToReal(v) if v.sort() == I else v)
            return [(st, None)]
        return self.on(ex, e, st, go)


PIVOTS, BOUNDS = ('Simplex', 'Pivots'), ('Simplex', 'Bounds propagated')


def slot(ex, st, d):
    r = '$stat:' + '/'.join(d)
    if r not in st.store:
        raise Unsupported('unknown statistics key ' + r)
    return Path(r, ())


def stat_shapes(ex, ty):
    if ty.k == 'rec' and ty.n.startswith('Clingo::StatisticsBase'):
        return OpaqueS('stats')
    return None


def contract(V):
    def arrays(c):
        s = c.this.slvs_.t
        e = s.elem.f['second'].f['statistics_'].f
        return s.len, e['pivots'], e['propagated_bounds']

    def val(st, *d):
        return st.store['$stat:' + '/'.join(d)]

    def post(c):
        n, pv, pb = arrays(c)
        r = []
        for key, a in ((PIVOTS, pv), (BOUNDS, pb)):
            total = z3.ToReal(SUMTO(a, n))
            r += [('step: %s is the sum over the threads' % key[1], val(c.post_st, 'step', *key) == total),
                  ('accumulated: %s grows by the sum over the threads' % key[1],
                   val(c.post_st, 'accu', *key) == val(c.pre_st, 'accu', *key) + total)]
        return r

    def inv(L):
        n, pv, pb = arrays(L.f)
        k = L.pos
        # the local sums, by name or in order of declaration
        num = lambda t: t.strip() == 'unsigned long' or t in ('int', '') or 'long' in t
        a = L.v('pivots', ty=num, n=0)
        b = L.v('propagated_bounds', ty=num, n=1)
        return [('sum of pivots so far', a == SUMTO(pv, k)), ('sum of bounds so far', b == SUMTO(pb, k))]
    mods = lambda c: [Path('$stat:' + '/'.join((w,) + k), ()) for w in ('step', 'accu') for k in (PIVOTS, BOUNDS)]
    return Contract('Propagator<%s>::on_statistics' % V, post=post, modifies=mods, loops=[LoopSpec(inv)])


class Count(simplex.Layer):
    """What the statistics count: exchanges of variables and clauses added for bounds."""

    def pivot_(self):
        c = super().pivot_()
        return extend(c, None, lambda c: [('each exchange is counted once', c.nthis.statistics_.pivots == c.this.statistics_.pivots + 1)])

    def counted(self, old, new, st0, st1):
        n = st1.store['$clauses'] - st0.store['$clauses']
        return [('each clause is counted once', new.statistics_.propagated_bounds == old.statistics_.propagated_bounds + n)]

    def propagate_(self):
        c = super().propagate_()

        def inv(L):
            b = simplex.S(L.ex, L.st, L.f.tpath)
            return simplex.pqueue(b) + self.counted(L.f.this, L.this, L.f.pre_st, L.st)
        return Contract(c.name, lambda x: c.pre(x) + simplex.vbounds(self.pre(x)), lambda c: self.counted(c.this, c.nthis, c.pre_st, c.post_st), c.modifies,
                        loops=[LoopSpec(inv) for _ in c.loops])


def verify_counts(gen, p, V):
    L = Count(p, V)
    ex = make_exec(p, V)
    for n in simplex.ORDER:
        f = p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_'))
        if f is not None and n not in ('pivot_', 'propagate_'):
            ex.cfg.contracts[f.id] = getattr(L, n)()
    for n in ('pivot_', 'propagate_'):
        f = p.find('Solver<%s>::%s' % (V, n), allow_none=True)
        if f is not None:
            gen.verify(ex, f, getattr(L, n)(), simplex.setup_fn(p, V, n))


def generate(gen):
    facade.verify_statistics(gen)
    p = gen.program('solving.cc')
    for V in VALUES:
        ex = make_exec(p, V)
        ex.cfg.shapes.insert(0, stat_shapes)
        ex.cfg.models.insert(0, Stats())
        ex.cfg.check_wrap = False
        f = p.find('Propagator<%s>::on_statistics' % V)

        def setup(ex, st, args):
            st.assume(sum_axioms())
            for w in ('step', 'accu'):
                for k in (PIVOTS, BOUNDS):
                    st.store['$stat:' + '/'.join((w,) + k)] = z3.Real(ex.name('stat'))
            return [Opq('stats', ('step',)), Opq('stats', ('accu',))]
        gen.verify(ex, f, contract(V), setup)
        f = p.find('Solver<%s>::statistics' % V)
        verify_counts(gen, p, V)
        gen.verify(make_exec(p, V), f, Contract('Solver<%s>::statistics' % V, result=lambda c: F(c.tpath, 'statistics_')),
                   setup_solver(p, V))


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C16', seed, tier)


ASSUMPTIONS = ['the doubles clingo stores statistics in are treated as exact numbers (they are, below 2^53)',
               'counters stay below 2^64']
