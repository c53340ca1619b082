"""Contracts about backtracking: what undoing the open levels would restore stays
the same while a level is worked on, and undo restores it.

V(k), Lo(k), Up(k), Lv(k) are the values, bounds and levels of the variables that
result from undoing the trails down to the offset of the k-th open level. Nothing
is claimed about level zero, which is never undone."""
from .simplex import *
from .undo import UV, UI, undo_lemmas, SEL

ALL = z3.K(I, True)
SELLO = z3.Function('RESTORES_LOWER', z3.ArraySort(I, I), SEL)
SELUP = z3.Function('RESTORES_UPPER', z3.ArraySort(I, I), SEL)
_x, _k, _v, _y, _e = z3.Ints('x k v y e')


def sel_def(br):
    return And(z3.ForAll([_x], SELLO(br)[_x] == (br[_x] != LE), patterns=[SELLO(br)[_x]]),
               z3.ForAll([_x], SELUP(br)[_x] == (br[_x] != GE), patterns=[SELUP(br)[_x]]))


class T(S):
    """View of a solver with what undoing its levels would restore."""

    def vt(self):
        return ALL, self.TI, self.TV

    def lt(self):
        return ALL, self.TI, self.TL

    def lot(self):
        return SELLO(self.BR), self.BV, self.BP

    def upt(self):
        return SELUP(self.BR), self.BV, self.BP

    def V(self, k):
        return UV.f(*self.vt(), self.OA[k], self.mA, self.VAL)

    def Lv(self, k):
        return UI.f(*self.lt(), self.OA[k], self.mA, self.LVL)

    def Lo(self, k):
        return UI.f(*self.lot(), self.OB[k], self.mB, self.LO)

    def Up(self, k):
        return UI.f(*self.upt(), self.OB[k], self.mB, self.UP)

    @property
    def top(self):
        return z3.If(self.n > 0, self.OL[self.n - 1], z3.IntVal(0))

    def open(self, k):
        return And(0 <= k, k < self.n, self.OL[k] >= 1)

    def lev(self, b):
        return self.w.level[self.B.lit[b]]


def onlevel(s, b, level):
    """The bound belongs to a literal that became true on the level."""
    return And(b != 0, s.lev(b) == level)


def inv_values(s):
    """The trail of values: one entry per variable and level, for variables whose
    value was changed on the level."""
    k = _k
    n1 = s.n - 1
    return [
        ('variables on the trail were changed on the current level', z3.ForAll([_x], z3.Implies(
            And(s.open(n1), rng(s.OA[n1], _x, s.mA)), s.LVL[s.TI[_x]] == s.OL[n1]), patterns=[s.TI[_x]])),
        ('variables on the trail were changed on their level', z3.ForAll([k, _x], z3.Implies(
            And(s.open(k), k < n1, rng(s.OA[k], _x, s.OA[k + 1])), s.Lv(k + 1)[s.TI[_x]] == s.OL[k]),
            patterns=[z3.MultiPattern(s.OA[k], s.TI[_x])])),
        ('one entry per variable on the current level', z3.ForAll([_x, _y], z3.Implies(
            And(s.open(n1), s.OA[n1] <= _x, _x < _y, _y < s.mA), s.TI[_x] != s.TI[_y]),
            patterns=[z3.MultiPattern(s.TI[_x], s.TI[_y])])),
        ('one entry per variable and level', z3.ForAll([k, _x, _y], z3.Implies(
            And(s.open(k), k < n1, s.OA[k] <= _x, _x < _y, _y < s.OA[k + 1]), s.TI[_x] != s.TI[_y]),
            patterns=[z3.MultiPattern(s.OA[k], s.TI[_x], s.TI[_y])])),
        ('levels of variables exist', allv(s, lambda v: rng(0, s.LVL[v], s.top + 1), lambda v: s.LVL[v])),
        ('levels before the first level', z3.ForAll([_v], z3.Implies(
            And(rng(0, _v, s.N), s.open(z3.IntVal(0))), s.Lv(0)[_v] == 0), patterns=[s.LVL[_v], s.Lv(0)[_v]])),
        ('levels before each level', z3.ForAll([k, _v], z3.Implies(
            And(rng(0, _v, s.N), s.open(k), k >= 1), rng(0, s.Lv(k)[_v], s.OL[k - 1] + 1)), patterns=[
                z3.MultiPattern(s.OA[k], s.LVL[_v]), s.Lv(k)[_v]])),
        ('no entries before the first level', And(z3.Implies(s.n > 0, s.OA[0] == 0), z3.Implies(
            And(s.n > 1, s.OL[0] == 0), s.OA[1] == 0), z3.Implies(s.top == 0, s.mA == 0)))]


def bound_ok(s, b, v, lower):
    return And(b >= 0, z3.Implies(b != 0, And(b < s.B.n, s.B.var[b] == v, Or(s.B.rel[b] == (GE if lower else LE), s.B.rel[b] == EQ),
                                              s.w.true[s.B.lit[b]])))


def inv_bounds(s):
    """The trail of bounds: one entry per variable and kind of bound and level."""
    k = _k
    n1 = s.n - 1
    r = [('kinds of bounds on the trail', z3.ForAll([_x], z3.Implies(rng(0, _x, s.mB), rng(0, s.BR[_x], 3)), patterns=[s.BR[_x]]))]
    for nm, sel, cur, old, low in (('lower', SELLO(s.BR), s.LO, s.Lo, True), ('upper', SELUP(s.BR), s.UP, s.Up, False)):
        r += [
            ('%s bounds on the trail were replaced on the current level' % nm, z3.ForAll([_x], z3.Implies(
                And(s.open(n1), rng(s.OB[n1], _x, s.mB), sel[_x]), onlevel(s, cur[s.BV[_x]], s.OL[n1])), patterns=[s.BV[_x]])),
            ('%s bounds on the trail were replaced on their level' % nm, z3.ForAll([k, _x], z3.Implies(
                And(s.open(k), k < n1, rng(s.OB[k], _x, s.OB[k + 1]), sel[_x]), onlevel(s, old(k + 1)[s.BV[_x]], s.OL[k])),
                patterns=[z3.MultiPattern(s.OB[k], s.BV[_x])])),
            ('one entry per %s bound on the current level' % nm, z3.ForAll([_x, _y], z3.Implies(
                And(s.open(n1), s.OB[n1] <= _x, _x < _y, _y < s.mB, sel[_x], sel[_y]), s.BV[_x] != s.BV[_y]),
                patterns=[z3.MultiPattern(s.BV[_x], s.BV[_y])])),
            ('one entry per %s bound and level' % nm, z3.ForAll([k, _x, _y], z3.Implies(
                And(s.open(k), k < n1, s.OB[k] <= _x, _x < _y, _y < s.OB[k + 1], sel[_x], sel[_y]), s.BV[_x] != s.BV[_y]),
                patterns=[z3.MultiPattern(s.OB[k], s.BV[_x], s.BV[_y])])),
            ('levels of %s bounds' % nm, allv(s, lambda v: z3.Implies(cur[v] != 0, s.lev(cur[v]) <= s.top), lambda v: cur[v])),
            ('%s bounds are asserted' % nm, allv(s, lambda v: bound_ok(s, cur[v], v, low), lambda v: cur[v])),
            ('levels of %s bounds before the first level' % nm, z3.ForAll([_v], z3.Implies(
                And(rng(0, _v, s.N), s.open(z3.IntVal(0)), old(z3.IntVal(0))[_v] != 0), s.lev(old(z3.IntVal(0))[_v]) <= 0),
                patterns=[old(z3.IntVal(0))[_v], cur[_v]])),
            ('levels of %s bounds before each level' % nm, z3.ForAll([k, _v], z3.Implies(
                And(rng(0, _v, s.N), s.open(k), k >= 1, old(k)[_v] != 0), s.lev(old(k)[_v]) <= s.OL[k - 1]),
                patterns=[old(k)[_v], z3.MultiPattern(s.OB[k], cur[_v])])),
            ('%s bounds before each level are asserted' % nm, z3.ForAll([k, _v], z3.Implies(
                And(rng(0, _v, s.N), s.open(k)), bound_ok(s, old(k)[_v], _v, low)),
                patterns=[old(k)[_v], z3.MultiPattern(s.OB[k], cur[_v])]))]
    return r


def weaker(s, lo, lo2, up, up2, v):
    """The first bounds of v are implied by the second ones."""
    return And(z3.Implies(lo[v] != 0, And(lo2[v] != 0, s.B.val[lo[v]] <= s.B.val[lo2[v]])),
               z3.Implies(up[v] != 0, And(up2[v] != 0, s.B.val[up2[v]] <= s.B.val[up[v]])))


def inv_tighter(s):
    k, l = _k, z3.Int('l')
    return [('bounds of open levels are at most as tight as the current ones', z3.ForAll([k, _v], z3.Implies(
        And(s.open(k), rng(0, _v, s.N)), weaker(s, s.Lo(k), s.LO, s.Up(k), s.UP, _v)), patterns=[
            s.Lo(k)[_v], s.Up(k)[_v]])),
            ('bounds of open levels only get tighter', z3.ForAll([k, l, _v], z3.Implies(
                And(s.open(k), k < l, l < s.n, rng(0, _v, s.N)), weaker(s, s.Lo(k), s.Lo(l), s.Up(k), s.Up(l), _v)), patterns=[
                    z3.MultiPattern(s.Lo(k)[_v], s.Lo(l)[_v]), z3.MultiPattern(s.Up(k)[_v], s.Up(l)[_v])]))]


def sat_at(s, x, lo, up, v):
    return And(z3.Implies(lo[v] != 0, x[v] >= s.B.val[lo[v]]), z3.Implies(up[v] != 0, x[v] <= s.B.val[up[v]]))


def inv_sat(s):
    """What undoing restores is a solution that satisfies the bounds that are restored."""
    k = _k
    return [('undoing a level restores a solution of the equations', z3.ForAll([k], z3.Implies(
        s.open(k), DEF(s.V(k))), patterns=[s.OA[k]])),
            ('undoing a level restores values that satisfy the restored bounds', z3.ForAll([k, _v], z3.Implies(
                And(s.open(k), rng(0, _v, s.N)), sat_at(s, s.V(k), s.Lo(k), s.Up(k), _v)),
                patterns=[s.Lo(k)[_v], s.Up(k)[_v], s.V(k)[_v]]))]


def sane(s):
    return trails(s) + [('levels', And(s.top <= s.w.dl, z3.ForAll([_k], z3.Implies(
        rng(0, _k, s.n), And(s.OL[_k] >= 0)), patterns=[s.OL[_k]])))]


def same_values(a, b, hints=None):
    """Undoing would restore the same values (and levels of variables)."""
    h = [hints] if hints else []
    return [('undoing restores the same values', z3.ForAll([_k], z3.Implies(a.open(_k), b.V(_k) == a.V(_k)), patterns=[a.OA[_k]]), *h),
            ('undoing restores the same levels', z3.ForAll([_k], z3.Implies(a.open(_k), b.Lv(_k) == a.Lv(_k)), patterns=[a.OA[_k]]), *h)]


def same_bounds(a, b, hints=None):
    h = [hints] if hints else []
    return [('undoing restores the same lower bounds', z3.ForAll([_k], z3.Implies(a.open(_k), b.Lo(_k) == a.Lo(_k)), patterns=[a.OB[_k]]), *h),
            ('undoing restores the same upper bounds', z3.ForAll([_k], z3.Implies(a.open(_k), b.Up(_k) == a.Up(_k)), patterns=[a.OB[_k]]), *h)]


def longer(a, b):
    """The trail of values has only been extended."""
    return [('the trail of values grows', And(b.mA >= a.mA, z3.ForAll([_x], z3.Implies(rng(0, _x, a.mA), And(
        b.TI[_x] == a.TI[_x], b.TV[_x] == a.TV[_x], b.TL[_x] == a.TL[_x])), patterns=[b.TI[_x]])))]


def longer_bounds(a, b):
    return [('the trail of bounds grows', And(b.mB >= a.mB, z3.ForAll([_x], z3.Implies(rng(0, _x, a.mB), And(
        b.BV[_x] == a.BV[_x], b.BR[_x] == a.BR[_x], b.BP[_x] == a.BP[_x])), patterns=[b.BV[_x]])))]


def no_offsets(s):
    """Nothing is undone if there are no entries (the definition)."""
    return z3.ForAll([_k], z3.Implies(s.open(_k), And(
        UV.none(*s.vt(), s.OA[_k], s.mA, s.VAL), UI.none(*s.lt(), s.OA[_k], s.mA, s.LVL),
        UI.none(*s.lot(), s.OB[_k], s.mB, s.LO), UI.none(*s.upt(), s.OB[_k], s.mB, s.UP))), patterns=[s.OA[_k], s.OB[_k]])


def var_contracts(p, V):
    """Contracts of the functions of Variable; the variable is one of the solver's."""
    N = 'Solver<%s>::Variable::' % V

    def index(c):
        t = c.tpath
        if not (isinstance(t, Path) and len(t.acc) >= 2 and t.acc[-2] == ('f', 'variables_') and t.acc[-1][0] == 'i'):
            raise Unsupported('variable outside of the solver: %r' % (t,))
        return t.acc[-1][1]

    def sv(c, st):
        return T(c.ex, st, c.apath(0))

    # ---- set_value
    def pre(c):
        a = sv(c, c.pre_st)
        return [('variable', rng(0, index(c), a.N)), ('values are set on the current level', c.arg(1) == a.top)] + \
            sane(a) + inv_values(a)

    def post(c):
        a, b = sv(c, c.pre_st), sv(c, c.post_st)
        v, add, val = index(c), c.arg(3), c.arg(2)

        def h(k):
            return [UV.push.at(*a.vt(), *b.vt(), a.VAL, b.VAL, v, a.OA[k], a.mA),
                    UI.push.at(*a.lt(), *b.lt(), a.LVL, b.LVL, v, a.OA[k], a.mA),
                    z3.ForAll([_e], UV.keep.at(*a.vt(), a.VAL, b.VAL, v, a.OA[k], a.mA, _e), patterns=[a.TI[_e]]),
                    UI.miss.at(*a.lt(), a.LVL, v, a.OA[a.n - 1], a.mA)]
        return [('[cut] the value is set', b.VAL[v] == z3.If(add, a.VAL[v] + val, val)),
                ('[cut] the level is set', b.LVL[v] == c.arg(1))] + [('[cut] ' + l, f, *r) for l, f, *r in longer(a, b) + same_values(a, b, [h])] + \
            sane(b) + inv_values(b)
    setv = Contract(N + 'set_value', pre, post, lambda c: [F(c.tpath, 'value'), F(c.tpath, 'level'), F(c.apath(0), 'assignment_trail_')])

    # ---- update_lower, update_upper
    def bound(c):
        return ref_id(c.apath(2))

    def bpre(c):
        a = sv(c, c.pre_st)
        b = bound(c)
        return [('the bound is one of the variable', And(rng(0, index(c), a.N), a.B.var[b] == index(c), rng(1, b, a.B.n))),
                ('bounds are set on the current level', And(a.top == a.w.dl, a.lev(b) == a.top)),
                ('the bound is asserted', a.w.true[a.B.lit[b]])] + sane(a) + inv_bounds(a)

    def bpost(lower):
        def post(c):
            a, b = sv(c, c.pre_st), sv(c, c.post_st)
            v, new = index(c), bound(c)
            cur, ncur = (a.LO, b.LO) if lower else (a.UP, b.UP)
            tr, ntr, ot, nt = (a.lot(), b.lot(), a.upt(), b.upt()) if lower else (a.upt(), b.upt(), a.lot(), b.lot())
            other = a.UP if lower else a.LO
            tighter = a.B.val[new] > a.B.val[cur[v]] if lower else a.B.val[new] < a.B.val[cur[v]]

            def h(k):
                return [sel_def(a.BR), sel_def(b.BR),
                        UI.push.at(*tr, *ntr, cur, ncur, v, a.OB[k], a.mB), UI.other.at(*ot, *nt, other, a.OB[k], a.mB),
                        z3.ForAll([_e], UI.keep.at(*tr, cur, ncur, v, a.OB[k], a.mB, _e), patterns=[a.BV[_e]]),
                        UI.miss.at(*tr, cur, v, a.OB[a.n - 1], a.mB)]
            h0 = [sel_def(a.BR), sel_def(b.BR)]
            return [('[cut] the bound is set if it is tighter', ncur[v] == z3.If(Or(cur[v] == 0, tighter), new, cur[v])),
                    ('the result tells whether the bounds are consistent', c.rval == z3.Implies(
                        And(b.has_lo(v), b.has_up(v)), b.lo(v) <= b.up(v)))] + \
                [('[cut] ' + l, f, *r) for l, f, *r in longer_bounds(a, b) + same_bounds(a, b, [h])] + \
                sane(b) + [(l, f, h0) for l, f in inv_bounds(b)]
        return post

    def upd(n, lower):
        return Contract(N + n, lambda c: bpre(c) + [('kind of the bound', Or(
            sv(c, c.pre_st).B.rel[bound(c)] == (GE if lower else LE), sv(c, c.pre_st).B.rel[bound(c)] == EQ))], bpost(lower),
            lambda c: [F(c.tpath, 'lower_bound' if lower else 'upper_bound'), F(c.apath(0), 'bound_trail_')])
    return {'set_value': setv, 'update_lower': upd('update_lower', True), 'update_upper': upd('update_upper', False)}


def setup_var(p, V, n):
    sol = [f for f in p.funcs if f.rec == 'Solver<%s>' % V and f.is_method and f.s == 'solve'][0]

    def setup(ex, st, args):
        i = z3.Int('index')
        st.this = Path('arg0', (('f', 'variables_'), ('i', i)))
        st.store.pop('this', None)
        st.assume(st.store['@Bound'].len >= 1)
        r = list(args)
        if n != 'set_value':
            b = z3.Int('bound')
            st.store.pop('arg2', None)
            r[2] = Path('@Bound', (('i', b),))
        return r
    return setup


def tinv(s):
    return sane(s) + inv_values(s) + inv_bounds(s) + inv_tighter(s) + inv_sat(s)


def extend(c, pre=None, post=None, inv=None, hints=None, mods=None):
    """The contract with more in its pre- and postcondition and loop invariants."""
    loops = []
    for n, l in enumerate(c.loops):
        more = inv and (inv.get(n) if isinstance(inv, dict) else inv)
        f = (lambda L, o=l.inv, m=more: o(L) + m(L)) if more else l.inv
        loops.append(LoopSpec(f, l.step, l.hints, l.exit_hints, l.entry_hints, l.skip_frame, l.head_hints))
    return Contract(c.name, (lambda x: c.pre(x) + pre(x)) if pre else c.pre, (lambda x: c.post(x) + post(x)) if post else c.post,
                    c.modifies, c.result, c.throws, loops=loops, xpost=c.xpost)


BASE = ('rows to propagate exist', 'trail of values', 'trail of bounds', 'offsets lie within the trails', 'offsets grow', 'queued variables exist')


class TrailLayer(Layer):
    """The contracts of Layer with what they guarantee about the trails."""

    def tpre(self, c):
        return T(c.ex, c.pre_st, c.tpath)

    def tpost(self, c):
        return T(c.ex, c.post_st, c.tpath)

    def values(self, n):
        """update_ and pivot_."""
        def pre(c):
            a = self.tpre(c)
            return sane(a) + inv_values(a) + [('values are set on the current level', c.arg(0) == a.top)]

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            return same_values(a, b) + sane(b) + inv_values(b)

        def inv(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            return same_values(a, b) + sane(b) + inv_values(b)
        c = getattr(super(), n)()
        if not self.f:
            # what the values are is proved with the equations (C04)
            keep = lambda fs: [f for f in fs if f[0] in BASE]
            c = Contract(c.name, c.pre, lambda x, o=c.post: keep(o(x)), c.modifies,
                         loops=[LoopSpec(lambda L, o=l.inv: keep(o(L))) for l in c.loops])
        return extend(c, pre, post, inv)

    def update_(self):
        return self.values('update_')

    def pivot_(self):
        return self.values('pivot_')

    def update_bound_(self):
        def pre(c):
            a = self.tpre(c)
            b = ref_id(c.apath(1))
            return valid_bound(a, b) + [('the constraint is asserted on the current level', And(
                a.w.true[a.B.lit[b]], a.lev(b) == a.w.dl, a.top == a.w.dl))] + sane(a) + inv_values(a) + inv_bounds(a)

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            return same_values(a, b) + same_bounds(a, b) + sane(b) + inv_values(b) + inv_bounds(b) + \
                tightened(a, b)
        return extend(super().update_bound_(), pre, post)

    def store_sat_assignment(self):
        def pre(c):
            a = self.tpre(c)
            return eqs(a) + same_def(a) + all_ok(a) + tinv(a)

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            h = [[no_offsets(b), z3.ForAll([_v], UI.miss.at(*a.lt(), a.LVL, _v, a.OA[0], a.mA), patterns=[a.LVL[_v]]),
                  z3.ForAll([_v], UI.miss.at(*a.lt(), a.LVL, _v, a.OA[1], a.mA), patterns=[a.LVL[_v]]), mark(a.sol(a.VAL))]]
            return [(l, f, *h) for l, f in same_bounds(a, b) + tinv(b)]
        return extend(super().store_sat_assignment(), pre, post)

    def solve(self):
        def pre(c):
            a = self.tpre(c)
            t = c.arg(1)
            return tinv(a) + all_ok(a) + [('the literals are asserted on the current level', z3.ForAll([_k], z3.Implies(
                rng(0, _k, t.len), And(a.w.true[t.elem[_k]], a.w.level[t.elem[_k]] == a.w.dl)), patterns=[t.elem[_k]]))]

        def history(a, b):
            new = And(Not(And(a.n > 0, a.top == a.w.dl)))
            return [('levels stay open', And(b.n == z3.If(new, a.n + 1, a.n), b.top == a.w.dl, z3.ForAll([_k], z3.Implies(
                rng(0, _k, a.n), And(b.OL[_k] == a.OL[_k], b.OB[_k] == a.OB[_k])), patterns=[b.OL[_k]]))),
                    ('undoing the levels that were open restores the same bounds as before', z3.ForAll([_k], z3.Implies(
                        a.open(_k), And(b.Lo(_k) == a.Lo(_k), b.Up(_k) == a.Up(_k))), patterns=[b.OB[_k]])),
                    ('undoing a new level restores the bounds from before', z3.Implies(And(new, a.w.dl >= 1), And(
                        b.Lo(a.n) == a.LO, b.Up(a.n) == a.UP)), [no_offsets(b)])]

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            return history(a, b) + tinv(b)

        def inv(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            return history(a, b) + tinv(b)

        def entry(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            return [no_offsets(b), mark(a.sol(a.VAL))]
        c = extend(super().solve(), pre, post, inv)
        c.loops[0].entry_hints = entry
        return c

    def undo(self):
        def pre(c):
            a = self.tpre(c)
            return [('a level is open', a.open(a.n - 1))] + perm(a) + pqueue(a) + shape(a) + same_def(a) + queue(a)[:2] + tinv(a)

        def post(c):
            a, b = self.tpre(c), self.tpost(c)
            n = a.n - 1

            def h(k):
                return [UV.frame.at(*a.vt(), *b.vt(), b.VAL, a.OA[k], a.OA[n]), UV.split.at(*a.vt(), a.VAL, a.OA[k], a.OA[n], a.mA),
                        UI.frame.at(*a.lt(), *b.lt(), b.LVL, a.OA[k], a.OA[n]), UI.split.at(*a.lt(), a.LVL, a.OA[k], a.OA[n], a.mA),
                        UI.frame.at(*a.lot(), *b.lot(), b.LO, a.OB[k], a.OB[n]), UI.split.at(*a.lot(), a.LO, a.OB[k], a.OB[n], a.mB),
                        UI.frame.at(*a.upt(), *b.upt(), b.UP, a.OB[k], a.OB[n]), UI.split.at(*a.upt(), a.UP, a.OB[k], a.OB[n], a.mB),
                        sel_def(a.BR), sel_def(b.BR)]
            return [('[cut] the level is closed', And(b.n == n, z3.ForAll([_k], z3.Implies(rng(0, _k, n), And(
                b.OL[_k] == a.OL[_k], b.OA[_k] == a.OA[_k], b.OB[_k] == a.OB[_k])), patterns=[b.OL[_k], b.OA[_k], b.OB[_k]]))),
                    ('[cut] the bounds are those from before the level', And(b.LO == a.Lo(n), b.UP == a.Up(n))),
                    ('[cut] the values are those kept for the level', And(b.VAL == a.V(n), b.LVL == a.Lv(n))),
                    ('[cut] undoing the other levels restores the same', z3.ForAll([_k], z3.Implies(And(a.open(_k), _k < n), And(
                        b.V(_k) == a.V(_k), b.Lv(_k) == a.Lv(_k), b.Lo(_k) == a.Lo(_k), b.Up(_k) == a.Up(_k))),
                        patterns=[b.OA[_k], b.OB[_k]]), [h]),
                    ('no variable is queued', z3.ForAll([_x], Not(b.Q[_x]), patterns=[b.Q[_x]])),
                    ('no variable is flagged as queued', allv(b, lambda v: Not(b.QUEUED[v]), lambda v: b.QUEUED[v]))] + \
                all_ok(b) + eqs(b) + [(l, f, [sel_def(a.BR), sel_def(b.BR)]) for l, f in tinv(b)]

        def bounds(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            n = a.n - 1
            return [('position', And(a.OB[n] <= L.pos, L.pos <= a.mB)),
                    ('lower bounds so far', b.LO == UI.f(*a.lot(), a.OB[n], L.pos, a.LO)),
                    ('upper bounds so far', b.UP == UI.f(*a.upt(), a.OB[n], L.pos, a.UP))]

        def bhints(L):
            a = T(L.ex, L.f.pre_st, L.f.tpath)
            n = a.n - 1
            x = L._pos(L.bi) if callable(L._pos) else L._pos
            return [UI.append.at(*a.lot(), a.LO, a.OB[n], x), UI.append.at(*a.upt(), a.UP, a.OB[n], x), sel_def(a.BR)]

        def bentry(L):
            a = T(L.ex, L.f.pre_st, L.f.tpath)
            n = a.n - 1
            return [UI.none(*a.lot(), a.OB[n], a.OB[n], a.LO), UI.none(*a.upt(), a.OB[n], a.OB[n], a.UP)]

        def values(L):
            a, b = T(L.ex, L.f.pre_st, L.f.tpath), T(L.ex, L.st, L.f.tpath)
            n = a.n - 1
            return [('position', And(a.OA[n] <= L.pos, L.pos <= a.mA)),
                    ('values so far', b.VAL == UV.f(*a.vt(), a.OA[n], L.pos, a.VAL)),
                    ('levels so far', b.LVL == UI.f(*a.lt(), a.OA[n], L.pos, a.LVL)),
                    ('other entries of the trail', z3.ForAll([_x], z3.Implies(Or(_x < a.OA[n], _x >= L.pos), b.TV[_x] == a.TV[_x]),
                                                             patterns=[b.TV[_x]]))]

        def vhints(L):
            a = T(L.ex, L.f.pre_st, L.f.tpath)
            n = a.n - 1
            x = L._pos(L.bi) if callable(L._pos) else L._pos
            return [UV.append.at(*a.vt(), a.VAL, a.OA[n], x), UI.append.at(*a.lt(), a.LVL, a.OA[n], x)]

        def ventry(L):
            a = T(L.ex, L.f.pre_st, L.f.tpath)
            n = a.n - 1
            return [UV.none(*a.vt(), a.OA[n], a.OA[n], a.VAL), UI.none(*a.lt(), a.OA[n], a.OA[n], a.LVL)]

        def queue_(L):
            b = T(L.ex, L.st, L.f.tpath)
            return queue(b)[:2]
        return Contract(self.N + 'undo', pre, post, lambda c: VARF(c, 'value', 'level', 'lower_bound', 'upper_bound', 'queued') + [
            F(c.tpath, n) for n in ('assignment_trail_', 'bound_trail_', 'trail_offset_', 'conflicts_')],
            loops=[LoopSpec(bounds, hints=bhints, entry_hints=bentry), LoopSpec(values, hints=vhints, entry_hints=ventry), LoopSpec(queue_)])


def verify_trails(gen, p, V):
    vc = var_contracts(p, V)
    fs = {n: p.find('Solver<%s>::%s' % (V, n), allow_none=n.endswith('_')) for n in ORDER + ('undo',)}
    for feats, names in (((), ('update_', 'pivot_', 'update_bound_')), (('eq', 'queue', 'clause'), ('store_sat_assignment', 'solve', 'undo'))):
        L = TrailLayer(p, V, *feats)
        ex = make_exec(p, V)
        for n, c in vc.items():
            f = p.find('Solver<%s>::Variable::%s' % (V, n), allow_none=True)
            if f is not None:
                if not feats:
                    gen.verify(ex, f, c, setup_var(p, V, n))
                ex.cfg.contracts[f.id] = c
        cs = {n: getattr(L, n)() for n in ORDER + ('undo',)}
        for n, f in fs.items():
            if f is not None:
                ex.cfg.contracts[f.id] = cs[n]
        for n in names:
            if fs[n] is not None:
                own = ex.cfg.contracts.pop(fs[n].id)
                gen.verify(ex, fs[n], own, setup_fn(p, V, n))
                ex.cfg.contracts[fs[n].id] = own
