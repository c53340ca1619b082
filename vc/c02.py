"""C02: the tableau is an exact sparse matrix."""
from .core import *
from .base import *
from . import harness as H

AI = z3.ArraySort(I, I)
# least position below n where array a holds x, n if there is none
FIND = z3.Function('find', AI, I, I, I)


def find_axioms():
    a = z3.Const('a', AI)
    n, x, p = z3.Ints('n x p')
    return [
        z3.ForAll([a, n, x], z3.Implies(n >= 0, z3.And(0 <= FIND(a, n, x), FIND(a, n, x) <= n, z3.Implies(
            FIND(a, n, x) < n, a[FIND(a, n, x)] == x))), patterns=[FIND(a, n, x)]),
        z3.ForAll([a, n, x, p], z3.Implies(z3.And(0 <= p, p < FIND(a, n, x)), a[p] != x),
                  patterns=[z3.MultiPattern(FIND(a, n, x), a[p])]),
    ]


class Tab:
    """Mathematical view of a Tableau value tree."""

    def __init__(self, t):
        self.t = t.t if isinstance(t, View) else t
        r = self.t.f['rows_']
        self.rows = r.len
        row = r.elem
        self.DEN = row.f['den']
        self.LEN = row.f['cells'].len
        self.COL = row.f['cells'].elem.f['col']
        self.VAL = row.f['cells'].elem.f['val']
        c = self.t.f['cols_']
        self.cols = c.len
        self.CLEN = c.elem.len
        self.C = c.elem.elem

    def at(self, i, j):
        """(position, present) of entry (i, j)"""
        p = FIND(self.COL[i], self.LEN[i], j)
        return p, z3.And(i < self.rows, p < self.LEN[i])

    def num(self, i, j):
        p, ok = self.at(i, j)
        return z3.If(ok, self.VAL[i][p], z3.IntVal(0))

    def den(self, i):
        return z3.If(i < self.rows, self.DEN[i], z3.IntVal(1))

    def incol(self, j, i):
        return z3.And(j < self.cols, FIND(self.C[j], self.CLEN[j], i) < self.CLEN[j])

    def row_inv(self, i):
        """Invariant of row i alone (without the column vectors)."""
        p, q = z3.Ints('p q')
        return And(self.LEN[i] >= 0, self.DEN[i] != 0,
                   z3.ForAll([p], z3.Implies(And(0 <= p, p < self.LEN[i]), And(self.VAL[i][p] != 0, self.COL[i][p] >= 0)),
                             patterns=[self.COL[i][p], self.VAL[i][p]]),
                   z3.ForAll([p, q], z3.Implies(And(0 <= p, p < q, q < self.LEN[i]), self.COL[i][p] < self.COL[i][q]),
                             patterns=[z3.MultiPattern(self.COL[i][p], self.COL[i][q])]))

    def inv(self):
        i, p, q = z3.Ints('i p q')
        rng = And(0 <= i, i < self.rows)
        crn = And(0 <= i, i < self.cols)
        cip, ciq = self.COL[i][p], self.COL[i][q]
        return [
            ('sizes', And(self.rows >= 0, self.cols >= 0)),
            ('denominators are not zero', z3.ForAll([i], z3.Implies(rng, And(self.DEN[i] != 0, self.LEN[i] >= 0)),
                                                    patterns=[self.DEN[i]])),
            ('row lengths', z3.ForAll([i], z3.Implies(rng, self.LEN[i] >= 0), patterns=[self.LEN[i]])),
            ('stored entries are not zero', z3.ForAll([i, p], z3.Implies(
                And(rng, 0 <= p, p < self.LEN[i]), And(self.VAL[i][p] != 0, cip >= 0)), patterns=[cip, self.VAL[i][p]])),
            ('rows are sorted', z3.ForAll([i, p, q], z3.Implies(
                And(rng, 0 <= p, p < q, q < self.LEN[i]), cip < ciq), patterns=[z3.MultiPattern(cip, ciq)])),
            ('columns know their rows', z3.ForAll([i, p], z3.Implies(
                And(rng, 0 <= p, p < self.LEN[i]), self.incol(cip, i)), patterns=[cip])),
            ('column lengths', z3.ForAll([i], z3.Implies(crn, self.CLEN[i] >= 0), patterns=[self.CLEN[i]])),
            ('columns are sorted', z3.ForAll([i, p, q], z3.Implies(
                And(crn, 0 <= p, p < q, q < self.CLEN[i]), self.C[i][p] < self.C[i][q]),
                patterns=[z3.MultiPattern(self.C[i][p], self.C[i][q])])),
            ('columns hold row numbers', z3.ForAll([i, p], z3.Implies(
                And(crn, 0 <= p, p < self.CLEN[i]), And(0 <= self.C[i][p], self.C[i][p] < self.rows)),
                patterns=[self.C[i][p]])),
        ]


def pre_inv(c):
    return [('invariant: ' + l, f) for l, f in Tab(c.this).inv()]


def post_inv(c):
    return [('invariant: ' + l, f) for l, f in Tab(c.nthis).inv()]


def same_entries(a, b, but=None):
    """Entries of a and b agree (except for row/col given)."""
    k, l = z3.Ints('k l')
    h = And(k >= 0, l >= 0)
    if but is not None:
        h = And(h, Not(but(k, l)))
    return z3.ForAll([k, l], z3.Implies(h, b.num(k, l) * a.den(k) == a.num(k, l) * b.den(k)))


class CallTrace:
    """Calls of the function object passed to update_row/update_col."""

    def __init__(self, on_call):
        self.on_call = on_call

    def __call__(self, ex, e, f, kind):
        if kind == 'mcall' and f['n'].endswith('::operator()') and f['n'].startswith('lambda#') and \
                e['o'].get('k') in ('var', 'load', 'cast', 'call'):
            return self.run
        return None

    def run(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                self.on_call(ex, st, vs)
                return [(st, None)]
            return ex.bind(ex.eval_list(e['args'], st), go2)
        return ex.bind(ex.eval_any(e['o'], st), go)


def trace_shape(ex, ty):
    if ty.k == 'rec' and ty.n.startswith('lambda#'):
        return OpaqueS('function object')
    return None


def on_call(ex, st, vs):
    """The function object is called with (index, entry, denominator)."""
    tr = Path('$calls', ())
    v = ex.read(st, tr)
    k = ex.rd(st, vs[0])
    ctx = ex.cur_ctx
    walk_row = ex.walk == 'row'
    fixed = ctx.arg(0)
    i, j = (fixed, k) if walk_row else (k, fixed)
    before, now = Tab(ctx.this), Tab(ex.read(st, ctx.tpath))
    pv, pd = vs[1], vs[2]
    if not isinstance(pd, Path) and is_z3(pd):
        # passed by value
        ex.oblig(st, 'the denominator is the one of the row', pd == now.DEN[i], 'call')
        pd = F(AT(F(ctx.tpath, 'rows_'), i), 'den')
    if not isinstance(pv, Path):
        raise Unsupported('entry is passed by value')
    ok = len(pv.acc) == 5 and pv.root == 'this' and [a for x, a in pv.acc if x == 'f'] == ['rows_', 'cells', 'val'] and \
        len(pd.acc) == 3 and pd.root == 'this' and [a for x, a in pd.acc if x == 'f'] == ['rows_', 'den']
    ex.oblig(st, 'entry and denominator refer to the tableau', z3.BoolVal(ok), 'call')
    if ok:
        ri, rp, di = pv.acc[1][1], pv.acc[3][1], pd.acc[1][1]
        ex.oblig(st, 'the entry belongs to the row and column given', And(
            ri == i, di == i, 0 <= rp, 0 <= ri, ri < now.rows, rp < now.LEN[i], now.COL[i][rp] == j), 'call')
        pos = FIND(before.COL[i], before.LEN[i], j)
        ex.oblig(st, 'the entry has its exact value', And(
            i < before.rows, pos < before.LEN[i], before.VAL[i][pos] == now.VAL[i][rp],
            before.DEN[i] == now.DEN[i]), 'call')
        st.assume(ri == i, di == i)
        # the function may change the entry, but not to zero
        nv = ex.fresh_int('f_val')
        st.assume(nv != 0)
        ex.write(st, pv, nv)
        if not walk_row:
            nd = ex.fresh_int('f_den')
            st.assume(nd != 0)
            ex.write(st, pd, nd)
    ex.write(st, tr, VV(z3.simplify(v.len + 1), z3.Store(v.elem, v.len, k)))


def walk_contracts(which):
    k, x, y = z3.Ints('k x y')

    def calls(c):
        return c.new(Path('$calls', ()))

    def pre(c):
        return pre_inv(c) + [('no calls yet', c.old(Path('$calls', ())).len == 0), ('index', c.arg(0) >= 0)]

    def post(c):
        tr, b = calls(c).t, Tab(c.this)
        n, T = tr.len, tr.elem
        a = c.arg(0)
        i, j = (a, k) if which == 'row' else (k, a)
        def find(k):
            p = FIND(b.COL[a], b.LEN[a], k) if which == 'row' else FIND(b.C[a], b.CLEN[a], k)
            return mark(b.COL[a][p], T[p], b.C[a][p], b.VAL[a][p])
        r = [('every entry of the %s is visited' % which,
              z3.ForAll([k], z3.Implies(And(k >= 0, b.num(i, j) != 0), FIND(T, n, k) < n)), [find]),
             ('only non-zero entries are visited',
              z3.ForAll([x], z3.Implies(And(0 <= x, x < n), And(T[x] >= 0, (b.num(a, T[x]) if which == 'row' else b.num(T[x], a)) != 0)),
                        patterns=[T[x]])),
             ('no entry is visited twice', z3.ForAll([x, y], z3.Implies(And(0 <= x, x < y, y < n), T[x] != T[y])))]
        return r + post_inv(c) + [('which entries are zero does not change', z3.ForAll(
            [x, y], z3.Implies(And(x >= 0, y >= 0), (Tab(c.nthis).num(x, y) == 0) == (b.num(x, y) == 0))))]

    def mods(c):
        m = [Path('$calls', ()), F(c.tpath, 'rows_')]
        if which == 'col':
            m.append(F(c.tpath, 'cols_'))
        return m

    def same_shape(L, now, old):
        r = [('row numbers', And(now.rows == old.rows, now.cols == old.cols)),
             ('lengths and columns of the rows', And(now.LEN == old.LEN, now.COL == old.COL))]
        return r

    def nz(now):
        i, p = z3.Ints('i p')
        return z3.ForAll([i, p], z3.Implies(And(0 <= i, i < now.rows, 0 <= p, p < now.LEN[i]), now.VAL[i][p] != 0),
                         patterns=[now.COL[i][p], now.VAL[i][p]])

    def dnz(now):
        i = z3.Int('i')
        return z3.ForAll([i], z3.Implies(And(0 <= i, i < now.rows), now.DEN[i] != 0), patterns=[now.DEN[i]])

    def inv_row(L):
        now, old = Tab(L.this), Tab(L.f.this)
        tr = L.val(Path('$calls', ())).t
        a = L.f.arg(0)
        n = L.pos
        return same_shape(L, now, old) + [
            ('position', And(0 <= n, n <= now.LEN[a])),
            ('denominators and columns', And(now.DEN == old.DEN, now.C == old.C, now.CLEN == old.CLEN)),
            ('no entry becomes zero', nz(now)),
            ('one call per entry so far', tr.len == n),
            ('calls so far', z3.ForAll([x], z3.Implies(And(0 <= x, x < n), tr.elem[x] == old.COL[a][x]),
                                       patterns=[tr.elem[x]])),
            ('calls so far, by entry', z3.ForAll([x], z3.Implies(And(0 <= x, x < n), tr.elem[x] == old.COL[a][x]),
                                                 patterns=[old.COL[a][x]])),
            ('other rows', z3.ForAll([x], z3.Implies(x != a, now.VAL[x] == old.VAL[x]), patterns=[now.VAL[x]])),
            ('entries to come', z3.ForAll([x], z3.Implies(And(n <= x, x < now.LEN[a]), now.VAL[a][x] == old.VAL[a][x]),
                                          patterns=[now.VAL[a][x]]))]

    def inv_col(L):
        now, old = Tab(L.this), Tab(L.f.this)
        tr = L.val(Path('$calls', ())).t
        a = L.f.arg(0)
        q = L.pos
        it = L.lv('it', ty=lambda t: 'iterator' in t)
        p = L.val(it)
        p = p.idx
        n = old.CLEN[a]
        T = tr.elem
        C0, C = old.C[a], now.C[a]
        hit = lambda e: FIND(old.COL[e], old.LEN[e], a) < old.LEN[e]
        return same_shape(L, now, old) + [
            ('position', And(0 <= p, p <= q, q <= n)),
            ('lengths', now.CLEN == old.CLEN),
            ('other columns', z3.ForAll([x], z3.Implies(x != a, now.C[x] == old.C[x]), patterns=[now.C[x]])),
            ('rest of the column', z3.ForAll([x], z3.Implies(And(q <= x, x < n), C[x] == C0[x]), patterns=[C[x]])),
            ('one call per kept row', tr.len == p),
            ('kept rows are the ones called', z3.ForAll([x], z3.Implies(And(0 <= x, x < p), And(
                C[x] == T[x], hit(T[x]), T[x] >= 0, T[x] < old.rows)), patterns=[T[x]])),
            ('kept rows are the ones called, by column', z3.ForAll([x], z3.Implies(And(0 <= x, x < p), C[x] == T[x]),
                                                                   patterns=[C[x]])),
            ('calls are sorted', z3.ForAll([x, y], z3.Implies(And(0 <= x, x < y, y < p), T[x] < T[y]),
                                           patterns=[z3.MultiPattern(T[x], T[y])])),
            ('calls are below the rest', z3.ForAll([x, y], z3.Implies(And(0 <= x, x < p, q <= y, y < n), T[x] < C0[y]),
                                                   patterns=[z3.MultiPattern(T[x], C0[y])])),
            ('every row so far with an entry is called', z3.ForAll([x], z3.Implies(
                And(0 <= x, x < q, hit(C0[x])), FIND(T, p, C0[x]) < p), patterns=[C0[x]])),
            ('no entry becomes zero', nz(now)), ('denominators', dnz(now)),
            ('rows to come', z3.ForAll([x], z3.Implies(Or(x >= z3.If(q < n, C0[q], old.rows), x < 0, Not(hit(x))), And(
                now.VAL[x] == old.VAL[x], now.DEN[x] == old.DEN[x])), patterns=[now.VAL[x]])),
            ('rows to come, denominators', z3.ForAll([x], z3.Implies(Or(x >= z3.If(q < n, C0[q], old.rows), x < 0), And(
                now.DEN[x] == old.DEN[x])), patterns=[now.DEN[x]])),
        ]
    spec = LoopSpec(inv=inv_row if which == 'row' else inv_col)
    return pre, post, mods, spec


_n, _d, _g, _n2, _d2, _x, _y = z3.Ints('n d g n2 d2 x y')
SCALE = Lemma('multiplying numerator and denominator with the same number keeps a quotient', (_n, _d, _g, _n2, _d2),
              [_n2 == _n * _g, _d2 == _d * _g], _n2 * _d == _n * _d2)
_qn, _qd, _rd, _ag, _rg = z3.Ints('qn qd rd ag rg')
WRITE = Lemma('a quotient brought to the common denominator keeps its value',
              (_qn, _qd, _rd, _g, _ag, _rg, _n2, _d2),
              [_ag * _g == _qd, _rg * _g == _rd, _n2 == _qn * _rg, _d2 == _rd * _ag],
              _n2 * _qd == _qn * _d2)


def push_lemma():
    a = z3.Const('a', AI)
    n, m, x = z3.Ints('n m x')
    t = FIND(z3.Store(a, n, m), n + 1, x)
    return z3.ForAll([a, n, m, x], z3.Implies(And(n >= 0, Or(x == m, FIND(a, n, x) < n)), t < n + 1), patterns=[t])


def prove_lemmas(gen):
    a = z3.Const('a', AI)
    n, m, x = z3.Ints('n m x')
    s = z3.Store(a, n, m)
    f = FIND(a, n, x)
    gen.lemma('lemma find', 'an appended sequence contains the old elements and the new one',
              find_axioms() + [n >= 0, Or(x == m, f < n), s[f] == s[f], s[n] == m],
              FIND(s, n + 1, x) < n + 1)


def config(p):
    cfg = abstract_config(p)
    cfg.shapes.append(trace_shape)
    return cfg


def axioms():
    return find_axioms() + rational_axioms() + gcd_axioms()


def table(p):
    """Contracts of the tableau functions (get, set, ...) by name."""
    def get_post(c):
        t = Tab(c.this)
        i, j = c.arg(0), c.arg(1)
        return [('the entry is returned', c.rval * z3.ToReal(t.den(i)) == z3.ToReal(t.num(i, j)))]
    idx = lambda c: [('row', c.arg(0) >= 0), ('column', c.arg(1) >= 0)]
    get = Contract('Tableau::get', pre=lambda c: pre_inv(c) + idx(c), post=get_post)

    def ug_pre(c):
        t = Tab(c.this)
        return pre_inv(c) + idx(c) + [('the entry is not zero', t.num(c.arg(0), c.arg(1)) != 0)]

    def ug_post(c):
        num, den = c.narg(2), c.narg(3)
        t = Tab(c.this)
        i, j = c.arg(0), c.arg(1)
        ok = all(isinstance(x, PtrV) and x.path is not None and x.path.root == 'this' for x in (num, den))
        r = [('both pointers refer to the tableau', z3.BoolVal(ok))]
        if ok:
            r += [('the first pointer refers to the entry', c.ex.ptr_eq(num, PtrV(
                F(AT(F(AT(F(c.tpath, 'rows_'), i), 'cells'), t.at(i, j)[0]), 'val'), False))),
                ('the second pointer refers to the denominator', c.ex.ptr_eq(den, PtrV(
                    F(AT(F(c.tpath, 'rows_'), i), 'den'), False)))]
        return r
    uget = Contract('Tableau::unsafe_get', pre=ug_pre, post=ug_post, modifies=lambda c: [c.apath(2), c.apath(3)])

    def rows_kept(b, a, i):
        k = z3.Int('k')
        return z3.ForAll([k], z3.Implies(And(k >= 0, k != i), And(
            z3.Implies(k < b.rows, And(k < a.rows, a.LEN[k] == b.LEN[k], a.DEN[k] == b.DEN[k], a.COL[k] == b.COL[k],
                                       a.VAL[k] == b.VAL[k])),
            z3.Implies(And(k >= b.rows, k < a.rows), And(a.LEN[k] == 0, a.DEN[k] == 1)))),
            patterns=[a.LEN[k], a.DEN[k], a.COL[k], a.VAL[k]])

    def set_post(c):
        b, a = Tab(c.this), Tab(c.nthis)
        x = z3.Int('x')
        i, j, q = c.arg(0), c.arg(1), c.arg(2)

        def marks(k, l):
            f, f2 = b.at(k, l)[0], a.at(k, l)[0]
            return mark(*[t for d in (-1, 0, 1) for t in (b.COL[k][f2 + d], a.COL[k][f + d], b.VAL[k][f2 + d],
                                                          a.VAL[k][f + d])])

        def factor():
            ag = c.ex.find_local(c.post_st, ('ag',))
            return z3.IntVal(1) if ag is None else c.ex.read(c.post_st, ag)

        def other(k, l):
            f, f2 = b.at(k, l)[0], a.at(k, l)[0]
            return [SCALE.at(b.VAL[k][f], b.DEN[k], factor(), a.VAL[k][f2], a.DEN[k])]

        def here():
            ls = [c.ex.find_local(c.post_st, (n,)) for n in ('g', 'ag', 'rg')]
            r = []
            if all(x is not None for x in ls):
                g, ag, rg = (c.ex.read(c.post_st, x) for x in ls)
                r.append(WRITE.at(QNUM(q), QDEN(q), b.den(i), g, ag, rg, a.num(i, j), a.den(i)))
            return r
        return [('the entry has the value written', a.num(i, j) * QDEN(q) == QNUM(q) * a.den(i), [lambda *_: here()]),
                ('[cut] all other rows are unchanged', rows_kept(b, a, i)),
                ('entries of other rows keep their values', same_entries(b, a, lambda k, l: k == i)),
                ('[cut] the other entries of the row stay', z3.ForAll([x], z3.Implies(
                    And(x >= 0, x != j), a.at(i, x)[1] == b.at(i, x)[1]), patterns=[b.at(i, x)[0], a.at(i, x)[0]]),
                 [lambda l: marks(i, l)]),
                ('[cut] the other entries of the row are scaled', z3.ForAll([x], z3.Implies(
                    And(x >= 0, x != j, b.at(i, x)[1]), a.VAL[i][a.at(i, x)[0]] == b.VAL[i][b.at(i, x)[0]] * factor())),
                 [lambda l: marks(i, l)]),
                ('[cut] the denominator is scaled', z3.Implies(i < b.rows, a.den(i) == b.den(i) * factor())),
                ('the other entries of the row keep their values', z3.ForAll([x], z3.Implies(
                    And(x >= 0, x != j), a.num(i, x) * b.den(i) == b.num(i, x) * a.den(i))), [lambda l: other(i, l)])]

    def set_inv(L):
        now, ent = Tab(L.this), Tab(L.ethis)
        i, j = L.f.arg(0), L.f.arg(1)
        n = L.pos
        x = z3.Int('x')
        ag = L.v('ag')
        it = L.val(L.lv('it')).idx
        mul = lambda x: z3.If(And(x < n, x != it), ent.VAL[i][x] * ag, ent.VAL[i][x])
        return [('position', And(0 <= n, n <= now.LEN[i])),
                ('shape', And(now.rows == ent.rows, now.cols == ent.cols, now.LEN == ent.LEN, now.COL == ent.COL,
                              now.C == ent.C, now.CLEN == ent.CLEN, now.DEN == ent.DEN)),
                ('other rows', z3.ForAll([x], z3.Implies(x != i, now.VAL[x] == ent.VAL[x]), patterns=[now.VAL[x]])),
                ('values so far', z3.ForAll([x], z3.Implies(And(0 <= x, x < now.LEN[i]), now.VAL[i][x] == mul(x)),
                                            patterns=[now.VAL[i][x]]))]
    sett = Contract('Tableau::set', pre=lambda c: pre_inv(c) + idx(c), post=lambda c: set_post(c) + post_inv(c),
                    modifies=lambda c: [c.tpath], loops=[LoopSpec(set_inv)])

    def clear_post(c):
        a = Tab(c.nthis)
        k, l = z3.Ints('k l')
        return [('all entries are zero', z3.ForAll([k, l], z3.Implies(And(k >= 0, l >= 0), a.num(k, l) == 0)))]
    clear = Contract('Tableau::clear', post=lambda c: clear_post(c) + post_inv(c), modifies=lambda c: [c.tpath])
    def rrow_post(c):
        b, a = Tab(c.this), Tab(c.nthis)
        i = c.arg(0)
        x = z3.Int('x')
        return [('number of rows', a.rows == z3.If(b.rows <= i, i + 1, b.rows)),
                ('old rows keep their entries', z3.ForAll([x], z3.Implies(And(0 <= x, x < b.rows), And(
                    a.DEN[x] == b.DEN[x], a.LEN[x] == b.LEN[x], a.COL[x] == b.COL[x], a.VAL[x] == b.VAL[x])),
                    patterns=[a.DEN[x], a.LEN[x], a.COL[x], a.VAL[x]])),
                ('new rows are empty', z3.ForAll([x], z3.Implies(And(b.rows <= x, x < a.rows), And(
                    a.DEN[x] == 1, a.LEN[x] == 0)), patterns=[a.DEN[x], a.LEN[x]]))]

    def rcol_post(c):
        b, a = Tab(c.this), Tab(c.nthis)
        i = c.arg(0)
        x = z3.Int('x')
        return [('number of columns', a.cols == z3.If(b.cols <= i, i + 1, b.cols)),
                ('old columns keep their entries', z3.ForAll([x], z3.Implies(And(0 <= x, x < b.cols), And(
                    a.CLEN[x] == b.CLEN[x], a.C[x] == b.C[x])), patterns=[a.CLEN[x], a.C[x]])),
                ('new columns are empty', z3.ForAll([x], z3.Implies(And(b.cols <= x, x < a.cols), a.CLEN[x] == 0),
                                                    patterns=[a.CLEN[x]]))]
    sz = lambda c: [('number of rows', Tab(c.this).rows >= 0), ('number of columns', Tab(c.this).cols >= 0),
                    ('index', c.arg(0) >= 0)]
    rrow = Contract('Tableau::reserve_row_', pre=sz, post=rrow_post, modifies=lambda c: [F(c.tpath, 'rows_')],
                    result=lambda c: AT(F(c.tpath, 'rows_'), c.arg(0)))
    rcol = Contract('Tableau::reserve_col_', pre=sz, post=rcol_post, modifies=lambda c: [F(c.tpath, 'cols_')],
                    result=lambda c: AT(F(c.tpath, 'cols_'), c.arg(0)))
    return {'get': get, 'unsafe_get': uget, 'set': sett, 'clear': clear, 'reserve_row_': rrow, 'reserve_col_': rcol}


def generate(gen):
    p = gen.program('tableau.cc')
    cfg = config(p)
    ax = axioms()
    prove_lemmas(gen)
    gen.prove(SCALE, WRITE)
    tab = table(p)
    for n in ('reserve_row_', 'reserve_col_'):
        f = p.find('Tableau::' + n, allow_none=True)
        if f is not None:
            cfg.contracts[f.id] = tab[n]
    for n, c in tab.items():
        f = p.find('Tableau::' + n, allow_none=n.endswith('_'))
        if f is None:
            continue
        ex = Exec(p, cfg)
        gen.verify(ex, f, c, lambda ex, st, args: st.assume(ax + [push_lemma()]))
    for unit in ('tableau.cc', 'solving.cc'):
        pu = gen.program(unit)
        for which in ('row', 'col'):
            for f in pu.byname.get('Tableau::update_' + which, []):
                cfg = config(pu)
                cfg.models.insert(0, CallTrace(on_call))
                cfg.ghosts = {'$calls': Vec(Leaf(I))}
                ex = Exec(pu, cfg)
                ex.walk = which
                pre, post, mods, ls = walk_contracts(which)
                c = Contract('%s:%s' % (unit, f.sig()), pre, post, mods, loops=[ls])
                gen.verify(ex, f, c, lambda ex, st, args: st.assume(ax + [push_lemma()]))


def harness(scratch, seed, tier, failed, incomplete, mode='C02'):
    return H.run_cpp(scratch, 'tableau', ['tableau.cc'], ['tableau.cc'],
                     [mode, str(seed), '60000' if tier == 'thorough' else '6000'], libs=['-lflint', '-lgmp'],
                     timeout=700, extra=['-D_GLIBCXX_ASSERTIONS'])
