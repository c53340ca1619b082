"""C03: pivoting yields an equivalent system of equations."""
from . import c02
from .c02 import *
from . import simplex
from .nums import DVD

_a, _b, _c, _k, _m = z3.Ints('a b c k m')
TRANS = Lemma('divisibility is transitive', (_a, _b, _c, _k, _m), [_b == _a * _k, _c == _b * _m], _c == _a * (_k * _m))
NONZERO = Lemma('a factor of a number that is not zero is not zero', (_a, _b, _c), [_a * _b == _c, _c != 0], _a != 0)
REFL = Lemma('each number divides itself', (_a,), [], _a == _a * 1)


def divides_axioms():
    """TRANS and REFL in terms of DVD."""
    a, b, c = z3.Ints('a b c')
    return [z3.ForAll([a, b, c], z3.Implies(And(DVD(a, b), DVD(b, c)), DVD(a, c)), patterns=[z3.MultiPattern(DVD(a, b), DVD(b, c))]),
            z3.ForAll([a], DVD(a, a), patterns=[DVD(a, a)])]


def others(a, b, i):
    """Everything but the values of row i is the same."""
    k = z3.Int('k')
    return [('shape', And(a.rows == b.rows, a.cols == b.cols, a.LEN == b.LEN, a.COL == b.COL, a.C == b.C, a.CLEN == b.CLEN)),
            ('other rows', z3.ForAll([k], z3.Implies(k != i, And(a.VAL[k] == b.VAL[k], a.DEN[k] == b.DEN[k])),
                                     patterns=[b.VAL[k], b.DEN[k]]))]


def simplify_contract():
    def pre(c):
        t = Tab(c.this)
        i = c.arg(0)
        return [('row', And(0 <= i, i < t.rows)), ('the row is sorted and has no zeros', t.row_inv(i))]

    def post(c):
        a, b = Tab(c.this), Tab(c.nthis)
        i = c.arg(0)
        p = z3.Int('p')

        def h(p):
            g = c.ex.find_local(c.post_st, ('g',))
            if g is None:
                return []
            g = c.ex.read(c.post_st, g)
            return [SCALE.at(b.VAL[i][p], b.DEN[i], g, a.VAL[i][p], a.DEN[i]), NONZERO.at(b.VAL[i][p], g, a.VAL[i][p])]
        return others(a, b, i) + [
            ('the denominator is not zero', b.DEN[i] != 0),
            ('entries keep their values', z3.ForAll([p], z3.Implies(And(0 <= p, p < a.LEN[i]), And(
                b.VAL[i][p] != 0, a.VAL[i][p] * b.DEN[i] == b.VAL[i][p] * a.DEN[i])), patterns=[b.VAL[i][p]]), [h])]

    def common(L):
        a, b = Tab(L.f.this), Tab(L.this)
        p = z3.Int('p')
        i, g = L.f.arg(0), L.v('g')
        return a, b, i, g, p

    def find(L):
        a, b, i, g, p = common(L)
        return others(a, b, i) + [
            ('nothing changes', And(a.VAL[i] == b.VAL[i], a.DEN[i] == b.DEN[i])),
            ('position', And(0 <= L.pos, L.pos <= a.LEN[i])),
            ('the divisor is not zero', g != 0), ('it divides the denominator', DVD(g, a.DEN[i])),
            ('it divides the entries so far', z3.ForAll([p], z3.Implies(And(0 <= p, p < L.pos), DVD(g, a.VAL[i][p])),
                                                        patterns=[a.VAL[i][p]]))]

    def divide(L):
        a, b, i, g, p = common(L)
        return others(a, b, i) + [
            ('the denominator stays', a.DEN[i] == b.DEN[i]), ('position', And(0 <= L.pos, L.pos <= a.LEN[i])),
            ('entries so far are divided', z3.ForAll([p], z3.Implies(And(0 <= p, p < L.pos), b.VAL[i][p] * g == a.VAL[i][p]),
                                                     patterns=[b.VAL[i][p]])),
            ('the other entries stay', z3.ForAll([p], z3.Implies(And(L.pos <= p, p < a.LEN[i]), b.VAL[i][p] == a.VAL[i][p]),
                                                 patterns=[b.VAL[i][p]]))]
    return Contract('Tableau::simplify_', pre, post, lambda c: [F(c.tpath, 'rows_')], loops=[LoopSpec(find), LoopSpec(divide)])


def axioms():
    return c02.axioms() + divides_axioms() + [push_lemma()]


def generate(gen):
    p = gen.program('tableau.cc')
    prove_lemmas(gen)
    gen.prove(SCALE, TRANS, REFL, NONZERO)
    cfg = config(p)
    f = p.find('Tableau::simplify_', allow_none=True)
    if f is not None:
        gen.verify(Exec(p, cfg), f, simplify_contract(), lambda ex, st, args: st.assume(axioms()))
    # the system of equations, in terms of the matrix
    p = gen.program('solving.cc')
    simplex.check_enums(p)
    gen.prove(*simplex.sum_lemmas())
    gen.prove(*simplex.muldiv_lemmas())
    for V in simplex.VALUES:
        simplex.verify_layer(gen, p, V, ('eq',), ('pivot_',))


def harness(scratch, seed, tier, failed, incomplete):
    return H.both(lambda: c02.harness(scratch, seed, tier, failed, incomplete, 'C03'), lambda: H.solver_histories(scratch, 'C03', seed, tier))
