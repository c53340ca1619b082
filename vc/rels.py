"""Relations of constraints and the bounds for them."""
from .solver import *


def holds(r, x, rel, y):
    return z3.If(rel == r['Less'], x < y, z3.If(rel == r['LessEqual'], x <= y, z3.If(
        rel == r['Greater'], x > y, z3.If(rel == r['GreaterEqual'], x >= y, x == y))))


def eps_of(r, rel):
    """Coefficient of epsilon of the bound for relation rel."""
    return z3.If(rel == r['Less'], z3.RealVal(-1), z3.If(rel == r['Greater'], z3.RealVal(1), z3.RealVal(0)))


def brel_of(r, rel):
    return z3.If(Or(rel == r['Less'], rel == r['LessEqual']), LE, z3.If(Or(rel == r['Greater'], rel == r['GreaterEqual']), GE, EQ))


def inverted(r, rel):
    return z3.If(rel == r['Less'], r['Greater'], z3.If(rel == r['Greater'], r['Less'], z3.If(
        rel == r['LessEqual'], r['GreaterEqual'], z3.If(rel == r['GreaterEqual'], r['LessEqual'], r['Equal']))))


def is_rel(r, rel):
    return Or([rel == v for v in r.values()])


def bholds(brel, k, x, c):
    """The bound (brel, c + k * epsilon) for a value without epsilon part."""
    return z3.If(brel == LE, z3.If(k < 0, x < c, x <= c), z3.If(brel == GE, z3.If(k > 0, x > c, x >= c), x == c))


def simple_contracts(p, r):
    inv = Contract('invert', lambda c: [('relation', is_rel(r, c.arg(0)))], lambda c: [
        ('the relation is turned around', c.rval == inverted(r, c.arg(0)))])

    def brel_post(c):
        return [('strict and non-strict relations give the same kind of bound', c.rval == brel_of(r, c.arg(0)))]
    brel = Contract('bound_rel', lambda c: [('relation', is_rel(r, c.arg(0)))], brel_post)

    def bval(V):
        pre = [lambda c: ('relation', is_rel(r, c.arg(1)))]
        if V == 'Rational':
            pre.append(lambda c: ('there are no strict relations over the rationals', Not(Or(
                c.arg(1) == r['Less'], c.arg(1) == r['Greater']))))
        return Contract('bound_val<%s>' % V, lambda c: [f(c) for f in pre], lambda c: [
            ('strict relations give an epsilon bound', c.rval == c.arg(0) + eps_of(r, c.arg(1)) * EPS)])
    return inv, brel, bval


def cases(p, n, V=None):
    """Function n for values V."""
    fs = [f for f in p.byname.get(n, []) if not f.dflt]
    if V is not None:
        fs = [f for f in fs if str(f.ret) == V or ('<%s>' % V) in str(f.ret)]
    return fs
