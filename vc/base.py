"""Configuration for the modules above the numbers: numbers are mathematical
values, the number functions are used through the contracts proved in C01."""
import z3
from .core import *
from .nums import spec, Abstract, gcd_axioms, QNUM, QDEN, ISRAT, EPS
from .stdmodels import StdModels

NUMFILES = ('number.hh', 'number_flint.hh')


def abstract_shapes(ex, ty):
    if ty.k == 'rec':
        if ty.n == 'Integer':
            return Leaf(I, 'Integer')
        if ty.n in ('Rational', 'RationalQ'):
            return Leaf(R, ty.n)
    return None


def leaf_models(ex, e, f, kind):
    """Copies, moves and assignments of numbers that the compiler generates."""
    if kind == 'mcall' and f.get('dflt') and f.get('ck') in ('copyassign', 'moveassign'):
        return None
    return None


def abstract_config(prog):
    cfg = Config()
    cfg.shapes.append(abstract_shapes)
    cfg.models += [StdModels()]
    rep = Abstract()
    for f in prog.funcs:
        if f.dflt or not f.file.endswith(NUMFILES):
            continue
        s = spec(f, rep)
        if s is not None:
            cfg.contracts[f.id] = s
    return cfg


def rational_axioms():
    """A rational number is the quotient of its numerator and denominator."""
    q = z3.Real('q')
    return [z3.ForAll([q], z3.And(QDEN(q) > 0, (QNUM(q) == 0) == (q == 0)), patterns=[QDEN(q)]),
            z3.ForAll([q], z3.And(QDEN(q) > 0, (QNUM(q) == 0) == (q == 0)), patterns=[QNUM(q)])]


def closure_of(f):
    """The parameter of f taking a function object."""
    for i, (_, _, t) in enumerate(f.ps):
        if (t.to if t.isref else t).k == 'rec' and (t.to if t.isref else t).n.startswith('lambda#'):
            return i
    return None
