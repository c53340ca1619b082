"""C12: preparation ties each constraint literal to an equivalent bound."""
from .prepare import *
from . import init, prepare
from . import harness as H


def lemmas(r):
    x, co, rhs = z3.Reals('x co rhs')
    rel = z3.Int('rel')
    eff = z3.If(co < 0, inverted(r, rel), rel)
    a = Lemma('a constraint over one variable is equivalent to its bound', (x, co, rhs, rel),
              [co != 0, is_rel(r, rel)],
              holds(r, x * co, rel, rhs) == bholds(brel_of(r, eff), eps_of(r, eff), x, rhs / co))
    b = Lemma('a constraint is equivalent to the bound on its row', (x, rhs, rel), [is_rel(r, rel)],
              holds(r, x, rel, rhs) == bholds(brel_of(r, rel), eps_of(r, rel), x, rhs))
    return a, b


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    r = enums(p, 'Relation')
    gen.prove(*lemmas(r))
    prepare.verify(gen, p)
    for V in VALUES:
        init.verify(gen, Prep(p, V))


def harness(scratch, seed, tier, failed, incomplete):
    return H.solver_histories(scratch, 'C12', seed, tier)
