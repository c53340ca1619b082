"""C04: the assignment always satisfies the defining linear equations."""
from .simplex import *
from . import harness as H


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    gen.prove(*sum_lemmas())
    gen.prove(*muldiv_lemmas())
    for V in VALUES:
        verify_layer(gen, p, V, ('eq',))


def harness(scratch, seed, tier, failed, incomplete):
    return H.solver_histories(scratch, 'C04', seed, tier)
