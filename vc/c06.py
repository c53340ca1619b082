"""C06: conflicts reported to the solver are genuine."""
from .simplex import *
from . import harness as H


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    gen.prove(*sum_lemmas())
    gen.prove(*muldiv_lemmas())
    for V in VALUES:
        verify_layer(gen, p, V, ('eq', 'queue', 'clause'))


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C06', seed, tier)
