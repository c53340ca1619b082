"""C08: bound propagation only adds implied clauses."""
from .simplex import *
from . import harness as H, prepare


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    gen.prove(*sum_lemmas())
    gen.prove(*muldiv_lemmas())
    prepare.verify(gen, p, 'clauses')
    for V in VALUES:
        verify_layer(gen, p, V, ('eq', 'queue', 'clause', 'prop'), ('propagate_', 'solve'))


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C08', seed, tier)
