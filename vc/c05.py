"""C05: reported assignments satisfy all active constraints."""
from .simplex import *
from . import harness as H, prepare, threads, init


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    prepare.verify(gen, p, 'base', 'constraints', 'units', 'whole')
    for V in VALUES:
        verify_layer(gen, p, V, ('queue',))
        threads.verify(gen, p, V, 'propagate')
    threads.verify(gen, p, 'RationalQ', 'check')
    init.verify(gen, prepare.Prep(p, 'RationalQ'))


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C05', seed, tier)
