"""C07: backtracking restores exactly the earlier bounds and a solution."""
from .trail import *
from . import harness as H, threads

ASSUMPTIONS = ['clingo passes literals that are true on the current decision level to propagate, keeps literals true with their level '
               'until the level is undone, and undoes the levels it propagated on from the last one down',
               'after solve returned false, clingo undoes the current level before it calls solve again',
               'the values after each change (rather than those restored) are the subject of C04 and C05, whose contracts are assumed here']


def generate(gen):
    p = gen.program('solving.cc')
    check_enums(p)
    gen.prove(*undo_lemmas())
    for V in VALUES:
        verify_trails(gen, p, V)
        threads.verify(gen, p, V, 'propagate', 'undo')


def harness(scratch, seed, tier, failed, incomplete):
    return H.system(scratch, 'C07', seed, tier)
