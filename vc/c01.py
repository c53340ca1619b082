"""C01: numbers compute and compare exactly."""
from .core import *
from .nums import *
from . import harness as H

ASSUMPTIONS = [
    'FLINT functions (fmpz_*, fmpq_*) meet the contracts in vc/nums.py (class Op): exact arithmetic, results in lowest terms',
    'memory allocation inside FLINT does not fail',
    'strings passed to the constructors from text denote what FLINT\'s parsers read',
    'the imath back end (number_imath.hh) is not compiled in this build and is not covered',
    'printing (operator<<) and destructors are not under contract here; printing belongs to C13',
]


def alias_setup(ax):
    def setup(ex, st, args):
        st.assume(ax)
        st.store.pop('arg1', None)
        return [args[0], args[0]]
    return setup


def generate(gen):
    p = gen.program('problem.cc')
    cfg, rep = concrete_config(p)
    ax = rep.axioms()

    def setup(ex, st, args):
        st.assume(ax)
    ex = ConcreteExec(p, cfg)
    want = 0
    for f in p.funcs:
        c = cfg.contracts.get(f.id)
        if c is None:
            continue
        want += 1
        gen.verify(ex, f, c, setup)
        # both operands the same object
        if len(f.ps) == 2 and f.rec is None and all(t.isref for _, _, t in f.ps) and \
                f.ps[0][2].to.n == f.ps[1][2].to.n and f.s not in ('gcd_div',):
            gen.verify(ex, f, c, alias_setup(ax), label=f.sig() + ' [a and b the same object]')
        if f.s == 'operator=' and len(f.ps) == 1 and f.ps[0][2].isref and not f.ps[0][2].d.get('rv'):
            def self_assign(ex, st, args):
                st.assume(ax)
                return [st.this]
            gen.verify(ex, f, c, self_assign, label=f.sig() + ' [self assignment]')
    if want < 150:
        gen.unsupported.append(('number layer', 'only %d number functions found' % want))


def harness(scratch, seed, tier, failed, incomplete):
    return H.run_cpp(scratch, 'numbers', ['numbers.cc'], [], [str(seed), '2' if tier == 'thorough' else '1'],
                     libs=['-lflint', '-lgmp'])
