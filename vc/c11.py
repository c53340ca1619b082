"""C11: theory atoms are turned into constraints with the same meaning."""
from .parse import *
from . import harness as H

# An arbitrary assignment to the symbols, with 1 for the symbol of the constants.
X = z3.Const('X', z3.ArraySort(I, R))
# evaluate(b, t): accepted, number or symbol, number, symbol
EOK, ETAG = z3.Function('evaluable', B, I, B), z3.Function('eval_tag', B, I, I)
ENUM, ESYM = z3.Function('eval_number', B, I, R), z3.Function('eval_symbol', B, I, I)
# terms of a sum: linear, constant, value under X
OK, CONST, VALUE = z3.Function('linear', I, B), z3.Function('constant', I, B), z3.Function('value', I, R)
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1

ASSUMPTIONS = ['clingo answers the same whenever it is asked about a theory term, and returns non-negative sizes',
               'a clingo symbol is determined by its kind, name, arguments and sign',
               'std::regex and the conversion of decimal strings (as_num), unescaping of strings (unquote)']


def arg(t, k):
    return ARGS(t)[k]


def is_op(m, t, s, n):
    return Or(And(TYPE(t) == SYMBOL, eq(m, NAME(t), s), n == 0), And(TYPE(t) == FUNCTION, eq(m, NAME(t), s), ARITY(t) == n))


def is_str(m, t):
    a = NAME(t)
    return And(TYPE(t) == SYMBOL, LEN(a) >= 2, m[a] == 34, m[a + LEN(a) - 1] == 34)


def as_symbol(b, t):
    """Evaluated as argument: accepted, and the symbol."""
    n = QNUM(ENUM(b, t))
    ok = And(EOK(b, t), Or(ETAG(b, t) == 1, And(QDEN(ENUM(b, t)) == 1, n >= INT_MIN, n <= INT_MAX)))
    return ok, z3.If(ETAG(b, t) == 1, ESYM(b, t), NUMSYM(n))


def eval_def(m, b, t):
    """The meaning of evaluate(b, t) by the form of t."""
    l, r = arg(t, 0), arg(t, 1)
    num = lambda x: And(EOK(b, x), ETAG(b, x) == 0)
    is_ = lambda f, n: is_op(m, t, f, n)
    numeric = And(b, is_str(m, t), NUMERIC(NAME(t)))
    k = z3.Int('k!arg')

    def number(c, ok, v):
        return [z3.Implies(c, And(EOK(b, t) == ok, ETAG(b, t) == 0, ENUM(b, t) == v))]

    def symbol(c, ok, name, n, args, pos):
        return [z3.Implies(c, And(EOK(b, t) == ok, ETAG(b, t) == 1, same_function(ESYM(b, t), name, n, args, pos)))]
    named = And(TYPE(t) == SYMBOL, Not(is_str(m, t)))
    ops = Or([is_(o, 2) for o in ('+', '-', '*', '/')] + [is_('-', 1)])
    fun = And(Or(TYPE(t) == FUNCTION, TYPE(t) == TUPLE), Not(ops))
    name = z3.If(TYPE(t) == FUNCTION, TEXT(NAME(t)), 0)
    e = ESYM(b, t)
    s = ESYM(b, l)
    neg = And(is_('-', 1), ETAG(b, l) == 1)
    r_ = []
    r_ += number(TYPE(t) == NUMBER, True, z3.ToReal(NUM(t)))
    r_ += number(numeric, True, DECIMAL(NAME(t)))
    r_ += [z3.Implies(And(is_str(m, t), Not(numeric)), And(EOK(b, t), ETAG(b, t) == 1, KIND(e) == S_STRING,
                                                        SNAME(e) == UNQUOTED(NAME(t) + 1, NAME(t) + LEN(NAME(t)) - 1)))]
    r_ += [z3.Implies(named, And(EOK(b, t), ETAG(b, t) == 1, KIND(e) == S_FUNCTION, SNAME(e) == TEXT(NAME(t)),
                                SARITY(e) == 0, SPOS(e)))]
    r_ += number(is_('+', 2), And(num(l), num(r)), ENUM(b, l) + ENUM(b, r))
    r_ += number(is_('-', 2), And(num(l), num(r)), ENUM(b, l) - ENUM(b, r))
    r_ += number(is_('*', 2), And(num(l), num(r)), ENUM(b, l) * ENUM(b, r))
    r_ += number(is_('/', 2), And(num(l), num(r), ENUM(b, r) != 0), ENUM(b, l) / ENUM(b, r))
    r_ += number(And(is_('-', 1), ETAG(b, l) != 1), EOK(b, l), -ENUM(b, l))
    r_ += symbol(neg, And(EOK(b, l), KIND(s) == S_FUNCTION, SNAME(s) != 0), SNAME(s), SARITY(s), SARGS(s), Not(SPOS(s)))
    ok, sym = as_symbol(z3.BoolVal(False), ARGS(t)[k])
    r_ += [z3.Implies(And(fun, is_('..', 2)), Not(EOK(b, t)))]
    r_ += [z3.Implies(And(fun, Not(is_('..', 2))), And(
        EOK(b, t) == z3.ForAll([k], z3.Implies(And(0 <= k, k < ARITY(t)), ok), patterns=[ARGS(t)[k]]),
        ETAG(b, t) == 1, KIND(e) == S_FUNCTION, SNAME(e) == name, SARITY(e) == ARITY(t), SPOS(e),
        z3.ForAll([k], z3.Implies(And(0 <= k, k < ARITY(t)), SARGS(e)[k] == sym), patterns=[SARGS(e)[k]])))]
    r_ += [z3.Implies(And(TYPE(t) != NUMBER, TYPE(t) != SYMBOL, TYPE(t) != FUNCTION, TYPE(t) != TUPLE), Not(EOK(b, t)))]
    r_ += [Or(ETAG(b, t) == 0, ETAG(b, t) == 1)]
    return r_


def evaluate_contract():
    def post(c):
        b, t, v = c.arg(0), c.arg(1), c.rval
        return [('only what has a meaning is accepted', EOK(b, t)),
                ('numbers and symbols', And(v.tag == ETAG(b, t), Or(v.tag == 0, v.tag == 1))),
                ('the number', z3.Implies(v.tag == 0, v.num == ENUM(b, t))),
                ('the symbol', z3.Implies(v.tag == 1, v.sym == ESYM(b, t))),
                ('symbols are no numbers', z3.Implies(v.tag == 1, Or(KIND(v.sym) == S_FUNCTION, KIND(v.sym) == S_STRING)))]

    def args_loop(L):
        b, t = L.f.arg(0), L.f.arg(1)
        v = L.v('args')
        k = z3.Int('k!arg')
        ok, sym = as_symbol(z3.BoolVal(False), ARGS(t)[k])
        return [('position', And(0 <= L.pos, v.len == L.pos)),
                ('the arguments so far', z3.ForAll([k], z3.Implies(And(0 <= k, k < L.pos), And(ok, v.elem[k] == sym)),
                                                  patterns=[v.elem[k]]))]
    return Contract('evaluate', lambda c: [], post, throws=lambda c: Not(EOK(c.arg(0), c.arg(1))),
                    loops=[LoopSpec(args_loop)])


# ---- terms of sums

CO, VAR = 'co', 'var'
_r, _r2, _x = z3.Consts('r r2 x', ROW)
_d, _d2 = z3.Consts('d d2', IDXS)
_n, _s, _l, _j = z3.Ints('n s l j')
_a, _b, _c, _q, _y, _z = z3.Reals('a b c q y z')
# a part of the coefficients is negated
NEG = Induction(
    'negating the coefficients from a position on', (_r, _r2, _x, _d, _d2, _s, _n),
    [0 <= _s, _s <= _n, z3.ForAll([_l], z3.Implies(And(0 <= _l, _l < _n), And(
        _r2[_l] == z3.If(_l < _s, _r[_l], -_r[_l]), _d2[_l] == _d[_l])), patterns=[_r2[_l], _d2[_l]])],
    lambda m: SUM(_r2, _x, _d2, m) == z3.If(m <= _s, SUM(_r, _x, _d, m), 2 * SUM(_r, _x, _d, _s) - SUM(_r, _x, _d, m)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r2, _x, _d2, m)], _n)
ONE = Lemma('factors that are one', (_a, _b), [], And(z3.Implies(_a == 1, _a * _b == _b), z3.Implies(_b == 1, _a * _b == _a)))
# one more factor on the left, one more on the right, one more quotient
_p = z3.Real('p')
_q3, _d3 = z3.Const('q3', ROW), z3.Const('d3', IDXS)
LEFT = Lemma('one more summand in the left factor', (_a, _b, _y, _z), [_b == _a + _y], PROD(_b, _z) == PROD(_a, _z) + PROD(_y, _z),
             axioms=[prod_def(_a, _z), prod_def(_b, _z), prod_def(_y, _z)])
RIGHT = Lemma('one more summand in the right factor', (_a, _c, _q, _b, _y, _z, _p), [
    _z == _y + _b * _q, _p == _a * _b, Or(_c == 1, _q == 1)],
    And(z3.Implies(_c == 1, PROD(_a * _c, _z) == PROD(_a * _c, _y) + _p * _q),
        z3.Implies(_q == 1, PROD(_a * _c, _z) == PROD(_a * _c, _y) + _p * _c)),
    axioms=[prod_def(_a * _c, _y), prod_def(_a * _c, _z)])
DIVS = Lemma('one more summand in the dividend', (_a, _b, _c, _q, _y, _p), [_q != 0, _p * _q == _c, _b == _a + _c * _y],
             QUOT(_b, _q) == QUOT(_a, _q) + _p * _y, axioms=[QUOT(_a, _q) == _a / _q, QUOT(_b, _q) == _b / _q])


def value_def(m, t):
    """What a term of a sum means: whether it is linear, constant, defined, and its value."""
    l, r = arg(t, 0), arg(t, 1)
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    is_ = lambda f, n: is_op(m, t, f, n)

    def form(c, lin, const, defd, v):
        return z3.Implies(c, And(LINEAR(t) == lin, CONST(t) == const, DEFINED(t) == defd, VALUE(t) == v))
    numeric = And(is_str(m, t), NUMERIC(NAME(t)))
    ops = Or([is_(o, 2) for o in ('+', '-', '*', '/')] + [is_('-', 1), is_('+', 1)])
    var = And(Or(TYPE(t) == SYMBOL, TYPE(t) == FUNCTION, TYPE(t) == TUPLE), Not(ops), Not(numeric))
    lin, const, defd = And(LINEAR(l), LINEAR(r)), And(CONST(l), CONST(r)), And(DEFINED(l), DEFINED(r))
    q = ENUM(T, r)
    divisor = And(EOK(T, r), ETAG(T, r) == 0, q != 0)
    is_var = And(EOK(Fa, t), ETAG(Fa, t) == 1)
    return [form(TYPE(t) == NUMBER, T, T, T, z3.ToReal(NUM(t))),
            form(is_('+', 2), lin, const, defd, VALUE(l) + VALUE(r)),
            form(is_('-', 2), lin, const, defd, VALUE(l) - VALUE(r)),
            form(is_('-', 1), LINEAR(l), CONST(l), DEFINED(l), -VALUE(l)),
            form(is_('+', 1), LINEAR(l), CONST(l), DEFINED(l), VALUE(l)),
            form(is_('*', 2), And(lin, Or(CONST(l), CONST(r))), const, defd, PROD(VALUE(l), VALUE(r))),
            form(is_('/', 2), And(LINEAR(l), divisor), CONST(l), And(DEFINED(l), divisor), QUOT(VALUE(l), q)),
            form(numeric, T, T, T, DECIMAL(NAME(t))),
            form(var, is_var, Fa, is_var, X[ESYM(Fa, t)]),
            z3.Implies(And(TYPE(t) != NUMBER, TYPE(t) != SYMBOL, TYPE(t) != FUNCTION, TYPE(t) != TUPLE), And(
                Not(LINEAR(t)), Not(DEFINED(t))))]


LINEAR, DEFINED = OK, z3.Function('defined', I, B)


def is_var(s):
    return Or(s == ZEROSYM, KIND(s) == S_FUNCTION, KIND(s) == S_STRING)


class Terms:
    """A vector of terms."""

    def __init__(self, v):
        v = v.t if isinstance(v, View) else v
        self.n, self.co, self.var = v.len, v.elem.f['co'], v.elem.f['var']

    def sum(self, n=None):
        return SUM(self.co, X, self.var, self.n if n is None else n)


def prefix(a, b, n):
    """The first n terms are the same."""
    k = z3.Int('k!pre')
    return z3.ForAll([k], z3.Implies(And(0 <= k, k < n), And(b.co[k] == a.co[k], b.var[k] == a.var[k])),
                     patterns=[b.co[k], b.var[k]])


def appended(a, b, value, const):
    """b is a with terms appended that add up to value."""
    k = z3.Int('k!new')
    each = lambda f: z3.ForAll([k], z3.Implies(And(a.n <= k, k < b.n), f), patterns=[b.var[k]])
    return [('nothing is lost', b.n >= a.n), ('what was there stays', prefix(a, b, a.n)),
            ('[cut] the terms before add up to the same', b.sum(a.n) == a.sum(), [SAME.at(b.co, a.co, X, X, b.var, a.var, a.n)]),
            ('the value of the terms added', b.sum() == a.sum() + value),
            ('terms are over variables', each(is_var(b.var[k]))),
            ('constants have no variables', z3.Implies(const, each(b.var[k] == ZEROSYM)))]


def appending(a, b):
    """What is known if b is a with a term appended."""
    n = z3.simplify(a.n + 1)
    co, x = b.co[a.n], X[b.var[a.n]]
    return [SAME.at(b.co, a.co, X, X, b.var, a.var, a.n), sum_def(b.co, X, b.var, n), ONE.at(co, x), ONE.at(co, X[ZEROSYM])]


def no_terms():
    """The sum of no terms is zero."""
    return z3.ForAll([_r, _x, _d, _n], z3.Implies(_n <= 0, SUM(_r, _x, _d, _n) == 0), patterns=[SUM(_r, _x, _d, _n)])


def has_local(L, n):
    return L.ex.find_local(L.entry, (n,), None, 0) is not None


def sum_elem_loop():
    """The loops of parse_sum_elem: negating, multiplying, dividing."""
    def kind(L):
        if not has_local(L, 'lhs'):
            return 'neg'
        r = L.ev('rhs')
        if is_z3(r):
            return 'div'
        return 'inner' if has_local(L, 'l_co') else 'outer'

    def inv(L):
        e, b = Terms(L.ev('res')), Terms(L.v('res'))
        k = z3.Int('k!neg')
        t = L.f.arg(0)
        pos = L.pos
        if kind(L) == 'neg':
            s = L.entry_pos
            return [('position', And(s <= pos, pos <= b.n, b.n == e.n)),
                    ('the coefficients passed are negated', z3.ForAll([k], z3.Implies(And(0 <= k, k < b.n), And(
                        b.var[k] == e.var[k], b.co[k] == z3.If(And(s <= k, k < pos), -e.co[k], e.co[k]))),
                        patterns=[b.co[k], b.var[k]]))]
        lhs0 = Terms(L.ev('lhs'))
        if kind(L) == 'div':
            lhs, q = Terms(L.v('lhs')), L.v('rhs')
            return appended(e, b, QUOT(lhs0.sum(pos), q), CONST(t)) + [
                ('the dividend is not changed', And(lhs.n == lhs0.n, z3.ForAll([k], z3.Implies(And(
                    0 <= k, k < lhs.n), And(lhs.var[k] == lhs0.var[k], z3.Implies(k >= pos, lhs.co[k] == lhs0.co[k]))),
                    patterns=[lhs.co[k], lhs.var[k]])))]
        rhs = Terms(L.ev('rhs'))
        if kind(L) == 'outer':
            v = PROD(lhs0.sum(pos), rhs.sum())
        else:
            v = PROD(L.v('l_co') * X[L.v('l_var')], rhs.sum(pos))
        return appended(e, b, v, CONST(t))

    def added(L):
        """The sum after an iteration from the one before."""
        a, b = Terms(L.ex.read(L.bi, L.lv('res'))), Terms(L.v('res'))
        return appending(a, b)

    def last(L):
        """The coefficient of the term appended."""
        return Terms(L.v('res')).co[Terms(L.ex.read(L.bi, L.lv('res'))).n]

    def hints(L):
        if kind(L) == 'neg':
            return []
        pos, old = L.pos, L._pos(L.bi)
        lhs = Terms(L.ev('lhs'))
        one = lambda v: [sum_def(v.co, X, v.var, pos), sum_def(v.co, X, v.var, z3.simplify(old + 1))]
        if kind(L) == 'div':
            q = L.v('rhs')
            return added(L) + one(lhs) + [DIVS.at(lhs.sum(old), lhs.sum(pos), lhs.co[old], q, X[lhs.var[old]], last(L))]
        rhs = Terms(L.ev('rhs'))
        if kind(L) == 'outer':
            y = lhs.co[old] * X[lhs.var[old]]
            return one(lhs) + [LEFT.at(lhs.sum(old), lhs.sum(pos), y, rhs.sum())]
        lc, lv = L.v('l_co'), L.v('l_var')
        return added(L) + one(rhs) + [RIGHT.at(lc, X[lv], X[rhs.var[old]], rhs.co[old], rhs.sum(old), rhs.sum(pos), last(L))]

    def entry_hints(L):
        z = z3.IntVal(0)
        if kind(L) == 'neg':
            return []
        lhs = Terms(L.ev('lhs'))
        if kind(L) == 'div':
            return [sum_def(lhs.co, X, lhs.var, z), QUOT(z3.RealVal(0), L.v('rhs')) == 0]
        rhs = Terms(L.ev('rhs'))
        if kind(L) == 'outer':
            return [sum_def(lhs.co, X, lhs.var, z), zero_fact(lhs.sum(z), rhs.sum())]
        c = L.v('l_co') * X[L.v('l_var')]
        return [sum_def(rhs.co, X, rhs.var, z), PROD(c, z3.RealVal(0)) == 0, PROD(c, rhs.sum(z)) == c * rhs.sum(z)]

    def exit_hints(L):
        if kind(L) != 'neg':
            return []
        e, b = Terms(L.ev('res')), Terms(L.v('res'))
        return [NEG.at(e.co, b.co, X, e.var, b.var, L.entry_pos, b.n)]
    return LoopSpec(inv, hints=hints, entry_hints=entry_hints, exit_hints=exit_hints)


def sum_elem_contract():
    def post(c):
        a, b, t = Terms(c.arg(1)), Terms(c.narg(1)), c.arg(0)
        z = z3.IntVal(0)
        hint = appending(a, b)
        return [('only what has a meaning is accepted', DEFINED(t))] + [
            (p[0], p[1], list(p[2:3] and p[2]) + hint) for p in appended(a, b, VALUE(t), CONST(t))]
    return Contract('parse_sum_elem', lambda c: [], post, modifies=lambda c: [c.apath(1)],
                    throws=lambda c: Not(LINEAR(c.arg(0))), loops=[sum_elem_loop()] * 12)


# ---- differences and relations

def eval_value(t):
    """The value of a term evaluated: the number, or that of the variable."""
    T = z3.BoolVal(True)
    return z3.If(ETAG(T, t) == 0, ENUM(T, t), X[ESYM(T, t)])


def fresh_terms(r, value):
    """r consists of terms that add up to value."""
    k = z3.Int('k!new')
    return [('value', r.sum() == value),
            ('terms are over variables', z3.ForAll([k], z3.Implies(And(0 <= k, k < r.n), is_var(r.var[k])), patterns=[r.var[k]]))]


def diff_elem_contract():
    T = z3.BoolVal(True)

    def ok(m, t):
        return And(is_op(m, t, '-', 2), EOK(T, arg(t, 0)), EOK(T, arg(t, 1)))

    def post(c):
        t, r = c.arg(0), Terms(c.rval)
        l, q = arg(t, 0), arg(t, 1)
        z = [sum_def(r.co, X, r.var, z3.IntVal(k)) for k in range(3)]
        z += [ONE.at(r.co[k], X[r.var[k]]) for k in range(2)]
        z += [DIFF1.at(r.co[1], X[r.var[1]])]
        return [('differences of two terms', ok(mem(c.pre_st), t))] + [
            (a, f, z) for a, f in fresh_terms(r, eval_value(l) - eval_value(q))]
    return Contract('parse_diff_elem', lambda c: [], post, throws=lambda c: Not(ok(mem(c.pre_st), c.arg(0))))


DIFF1 = Lemma('factors that are minus one', (_a, _b), [_a == -1], _a * _b == -_b)
RELS = (('<=', 'LessEqual'), ('>=', 'GreaterEqual'), ('=', 'Equal'), ('>', 'Greater'), ('<', 'Less'))


def relation(m, a, x):
    """x is the relation written at a."""
    return And([z3.Implies(eq(m, a, s), x == RELNO[n]) for s, n in RELS])


def known_relation(m, a):
    return Or([eq(m, a, s) for s, _ in RELS])


RELNO = {'LessEqual': 0, 'GreaterEqual': 1, 'Equal': 2, 'Less': 3, 'Greater': 4}


def cmp_contract():
    return Contract('evaluate_cmp', lambda c: [], lambda c: [
        ('only relations are accepted', known_relation(mem(c.pre_st), addr(c._args[0]))),
        ('the relation written', relation(mem(c.pre_st), addr(c._args[0]), c.rval))],
        throws=lambda c: Not(known_relation(mem(c.pre_st), addr(c._args[0]))))


# ---- combining terms

_i, _k = z3.Ints('i k')


def _rest(f, *pats):
    return z3.ForAll([_l], z3.Implies(And(0 <= _l, _l < _n), f), patterns=list(pats))


MOVED = Induction(
    'moving a coefficient to an earlier term of the same variable', (_r, _r2, _x, _d, _n, _i, _j),
    [0 <= _j, _j < _i, _i < _n, _d[_i] == _d[_j], _r2[_j] == _r[_j] + _r[_i], _r2[_i] == 0,
     _rest(Or(_l == _i, _l == _j, _r2[_l] == _r[_l]), _r2[_l], _r[_l], _d[_l])],
    lambda m: SUM(_r2, _x, _d, m) == SUM(_r, _x, _d, m) + z3.If(_j < m, _r[_i] * _x[_d[_i]], z3.RealVal(0)) - z3.If(
        _i < m, _r[_i] * _x[_d[_i]], z3.RealVal(0)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r2, _x, _d, m)], _n)
GONE = Induction(
    'dropping the coefficient of a constant', (_r, _r2, _x, _d, _n, _i),
    [0 <= _i, _i < _n, _x[_d[_i]] == 1, _r2[_i] == 0, _rest(Or(_l == _i, _r2[_l] == _r[_l]), _r2[_l], _r[_l], _d[_l])],
    lambda m: SUM(_r2, _x, _d, m) == SUM(_r, _x, _d, m) - z3.If(_i < m, _r[_i], z3.RealVal(0)), None,
    lambda m: [sum_def(_r, _x, _d, m), sum_def(_r2, _x, _d, m)], _n)


class Refs:
    """The map from variables to their terms."""

    def __init__(self, v):
        v = v.t if isinstance(v, View) else v
        self.has, self.val, self.size = v.f['has'], v.f['val'], v.f['size']


def simplify_contract():
    def post(c):
        a, b = Terms(c.arg(1)), Terms(c.narg(1))
        k, l = z3.Ints('k!s l!s')
        rng = lambda k: And(0 <= k, k < b.n)
        m = c.post_st.store.get('$moved')
        m = Terms(m) if m is not None else b
        return [('no term is added', b.n <= a.n), ('the terms and the right-hand side mean the same', b.sum() == a.sum() + c.rval,
                 [SAME.at(b.co, m.co, X, X, b.var, m.var, b.n)]),
                ('there are coefficients', z3.ForAll([k], z3.Implies(rng(k), b.co[k] != 0), patterns=[b.co[k]])),
                ('no constants', z3.ForAll([k], z3.Implies(rng(k), b.var[k] != ZEROSYM), patterns=[b.var[k]])),
                ('each variable occurs once', z3.ForAll([k, l], z3.Implies(And(0 <= k, k < l, l < b.n), b.var[k] != b.var[l]),
                                                      patterns=[z3.MultiPattern(b.var[k], b.var[l])]))]

    def kind(L):
        return 'filter' if '$kept' in L.entry.store else 'combine'

    def inv(L):
        k, l = z3.Ints('k!s l!s')
        e, b, pos = Terms(L.val(TERMS)), Terms(L.eval_(TERMS)), L.pos
        e, b = b, e
        cos = Refs(L.val(L.lv('cos')))
        n = e.n
        if kind(L) == 'combine':
            return [
                ('no term is added', b.n == e.n),
                ('variables stay', z3.ForAll([k], z3.Implies(And(0 <= k, k < n), b.var[k] == e.var[k]), patterns=[b.var[k]])),
                ('terms ahead stay', z3.ForAll([k], z3.Implies(And(pos <= k, k < n), b.co[k] == e.co[k]), patterns=[b.co[k]])),
                ('the map refers to terms of the variable', z3.ForAll([k], z3.Implies(cos.has[k], And(
                    0 <= cos.val[k], cos.val[k] < pos, b.var[cos.val[k]] == k, k != ZEROSYM)), patterns=[cos.has[k]])),
                ('terms left are in the map', z3.ForAll([k], z3.Implies(And(0 <= k, k < pos, b.co[k] != 0), And(
                    cos.has[b.var[k]], cos.val[b.var[k]] == k)), patterns=[b.co[k]])),
                ('the meaning is the same', b.sum() == e.sum() + L.v('rhs'))]
        m = L.st.store['$kept']
        ref = lambda k: cos.val[b.var[k]]
        return [
            ('no term is added', And(b.n == e.n, 0 <= m, m <= pos)),
            ('terms ahead stay', z3.ForAll([k], z3.Implies(And(pos <= k, k < n), And(
                b.co[k] == e.co[k], b.var[k] == e.var[k])), patterns=[b.co[k], b.var[k]])),
            ('terms kept come from before', z3.ForAll([k], z3.Implies(And(0 <= k, k < m), And(
                b.co[k] != 0, cos.has[b.var[k]], ref(k) < pos)), patterns=[b.co[k], b.var[k]])),
            ('each variable is kept once', z3.ForAll([k, l], z3.Implies(And(0 <= k, k < l, l < m), b.var[k] != b.var[l]),
                                                   patterns=[z3.MultiPattern(b.var[k], b.var[l])])),
            ('the meaning is the same', b.sum(m) == e.sum(pos))]

    def hints(L):
        old = L._pos(L.bi)
        a, b, e = Terms(L.ex.read(L.bi, TERMS)), Terms(L.val(TERMS)), Terms(L.eval_(TERMS))
        if kind(L) == 'combine':
            j = Refs(L.ex.read(L.bi, L.lv('cos'))).val[a.var[old]]
            return [MOVED.at(a.co, b.co, X, a.var, a.n, old, j), GONE.at(a.co, b.co, X, a.var, a.n, old),
                    SAME.at(b.co, b.co, X, X, b.var, a.var, a.n), SAME.at(b.co, a.co, X, X, b.var, a.var, a.n)]
        m = L.bi.store['$kept']
        return [SAME.at(b.co, a.co, X, X, b.var, a.var, m), sum_def(b.co, X, b.var, m + 1), sum_def(e.co, X, e.var, old + 1),
                zero_mul(e.co[old], X[e.var[old]])]

    def exit_hints(L):
        return []
    return Contract('simplify', lambda c: [], post, modifies=lambda c: [c.apath(0), c.apath(1)],
                    loops=[LoopSpec(inv, hints=hints, exit_hints=exit_hints)] * 2)


# ---- conditions: auxiliary variables

LE, GE, EQ, LT, GT = range(5)


def rel_holds(rel, s, rhs):
    return And(z3.Implies(rel == LE, s <= rhs), z3.Implies(rel == GE, s >= rhs), z3.Implies(rel == EQ, s == rhs),
               z3.Implies(rel == LT, s < rhs), z3.Implies(rel == GT, s > rhs), LE <= rel, rel <= GT)


class Ineqs:
    """A vector of constraints."""

    def __init__(self, v):
        v = v.t if isinstance(v, View) else v
        f = v.elem.f
        self.n, self.rhs, self.rel, self.lit = v.len, f['rhs'], f['rel'], f['lit']
        self.len, self.co, self.var = f['lhs'].len, f['lhs'].elem.f['co'], f['lhs'].elem.f['var']

    def sum(self, q, n=None):
        return SUM(self.co[q], X, self.var[q], self.len[q] if n is None else n)

    def holds(self, q):
        return z3.Implies(TRUE[self.lit[q]], rel_holds(self.rel[q], self.sum(q), self.rhs[q]))

    def simple(self, q):
        return simple(self.len[q], self.co[q], self.var[q])

    def arrays(self):
        return [self.rhs, self.rel, self.lit, self.len, self.co, self.var]

    @staticmethod
    def any(name):
        q = object.__new__(Ineqs)
        q.rhs, q.rel, q.lit, q.len, q.co, q.var = (z3.Const(name + f, HOLD.domain(i)) for i, f in enumerate(
            ('rhs', 'rel', 'lit', 'len', 'co', 'var')))
        return q

    def hold(self, a, b=None):
        """All constraints from number a on (to number b) hold."""
        return HOLDS.of(self, a, b)

    def hold_def(self, a, b=None):
        return HOLDS.definition(self, a, b)

    def normal(self, a, b=None):
        """All constraints from number a on (to number b) are in normal form."""
        return NORMAL.of(self, a, b)

    def kept(self, o, n):
        """The first n constraints are those of o."""
        q = z3.Int('q!kept')
        return z3.ForAll([q], z3.Implies(And(0 <= q, q < n), And([
            getattr(self, f)[q] == getattr(o, f)[q] for f in ('rhs', 'rel', 'lit', 'len', 'co', 'var')])), patterns=[self.lit[q], o.lit[q]])


HOLD = z3.Function('constraints_hold', ROW, IDXS, IDXS, IDXS, z3.ArraySort(I, ROW), z3.ArraySort(I, IDXS), I, I, B)
NORM = z3.Function('constraints_normal', *[HOLD.domain(i) for i in range(8)], B)


def simple(n, co, var):
    """Each variable occurs once, has a coefficient and is no constant."""
    k, l = z3.Ints('k!s l!s')
    rng = And(0 <= k, k < n)
    return And(z3.ForAll([k], z3.Implies(rng, co[k] != 0), patterns=[co[k]]),
               z3.ForAll([k], z3.Implies(rng, var[k] != ZEROSYM), patterns=[var[k]]),
               z3.ForAll([k, l], z3.Implies(And(0 <= k, k < l, l < n), var[k] != var[l]), patterns=[z3.MultiPattern(var[k], var[l])]))


class Each:
    """A property of all constraints in a range."""

    def __init__(self, f, one, name):
        self.f, self.one = f, one
        p, q = Ineqs.any('q1'), Ineqs.any('q2')
        a, b, c = z3.Ints('a1 b1 c1')
        self.kept = Lemma('constraints kept %s as before' % name, p.arrays() + q.arrays() + [a, b], [a >= 0, p.kept(q, b)],
                          self.of(p, a, b) == self.of(q, a, b), axioms=[self.definition(p, a, b), self.definition(q, a, b)])
        self.split = Lemma('constraints of two ranges %s' % name, p.arrays() + [a, b, c], [a <= b, b <= c],
                           self.of(p, a, c) == And(self.of(p, a, b), self.of(p, b, c)),
                           axioms=[self.definition(p, a, b), self.definition(p, a, c), self.definition(p, b, c)])
        self.single = Lemma('a single constraint: %s' % name, p.arrays() + [a], [], self.of(p, a, a + 1) == one(p, a),
                            axioms=[self.definition(p, a, a + 1)])

    def of(self, q, a, b=None):
        return self.f(*q.arrays(), a, q.n if b is None else b)

    def definition(self, q, a, b=None):
        k = z3.Int('q!each')
        return self.of(q, a, b) == z3.ForAll([k], z3.Implies(And(a <= k, k < (q.n if b is None else b)), self.one(q, k)),
                                             patterns=[q.lit[k]])

    def more(self, q, o, a, b):
        """The constraints from number a on, given those of o and the ones from number b on."""
        return [self.kept.at(*q.arrays(), *o.arrays(), a, b), self.split.at(*q.arrays(), a, b, q.n)] + [
            x for d in range(3) for p in [z3.simplify(b + d)] for x in (self.single.at(*q.arrays(), p), self.split.at(
                *q.arrays(), b, p, z3.simplify(p + 1)))]

    def lemmas(self):
        return [self.kept, self.split, self.single]


HOLDS = Each(HOLD, Ineqs.holds, 'hold')
NORMAL = Each(NORM, Ineqs.simple, 'are normal')
PAIRS = z3.ArraySort(I, z3.ArraySort(I, B))
NEWOK = z3.Function('new_auxiliaries_ok', PAIRS, z3.ArraySort(I, IDXS), PAIRS, B)


class Aux:
    """The auxiliary variables for conditional terms."""

    def __init__(self, v):
        v = v.t if isinstance(v, View) else v
        self.has, self.val, self.size = v.f['has'], v.f['val'], v.f['size']

    def all(self, f, c=True):
        v, l = z3.Ints('v!aux l!aux')
        return z3.ForAll([v, l], z3.Implies(And(self.has[v][l], c(v, l) if callable(c) else True), f(v, l)), patterns=[self.has[v][l]])

    def value(self, v, l):
        return X[self.val[v][l]] == z3.If(TRUE[l], X[v], z3.RealVal(0))

    def ok(self):
        """The auxiliary variables have the values they stand for."""
        return self.all(self.value)

    def new_ok(self, o):
        return NEWOK(self.has, self.val, o.has)

    def new_ok_def(self, o):
        return self.new_ok(o) == self.all(self.value, lambda v, l: Not(o.has[v][l]))

    def new_ok_at(self, o, v, l):
        return z3.Implies(And(self.new_ok(o), self.has[v][l], Not(o.has[v][l])), self.value(v, l))

    def extends(self, o):
        v, l = z3.Ints('v!aux l!aux')
        return And(o.size <= self.size, z3.ForAll([v, l], z3.Implies(o.has[v][l], And(
            self.has[v][l], self.val[v][l] == o.val[v][l])), patterns=[o.has[v][l], self.has[v][l]]))

    def inv(self):
        v, l, w, m = z3.Ints('v!aux l!aux w!aux m!aux')
        a = self.val[v][l]
        return [('auxiliary variables are numbered', And(self.size >= 0, self.all(lambda v, l: And(
                    KIND(self.val[v][l]) == S_NUMBER, 1 <= SNUM(self.val[v][l]), SNUM(self.val[v][l]) <= self.size)))),
                ('they stand for variables', self.all(lambda v, l: is_var(v))),
                ('each has its own', z3.ForAll([v, l, w, m], z3.Implies(And(
                    self.has[v][l], self.has[w][m], self.val[w][m] == a), And(v == w, l == m)),
                    patterns=[z3.MultiPattern(self.has[v][l], self.has[w][m])]))]


ELSUM = z3.Function('elements_sum', ASZ, I, R)


def el_on(e):
    return Or(CONDN(e) == 0, TRUE[MAPLIT(CONDID(e))])


def elsum_def(els, n):
    e = els[n - 1]
    return ELSUM(els, n) == z3.If(n <= 0, z3.RealVal(0), ELSUM(els, n - 1) + z3.If(el_on(e), VALUE(TUP(e)[0]), z3.RealVal(0)))


def linear_elements(els, n):
    k = z3.Int('k!el')
    return z3.ForAll([k], z3.Implies(And(0 <= k, k < n), And(TUPN(els[k]) == 1, LINEAR(TUP(els[k])[0]))), patterns=[els[k]])


TAIL = Induction(
    'terms of value zero behind a position', (_r, _x, _d, _s, _n),
    [0 <= _s, _s <= _n, z3.ForAll([_l], z3.Implies(And(_s <= _l, _l < _n), _x[_d[_l]] == 0), patterns=[_d[_l]])],
    lambda m: z3.Implies(m >= _s, SUM(_r, _x, _d, m) == SUM(_r, _x, _d, _s)), None, lambda m: [sum_def(_r, _x, _d, m)], _n)


def new_constraints(q, a, b):
    """Instances for constraints a to b - 1, which have up to two terms."""
    r = []
    for d in range(b):
        p = z3.simplify(a + d)
        r += [sum_def(q.co[p], X, q.var[p], z3.IntVal(m)) for m in range(3)]
        for k in range(2):
            r += [ONE.at(q.co[p][k], X[q.var[p][k]]), DIFF1.at(q.co[p][k], X[q.var[p][k]])]
    return r


def sum_elems_contract():
    def start(c):
        return Aux(c.arg(1)), Ineqs(c.arg(2)), c.arg(3).t

    def common(m0, q0, m, q):
        return [('constraints found before stay', And(q.n >= q0.n, q.kept(q0, q0.n)))] + m.inv() + [
            ('auxiliary variables stay', m.extends(m0)),
            ('the new constraints define the new auxiliary variables', q.hold(q0.n) == m.new_ok(m0)),
            ('the new constraints are in normal form', q.normal(q0.n))]

    def post(c):
        m0, q0, els = start(c)
        m, q, r = Aux(c.narg(1)), Ineqs(c.narg(2)), Terms(c.rval)
        c.post_st.store['$elems'] = c.ex.read(c.post_st, c.apath(2))
        return common(m0, q0, m, q) + [
            ('only sums with a meaning are accepted', linear_defined(els.elem, els.len)),
            ('the value of the elements', z3.Implies(m.ok(), r.sum() == ELSUM(els.elem, els.len)))]

    def cuts(L, m0, q0, m, q):
        """What the constraints added in this iteration say."""
        mb, qb = Aux(L.ex.read(L.bi, L.f.apath(1))), Ineqs(L.ex.read(L.bi, L.f.apath(2)))
        v, l = Terms(L.ex.read(L.bi, L.lv('lhs'))).var[L._pos(L.bi)], MAPLIT(CONDID(L.v('elem')))
        d = z3.simplify(q.n - qb.n)
        if not z3.is_int_value(d):
            return []
        ps = [z3.simplify(qb.n + k) for k in range(d.as_long())]
        new = And([q.holds(p) for p in ps])
        ds = HOLDS.more(q, qb, q0.n, qb.n)
        es = [m.new_ok_def(m0), mb.new_ok_def(m0), m.new_ok_at(m0, v, l), mb.new_ok_at(m0, v, l)]
        r = []
        if ps:
            r += [('[cut] the constraints before stay', And(q.n >= qb.n, q.kept(qb, qb.n))),
                  ('[cut] the new constraints hold if those before and the added ones do', q.hold(q0.n) == And(qb.hold(q0.n), new), ds),
                  ('[cut] the new auxiliary variables are those before and the added one',
                   m.new_ok(m0) == And(mb.new_ok(m0), m.value(v, l)), es),
                  ('[cut] the added constraints define the added variable', new == m.value(v, l)),
                  ('[cut] the added constraints are in normal form', And([q.simple(p) for p in ps])),
                  ('[cut] all constraints are in normal form', q.normal(q0.n), NORMAL.more(q, qb, q0.n, qb.n))]
        return r

    def inv(L):
        m0, q0, els = start(L.f)
        m, q = Aux(L.val(L.f.apath(1))), Ineqs(L.val(L.f.apath(2)))
        r = Terms(L.v('lhs'))
        base = common(m0, q0, m, q)
        if L.bi is not None and has_local(L, 'elem'):
            base = cuts(L, m0, q0, m, q) + base
        if not has_local(L, 'elem'):
            return base + [('only sums with a meaning are accepted', linear_defined(els.elem, L.pos)),
                           ('the value of the elements', z3.Implies(m.ok(), r.sum() == ELSUM(els.elem, L.pos)))]
        e, el, lit = Terms(L.ev('lhs')), L.v('elem'), MAPLIT(CONDID(L.v('elem')))
        n, k = L.entry_pos, z3.Int('k!cond')
        me = Aux(L.eval_(L.f.apath(1)))
        return base + [
            ('position', And(n <= L.pos, L.pos <= e.n)),
            ('auxiliary variables stay in the element', m.extends(me)),
            ('coefficients stay', And(r.n == e.n, z3.ForAll([k], z3.Implies(And(0 <= k, k < e.n), r.co[k] == e.co[k]), patterns=[r.co[k]]))),
            ('the other terms stay', z3.ForAll([k], z3.Implies(And(0 <= k, k < e.n, Or(k < n, k >= L.pos)), r.var[k] == e.var[k]), patterns=[r.var[k]])),
            ('the terms of the element get auxiliary variables', z3.ForAll([k], z3.Implies(And(n <= k, k < L.pos), And(
                m.has[e.var[k]][lit], r.var[k] == m.val[e.var[k]][lit])), patterns=[r.var[k]]))]

    def hints(L):
        q, qb = Ineqs(L.val(L.f.apath(2))), Ineqs(L.ex.read(L.bi, L.f.apath(2)))
        if not has_local(L, 'elem'):
            els = start(L.f)[2]
            return [elsum_def(els.elem, z3.simplify(L._pos(L.bi) + 1))]
        m, v, l = Aux(L.val(L.f.apath(1))), Terms(L.ex.read(L.bi, L.lv('lhs'))).var[L._pos(L.bi)], MAPLIT(CONDID(L.v('elem')))
        return new_constraints(q, qb.n, 2) + mark(m.val[v][l], KIND(v))

    def exit_hints(L):
        if not has_local(L, 'elem'):
            return []
        e, r, n = Terms(L.ev('lhs')), Terms(L.v('lhs')), L.entry_pos
        return [SAME.at(r.co, e.co, X, X, r.var, e.var, e.n), SAME.at(r.co, e.co, X, X, r.var, e.var, n),
                TAIL.at(r.co, X, r.var, n, r.n)]

    def entry_hints(L):
        if has_local(L, 'elem'):
            return []
        m0, q0, els = start(L.f)
        return [elsum_def(els.elem, z3.IntVal(0)), q0.hold_def(q0.n), m0.new_ok_def(m0), NORMAL.definition(q0, q0.n)]
    return Contract('parse_sum_elems', lambda c: Aux(c.arg(1)).inv(), post,
                    modifies=lambda c: [c.apath(1), c.apath(2)],
                    throws=lambda c: Or(TOOMANY, Not(linear_elements(c.arg(3).t.elem, c.arg(3).t.len))),
                    loops=[LoopSpec(inv, hints=hints, exit_hints=exit_hints, entry_hints=entry_hints)] * 2)


def linear_defined(els, n):
    k = z3.Int('k!el')
    return z3.ForAll([k], z3.Implies(And(0 <= k, k < n), And(TUPN(els[k]) == 1, DEFINED(TUP(els[k])[0]))), patterns=[els[k]])


def zero_mul(a, b):
    return z3.Implies(a == 0, a * b == 0)


# ---- theory atoms

MEANS, LINATOM = z3.Function('atom_holds', I, B), z3.Function('atom_linear', I, B)
OBJ = z3.Function('objective_sum', ASZ, I, R)
ALL = z3.Function('atoms_hold', ASZ, I, B)
APPEND = Induction(
    'appending a sum', (_r, _r2, _x, _d, _d2, _q3, _d3, _n, _s),
    [_s >= 0, z3.ForAll([_l], z3.Implies(And(0 <= _l, _l < _s), And(_r2[_l] == _r[_l], _d2[_l] == _d[_l])), patterns=[_r2[_l], _d2[_l]]),
     z3.ForAll([_l], z3.Implies(And(_s <= _l, _l < _s + _n), And(_r2[_l] == _q3[_l - _s], _d2[_l] == _d3[_l - _s])),
               patterns=[_r2[_l], _d2[_l]])],
    lambda m: SUM(_r2, _x, _d2, _s + m) == SUM(_r, _x, _d, _s) + SUM(_q3, _x, _d3, m), None,
    lambda m: [sum_def(_q3, _x, _d3, m), sum_def(_r2, _x, _d2, _s + m), SAME.at(_r2, _r, _x, _x, _d2, _d, _s)], _n)


def atom_def(m, a):
    """What an atom means: a condition on the assignment, a part of the objective, or nothing."""
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    t, g, e = ATERM(a), GTERM(a), ELS(a)[0]
    d = TUP(e)[0]
    is_ = lambda s: is_op(m, t, s, 0)
    single = And(HASG(a), ELN(a) == 1, TUPN(e) == 1, CONDN(e) == 0)
    lit = MAPLIT(ALIT(a))
    num = lambda t: And(EOK(T, t), ETAG(T, t) == 0)
    dom = And(single, is_op(m, d, '..', 2), EOK(Fa, g), ETAG(Fa, g) == 1, num(arg(d, 0)), num(arg(d, 1)))
    diff = And(single, is_op(m, d, '-', 2), EOK(T, arg(d, 0)), EOK(T, arg(d, 1)), known_relation(m, GOP(a)))
    x = X[ESYM(Fa, g)]
    none = And([Not(is_(s)) for s in ('dom', 'diff', 'sum', 'minimize', 'maximize')])

    def rel(l):
        r = VALUE(g)
        f = {'<=': l <= r, '>=': l >= r, '=': l == r, '>': l > r, '<': l < r}
        return z3.Implies(TRUE[lit], And([z3.Implies(eq(m, GOP(a), s), c) for s, c in f.items()]))

    def form(c, ok, lin, means):
        return z3.Implies(c, And(LINATOM(a) == lin, ATOMOK(a) == ok, MEANS(a) == means))
    els = ELS(a)
    sums, lins = linear_defined(els, ELN(a)), linear_elements(els, ELN(a))
    rl = And(HASG(a), known_relation(m, GOP(a)))
    return [form(is_('dom'), dom, dom, z3.Implies(TRUE[lit], And(ENUM(T, arg(d, 0)) <= x, x <= ENUM(T, arg(d, 1))))),
            form(is_('diff'), And(diff, DEFINED(g)), And(diff, LINEAR(g)), rel(eval_value(arg(d, 0)) - eval_value(arg(d, 1)))),
            form(is_('sum'), And(rl, sums, DEFINED(g)), And(rl, lins, LINEAR(g)), rel(ELSUM(els, ELN(a)))),
            form(objective_atom(m, a), sums, lins, T),
            form(none, T, T, T)]


ATOMOK = z3.Function('atom_defined', I, B)


def objective_atom(m, a):
    return Or(is_op(m, ATERM(a), 'minimize', 0), is_op(m, ATERM(a), 'maximize', 0))


def obj_def(m, as_, n):
    a = as_[n - 1]
    s = ELSUM(ELS(a), ELN(a))
    return OBJ(as_, n) == z3.If(n <= 0, z3.RealVal(0), OBJ(as_, n - 1) + z3.If(
        is_op(m, ATERM(a), 'minimize', 0), -s, z3.If(is_op(m, ATERM(a), 'maximize', 0), s, z3.RealVal(0))))


def all_def(as_, n):
    return ALL(as_, n) == z3.If(n <= 0, z3.BoolVal(True), And(ALL(as_, n - 1), MEANS(as_[n - 1])))


def each_atom(f, as_, n):
    k = z3.Int('k!atom')
    return z3.ForAll([k], z3.Implies(And(0 <= k, k < n), f(as_[k])), patterns=[as_[k]])


def theory_contract(name='parse_theory'):
    def start(c):
        return Aux(c.arg(2)), Ineqs(c.arg(3)), Terms(c.arg(4)), c.arg(0).t

    def common(m0, q0, m, q):
        return [('constraints found before stay', And(q.n >= q0.n, q.kept(q0, q0.n)))] + m.inv() + [
            ('auxiliary variables stay', m.extends(m0)),
            ('the new constraints are in normal form', q.normal(q0.n))]

    def post(c):
        m0, q0, o0, as_ = start(c)
        m, q, o = Aux(c.narg(2)), Ineqs(c.narg(3)), Terms(c.narg(4))
        k = z3.Int('k!obj')
        return common(m0, q0, m, q) + [
            ('only atoms with a meaning are accepted', each_atom(ATOMOK, as_.elem, as_.len)),
            ('the constraints mean what the atoms mean', z3.Implies(
                m0.ok(), q.hold(q0.n) == And(m.new_ok(m0), ALL(as_.elem, as_.len)))),
            ('the objective is the one stated', z3.Implies(m.ok(), o.sum() == o0.sum() + OBJ(as_.elem, as_.len))),
            ('the objective is in normal form', simple(o.n, o.co, o.var))]

    def negating(L):
        return not (has_local(L, 'cos') and L.lv('cos') is not None and not has_local(L, 'lhs'))

    def inv(L):
        m0, q0, o0, as_ = start(L.f)
        cm = mem(L.f.pre_st)
        if has_local(L, 'lhs'):
            e, b, pos = Terms(L.ev('lhs')), Terms(L.v('lhs')), L.pos
            s, k = L.entry_pos, z3.Int('k!neg')
            return [('position', And(s <= pos, pos <= b.n, b.n == e.n)),
                    ('the coefficients passed are negated', z3.ForAll([k], z3.Implies(And(0 <= k, k < b.n), And(
                        b.var[k] == e.var[k], b.co[k] == z3.If(And(s <= k, k < pos), -e.co[k], e.co[k]))),
                        patterns=[b.co[k], b.var[k]]))]
        m, q, o = Aux(L.val(L.f.apath(2))), Ineqs(L.val(L.f.apath(3))), Terms(L.val(L.f.apath(4)))
        r = cuts(L, m0, q0, m, q) if L.bi is not None else []
        return r + common(m0, q0, m, q) + [
            ('only atoms with a meaning are accepted', each_atom(ATOMOK, as_.elem, L.pos)),
            ('the constraints mean what the atoms mean', z3.Implies(
                m0.ok(), q.hold(q0.n) == And(m.new_ok(m0), ALL(as_.elem, L.pos)))),
            ('the objective is the one stated', z3.Implies(m.ok(), o.sum() == o0.sum() + OBJ(as_.elem, L.pos)), joined(L, o)),
            ('without objective atoms, the objective is the one before', z3.Implies(
                each_atom(lambda a: Not(objective_atom(cm, a)), as_.elem, L.pos), And(o.n == o0.n)))]

    def joined(L, o):
        """The terms of the elements are appended to the objective."""
        if L.bi is None or '$appended' not in L.st.store:
            return []
        b, a = Terms(L.ex.read(L.bi, L.f.apath(4))), Terms(L.st.store['$appended'])
        return [APPEND.at(b.co, o.co, X, b.var, o.var, a.co, a.var, a.n, b.n)]

    def cuts(L, m0, q0, m, q):
        """What the constraints added in this iteration say."""
        as_, pos = start(L.f)[3], L._pos(L.bi)
        mb, qb = Aux(L.ex.read(L.bi, L.f.apath(2))), Ineqs(L.ex.read(L.bi, L.f.apath(3)))
        e = L.st.store.get('$elems')
        qe = Ineqs(e) if e is not None else qb
        d = z3.simplify(q.n - qe.n)
        if not z3.is_int_value(d) or not 0 <= d.as_long() <= 2:
            return []
        ps = [z3.simplify(qe.n + k) for k in range(d.as_long())]
        new = And([q.holds(p) for p in ps])
        r = []
        if ps or e is not None:
            r += [('[cut] the constraints before stay', And(q.n >= qb.n, q.kept(qb, qb.n), q.kept(qe, qe.n)))]
        cs = new_constraints(q, qe.n, len(ps))
        if ps and e is None:
            r += [('[cut] the new constraints hold if those before and the added ones do', q.hold(q0.n) == And(qb.hold(q0.n), new),
                   HOLDS.more(q, qb, q0.n, qb.n)),
                  ('[cut] the added constraints are in normal form', And([q.simple(p) for p in ps])),
                  ('[cut] all constraints are in normal form', q.normal(q0.n), NORMAL.more(q, qb, q0.n, qb.n)),
                  ('[cut] the added constraints mean what the atom means', new == MEANS(as_.elem[pos]), cs)]
        if e is not None:
            r += [('[cut] the constraints of the elements stay', qe.n >= qb.n)]
            r += [('[cut] the new constraints hold if those before and the added ones do',
                   q.hold(q0.n) == And(qb.hold(q0.n), qe.hold(qb.n), new),
                   HOLDS.more(q, qe, q0.n, qe.n) + HOLDS.more(qe, qb, q0.n, qb.n)),
                  ('[cut] the added constraints are in normal form', And([q.simple(p) for p in ps])),
                  ('[cut] all constraints are in normal form', q.normal(q0.n),
                   NORMAL.more(q, qe, q0.n, qe.n) + NORMAL.more(qe, qb, q0.n, qb.n)),
                  ('[cut] the new auxiliary variables are those before and the added ones',
                   m.new_ok(m0) == And(mb.new_ok(m0), m.new_ok(mb)), [m.new_ok_def(m0), mb.new_ok_def(m0), m.new_ok_def(mb)]),
                  ('[cut] the auxiliary variables are those at the start and the new ones', m.ok() == And(m0.ok(), m.new_ok(m0)),
                   [m.new_ok_def(m0)]),
                  ('[cut] auxiliary variables before', z3.Implies(m.ok(), mb.ok())),
                  ('[cut] the added constraint means what the atom means', z3.Implies(m.ok(), new == MEANS(as_.elem[pos])), cs)]
        return r

    def hints(L):
        if has_local(L, 'lhs'):
            return []
        m0, q0, o0, as_ = start(L.f)
        n = z3.simplify(L._pos(L.bi) + 1)
        return [all_def(as_.elem, n), obj_def(mem(L.f.pre_st), as_.elem, n)]

    def head_hints(L):
        if has_local(L, 'lhs'):
            return []
        return atom_def(mem(L.f.pre_st), start(L.f)[3].elem[L.pos])

    def exit_hints(L):
        if not has_local(L, 'lhs'):
            return []
        e, b = Terms(L.ev('lhs')), Terms(L.v('lhs'))
        return [NEG.at(e.co, b.co, X, e.var, b.var, L.entry_pos, b.n)]

    def entry_hints(L):
        if has_local(L, 'lhs'):
            return []
        m0, q0, o0, as_ = start(L.f)
        z = z3.IntVal(0)
        return [all_def(as_.elem, z), obj_def(mem(L.f.pre_st), as_.elem, z), q0.hold_def(q0.n), m0.new_ok_def(m0), NORMAL.definition(q0, q0.n)]

    def throws(c):
        as_, cm = c.arg(0).t, mem(c.pre_st)
        return Or(TOOMANY, Not(each_atom(LINATOM, as_.elem, as_.len)),
                  Not(each_atom(lambda a: Not(objective_atom(cm, a)), as_.elem, as_.len)), Terms(c.arg(4)).n > 0)
    return Contract(name, lambda c: Aux(c.arg(2)).inv(), post,
                    modifies=lambda c: [c.apath(2), c.apath(3), c.apath(4)], throws=throws,
                    loops=[LoopSpec(inv, hints=hints, exit_hints=exit_hints, entry_hints=entry_hints, head_hints=head_hints)] * 4)


def lemmas():
    return HOLDS.lemmas() + NORMAL.lemmas() + APPEND.parts() + TAIL.parts() + MOVED.parts() + GONE.parts() + NEG.parts() + SAME.parts() + [ONE, DIFF1, LEFT, RIGHT, DIVS]


def contracts(p):
    T = z3.BoolVal(True)
    bF, bT = z3.BoolVal(False), z3.BoolVal(True)
    r = {}

    def one(name, sig, c):
        fs = [f for f in p.byname.get(name, []) if sig is None or len(f.ps) == sig]
        if len(fs) != 1:
            raise Unsupported('%d functions %s' % (len(fs), name))
        r[fs[0].id] = c
        c.fn = fs[0]
        return c
    one('evaluate', 2, evaluate_contract())
    one('parse_sum_elem', 2, sum_elem_contract())
    one('parse_diff_elem', 1, diff_elem_contract())
    one('evaluate_cmp', 1, cmp_contract())
    one('simplify', 2, simplify_contract())
    one('parse_sum_elems', 4, sum_elems_contract())
    one('parse_theory', 5, theory_contract())
    one('evaluate_theory', 5, theory_contract('evaluate_theory'))
    one('as_num', 1, Contract('as_num', lambda c: [], lambda c: [
        ('number in a string', c.rval.has == NUMERIC(val(c._args[0]))),
        ('its value', z3.Implies(c.rval.has, c.rval.val == DECIMAL(val(c._args[0]))))], trusted=True))
    one('unquote', 1, Contract('unquote', lambda c: [], lambda c: [
        ('text', c.rval == UNQUOTED(c.arg(0).ib, c.arg(0).ib + c.arg(0).n))], trusted=True))
    return r


def generate(gen):
    p = gen.program('parsing.cc')
    rels = [vs['cs'] for n, vs in p.enums.items() if n.split('::')[-1] == 'Relation']
    if [{c['n']: int(c['v']) for c in cs} for cs in rels] != [RELNO]:
        raise Unsupported('numbering of Relation')
    cs = contracts(p)

    def ex_for():
        ex = parse_exec(p)
        for i, c in cs.items():
            ex.cfg.contracts[i] = c
        return ex
    def start(ex, st, args):
        m = mem(st)
        st.assume(symbol_axioms() + [X[ZEROSYM] == 1, no_terms()])
        if c.name == 'simplify':
            st.store['@Terms'] = ex.read(st, args[1])
            return [args[0], TERMS]
        for a, (_, _, ty) in zip(args, c.fn.ps):
            if ty.strip().n == 'Clingo::TheoryTerm':
                t = ex.rd(st, a)
                st.assume([ARITY(t) >= 0] + str_facts(m, NAME(t)))
                if c.name == 'evaluate':
                    st.assume(eval_def(m, ex.rd(st, args[0]), t))
                elif c.name == 'parse_sum_elem':
                    st.assume(value_def(m, t))
    for c in cs.values():
        if not c.trusted:
            gen.verify(ex_for(), c.fn, c, start)
    gen.prove(*lemmas())


def harness(scratch, seed, tier, failed, incomplete):
    return H.end_to_end(scratch, 'C11', seed, tier)
