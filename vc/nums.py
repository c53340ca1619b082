"""The number layer: one specification table for all operators.

The table is used twice: with the concrete representation (FLINT structs) it
gives the contracts that are proved for the functions in number.hh and
number_flint.hh (property C01), with the abstract representations it gives the
contracts every other module assumes at calls of these functions.
"""
import z3
from .core import *
from .stdmodels import StdModels

NUM = ('long', 'Integer', 'Rational', 'RationalQ')
VAL = z3.Function('val', I, I, R)
CANON = z3.Function('canon', I, I, B)
GCD = z3.Function('gcd', I, I, I)
DVD = z3.Function('divides', I, I, B)
STRI, STRIOK = z3.Function('str_int', I, I, I), z3.Function('str_int_ok', I, I, B)
STRQ, STRQOK = z3.Function('str_rat', I, I, R), z3.Function('str_rat_ok', I, I, B)
QNUM, QDEN = z3.Function('numerator', R, I), z3.Function('denominator', R, I)
RAW = z3.Function('raw_word', I, I)

CMP = {'operator<': lambda s: s < 0, 'operator<=': lambda s: s <= 0, 'operator>': lambda s: s > 0,
       'operator>=': lambda s: s >= 0}


def base(ty):
    """Number type of a parameter ('long', 'Integer', ...), or None."""
    t = ty.strip()
    if t.k == 'rec' and t.n in NUM:
        return t.n
    if t.k == 'int' and t.d['s']:
        return 'long'
    return None


def pad(a, b):
    n = max(len(a), len(b))
    z = [z3.RealVal(0)]
    return a + z * (n - len(a)), b + z * (n - len(b))


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


class Concrete:
    """The FLINT representation."""

    def int(self, v):
        return v.num_ if isinstance(v, View) else v

    def comps(self, t, v):
        if t == 'long':
            return [real(v)]
        if t == 'Integer':
            return [real(v.num_)]
        if t == 'Rational':
            return [VAL(v.num_.num.num_, v.num_.den.num_)]
        return self.comps('Rational', v.c_) + self.comps('Rational', v.k_)

    def wf(self, t, v):
        if t == 'Rational':
            return [CANON(v.num_.num.num_, v.num_.den.num_)]
        if t == 'RationalQ':
            return self.wf('Rational', v.c_) + self.wf('Rational', v.k_)
        return []

    def axioms(self):
        n, d, a, b = z3.Ints('n d a b')
        return [
            z3.ForAll([n, d], z3.Implies(CANON(n, d), d > 0), patterns=[CANON(n, d)]),
            z3.ForAll([n, d], z3.Implies(d != 0, VAL(n, d) * z3.ToReal(d) == z3.ToReal(n)), patterns=[VAL(n, d)]),
            z3.ForAll([n], z3.And(CANON(n, 1), VAL(n, 1) == z3.ToReal(n)), patterns=[VAL(n, 1)]),
            z3.ForAll([n, d, a, b], z3.Implies(z3.And(CANON(n, d), CANON(a, b), VAL(n, d) == VAL(a, b)),
                                               z3.And(n == a, d == b)),
                      patterns=[z3.MultiPattern(CANON(n, d), CANON(a, b))]),
        ] + gcd_axioms()


def gcd_axioms():
    a, b = z3.Ints('a b')
    return [
        z3.ForAll([a, b], z3.And(GCD(a, b) >= 0, (GCD(a, b) == 0) == z3.And(a == 0, b == 0),
                                 DVD(GCD(a, b), a), DVD(GCD(a, b), b)), patterns=[GCD(a, b)]),
        z3.ForAll([a, b], z3.Implies(DVD(a, b), z3.Or(a != 0, b == 0)), patterns=[DVD(a, b)]),
    ]


class Abstract:
    """Integer as Int, Rational and RationalQ as Real."""

    def int(self, v):
        return v

    def comps(self, t, v):
        return [real(v)]

    def wf(self, t, v):
        return []


class AbstractPair(Abstract):
    """Integer as Int, Rational as Real, RationalQ as struct of two Reals."""

    def comps(self, t, v):
        if t == 'RationalQ':
            return [v.c_, v.k_]
        return [real(v)]


def lexsign(a, b):
    """(formula a<b, formula a==b)"""
    a, b = pad(a, b)
    lt = z3.BoolVal(False)
    eq = z3.BoolVal(True)
    for x, y in reversed(list(zip(a, b))):
        lt = z3.Or(x < y, z3.And(x == y, lt))
    for x, y in zip(a, b):
        eq = z3.And(eq, x == y)
    return z3.simplify(lt), z3.simplify(eq)


def arith(op, ta, a, tb, b):
    """Componentwise result of a op b."""
    if op in '+-':
        a, b = pad(a, b)
        return [(x + y) if op == '+' else (x - y) for x, y in zip(a, b)]
    if op == '*':
        return [x * b[0] for x in a]
    if op == '/':
        return [x / b[0] for x in a]
    raise KeyError(op)


def eqc(a, b):
    a, b = pad(a, b)
    return And([x == y for x, y in zip(a, b)])


def divc(q, a, b):
    """q == a / b for b != 0"""
    q, a = pad(q, a)
    return And([x * b[0] == y for x, y in zip(q, a)])


RES = {'+': '+', '-': '-', '*': '*', '/': '/'}


def spec(f, rep, lib=False):
    """Contract of the number function f, or None if it is none."""
    n = f.s
    ts = [base(t) for _, _, t in f.ps]
    mods_rv = lambda c: [c.apath(i) for i, (_, _, t) in enumerate(f.ps) if t.isref and (t.d.get('rv') or not t.to.const)
                         and isinstance(c.apath(i), Path)]
    rv_free = not lib
    wfpre = lambda c: [('operand %d is a well formed number' % (i + 1), And(rep.wf(t, c.arg(i))))
                       for i, t in enumerate(ts) if t and rep.wf(t, c.arg(i))]

    def wfpost(c):
        # operands that may change stay well formed
        r = []
        for i, t in enumerate(ts):
            pt = f.ps[i][2]
            if t and pt.isref and not pt.to.const and rep.wf(t, c.narg(i)):
                r.append(('operand %d stays a well formed number' % (i + 1), And(rep.wf(t, c.narg(i)))))
        return r
    C = Contract
    name = f.sig()
    if f.rec is None and n.startswith('operator') and len(ts) == 2 and all(ts) and ts[0] != 'long':
        op = n[8:]
        A = lambda c: rep.comps(ts[0], c.arg(0))
        Bv = lambda c: rep.comps(ts[1], c.arg(1))
        nz = lambda c: [('divisor is not zero', Or([x != 0 for x in Bv(c)]))] if op in ('/', '/=') else []
        if op in RES:
            rt = base(f.ret)

            def post(c):
                got = rep.comps(rt, c.rval)
                ok = divc(got, A(c), Bv(c)) if op == '/' else eqc(got, arith(op, ts[0], A(c), ts[1], Bv(c)))
                return [('result is the exact value of a %s b' % op, ok)] + \
                    [('result is a well formed number', And(rep.wf(rt, c.rval)))] + wfpost(c)
            return C(name, pre=lambda c: wfpre(c) + nz(c), post=post, modifies=mods_rv)
        if op in ('+=', '-=', '*=', '/='):
            def post(c):
                got = rep.comps(ts[0], c.narg(0))
                o = op[0]
                ok = divc(got, A(c), Bv(c)) if o == '/' else eqc(got, arith(o, ts[0], A(c), ts[1], Bv(c)))
                return [('first operand becomes the exact value of a %s b' % o, ok)] + wfpost(c)
            return C(name, pre=lambda c: wfpre(c) + nz(c), post=post, modifies=lambda c: [c.apath(0)],
                     result=lambda c: c.apath(0))
        if op in ('<', '<=', '>', '>=', '==', '!='):
            def post(c):
                lt, eq = lexsign(A(c), Bv(c))
                want = {'<': lt, '<=': z3.Or(lt, eq), '>': Not(z3.Or(lt, eq)), '>=': Not(lt), '==': eq,
                        '!=': Not(eq)}[op]
                return [('comparison a %s b is exact' % op, c.rval == want)]
            return C(name, pre=wfpre, post=post)
        return None
    if f.rec is None and n == 'operator-' and len(ts) == 1 and ts[0] and ts[0] != 'long':
        return C(name, pre=wfpre, modifies=mods_rv, post=lambda c: [
            ('result is the negated value', eqc(rep.comps(ts[0], c.rval), [-x for x in rep.comps(ts[0], c.arg(0))])),
            ('result is a well formed number', And(rep.wf(ts[0], c.rval)))])
    if f.rec is None and n == 'compare' and len(ts) == 2 and all(ts) and ts[0] != 'long':
        def post(c):
            lt, eq = lexsign(rep.comps(ts[0], c.arg(0)), rep.comps(ts[1], c.arg(1)))
            return [('compare is negative exactly if a < b', (c.rval < 0) == lt),
                    ('compare is zero exactly if a = b', (c.rval == 0) == eq)]
        return C(name, pre=wfpre, post=post)
    if f.rec is None and n == 'gcd' and ts == ['Integer', 'Integer']:
        return C(name, post=lambda c: [('result is the greatest common divisor',
                                        rep.int(c.rval) == GCD(rep.int(c.arg(0)), rep.int(c.arg(1))))])
    if f.rec is None and n == 'gcd_div' and ts == ['Integer', 'Integer']:
        def post(c):
            a, b = rep.int(c.arg(0)), rep.int(c.arg(1))
            g, x, y = (rep.int(getattr(c.rval, '_%d' % i)) for i in range(3))
            return [('first component is the greatest common divisor', g == GCD(a, b)),
                    ('second component is a / gcd', x * g == a), ('third component is b / gcd', y * g == b)]
        return C(name, pre=lambda c: [('not both operands are zero',
                                       z3.Or(rep.int(c.arg(0)) != 0, rep.int(c.arg(1)) != 0))], post=post)
    if f.rec not in NUM:
        return None
    T = f.rec
    this = lambda c: rep.comps(T, c.this)
    nthis = lambda c: rep.comps(T, c.nthis)
    wthis = lambda c: [('the number is well formed', And(rep.wf(T, c.this)))]
    wnthis = lambda c: [('the number is well formed afterwards', And(rep.wf(T, c.nthis)))]
    mthis = lambda c: [c.tpath]
    if f.is_ctor:
        if not ts:
            return C(name, modifies=mthis, post=lambda c: [('a new number is zero', eqc(nthis(c), [z3.RealVal(0)]))] +
                     wnthis(c))
        if len(ts) == 1 and ts[0]:
            if f.ps[0][2].isref or ts[0] == 'long':
                return C(name, pre=wfpre, modifies=lambda c: mthis(c) + mods_rv(c), post=lambda c: [
                    ('the new number has the value of the argument', eqc(nthis(c), rep.comps(ts[0], c.arg(0))))] +
                    wnthis(c) + wfpost(c))
        if T == 'Rational' and ts == ['Integer', 'Integer']:
            return C(name, pre=lambda c: [('denominator is not zero', rep.int(c.arg(1)) != 0)], modifies=mthis,
                     post=lambda c: [('the new number is the quotient',
                                      divc(nthis(c), rep.comps('Integer', c.arg(0)), rep.comps('Integer', c.arg(1))))] +
                     wnthis(c))
        if T == 'RationalQ' and ts == ['Rational', 'Rational']:
            if isinstance(rep, Abstract) and not isinstance(rep, AbstractPair):
                return C(name, modifies=mthis, post=lambda c: [
                    ('the new number is c + k * epsilon', nthis(c)[0] == c.arg(0) + c.arg(1) * EPS)])
            return C(name, pre=wfpre, modifies=mthis, post=lambda c: [
                ('the new number is c + k * epsilon', eqc(nthis(c), rep.comps('Rational', c.arg(0)) +
                                                          rep.comps('Rational', c.arg(1))))] + wnthis(c))
        if T in ('Integer', 'Rational') and len(ts) == 2 and ts[1] == 'long' and ts[0] is None:
            fn, ok = (STRI, STRIOK) if T == 'Integer' else (STRQ, STRQOK)
            return C(name, modifies=mthis, throws=lambda c: Not(ok(c.arg(0), c.arg(1))), post=lambda c: [
                ('the text denotes a number', ok(c.arg(0), c.arg(1))),
                ('the new number is the one denoted by the text', eqc(nthis(c), [real(fn(c.arg(0), c.arg(1)))]))] +
                wnthis(c))
        return None
    if n == 'operator=' and len(ts) == 1 and ts[0] == T:
        return C(name, pre=lambda c: wthis(c) + wfpre(c), modifies=lambda c: mthis(c) + mods_rv(c), post=lambda c: [
            ('the number takes the value of the argument', eqc(nthis(c), rep.comps(T, c.arg(0))))] + wnthis(c) + wfpost(c)
            , result=lambda c: c.tpath)
    if n == 'swap' and ts == [T]:
        return C(name, modifies=lambda c: mthis(c) + [c.apath(0)], post=lambda c: [
            ('the number takes the value of the argument', eqc(nthis(c), rep.comps(T, c.arg(0)))),
            ('the argument takes the value of the number', eqc(rep.comps(T, c.narg(0)), this(c)))] +
            [('well formed numbers stay well formed', z3.Implies(And(rep.wf(T, c.this), rep.wf(T, c.arg(0))),
                                                                 And(rep.wf(T, c.nthis), rep.wf(T, c.narg(0)))))])
    if n == 'neg' and not ts:
        return C(name, pre=wthis, modifies=mthis, post=lambda c: [
            ('the number is negated', eqc(nthis(c), [-x for x in this(c)]))] + wnthis(c), result=lambda c: c.tpath)
    if T == 'Integer' and n == 'divide' and ts == ['Integer']:
        return C(name, pre=lambda c: [('divisor divides the number', z3.And(
            rep.int(c.arg(0)) != 0, DVD(rep.int(c.arg(0)), rep.int(c.this))))], modifies=mthis, post=lambda c: [
            ('the number becomes the exact quotient', rep.int(c.nthis) * rep.int(c.arg(0)) == rep.int(c.this))],
            result=lambda c: c.tpath)
    if T == 'Integer' and n == 'add_mul' and ts == ['Integer', 'Integer']:
        post = lambda c: [('the number becomes n + a * b', rep.int(c.nthis) == rep.int(c.this) + rep.int(c.arg(0)) *
                           rep.int(c.arg(1)))]
        if f.ret.isref:
            return C(name, modifies=mthis, post=post, result=lambda c: c.tpath)
        return C(name, modifies=mthis, post=lambda c: [
            ('result is n + a * b', rep.int(c.rval) == rep.int(c.this) + rep.int(c.arg(0)) * rep.int(c.arg(1)))])
    if T == 'Integer' and n == 'as_int':
        def post(c):
            v = rep.int(c.this)
            fits = z3.And(v >= -2 ** 31, v <= 2 ** 31 - 1)
            return [('a value is given exactly if the number fits', c.rval.has == fits),
                    ('the value is the number', z3.Implies(fits, c.rval.val == v))]
        return C(name, post=post)
    if T == 'Integer' and n == 'impl':
        return C(name, result=lambda c: F(c.tpath, 'num_') if isinstance(rep, Concrete) else c.tpath)
    if T == 'Rational' and n in ('num', 'den') and not ts:
        if isinstance(rep, Concrete):
            return C(name, result=lambda c: F(c.tpath, 'num_', n))
        if f.ret.isref and not f.ret.to.const:
            return None

        def res(c):
            v = (QNUM if n == 'num' else QDEN)(c.this)
            return c.ex.new_root(c.post_st, n, v)
        return C(name, result=res, post=lambda c: [
            ('fraction', z3.And(c.this * z3.ToReal(QDEN(c.this)) == z3.ToReal(QNUM(c.this)), QDEN(c.this) > 0))])
    if T == 'Rational' and n == 'canonicalize' and isinstance(rep, Concrete):
        def post(c):
            nu, de = c.this.num_.num.num_, c.this.num_.den.num_
            return [('the value is kept', nthis(c)[0] * z3.ToReal(de) == z3.ToReal(nu))] + wnthis(c)
        return C(name, pre=lambda c: [('denominator is not zero', c.this.num_.den.num_ != 0)], modifies=mthis, post=post)
    if T == 'RationalQ' and n == 'is_rational':
        if isinstance(rep, Abstract) and not isinstance(rep, AbstractPair):
            return C(name, post=lambda c: [('has no epsilon part', c.rval == ISRAT(c.this))])
        return C(name, pre=wthis, post=lambda c: [('exactly numbers without epsilon part are rational',
                                                  c.rval == (this(c)[1] == 0))])
    if T == 'RationalQ' and n == 'as_rational':
        if isinstance(rep, Abstract) and not isinstance(rep, AbstractPair):
            return C(name, throws=lambda c: Not(ISRAT(c.this)), post=lambda c: [('is rational', ISRAT(c.this))],
                     result=lambda c: c.tpath)
        return C(name, pre=wthis, throws=lambda c: this(c)[1] != 0, post=lambda c: [
            ('only numbers without epsilon part are converted', this(c)[1] == 0)], result=lambda c: F(c.tpath, 'c_'))
    return None


EPS = z3.Real('epsilon')
ISRAT = z3.Function('is_rational', R, B)


# ---------------------------------------------------------------- FLINT

class Flint:
    """Trusted contracts of the FLINT functions."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'call' and (n.startswith('fmpz_') or n.startswith('fmpq_') or n.startswith('_fmpq_')):
            return self.run
        if kind == 'ctor' and n == 'fmpq::fmpq':
            return lambda ex, e, st: [(st, ex.fresh(ex.shape(ex.p.ty(e['t'])), 'fmpq'))]
        return None

    def run(self, ex, e, st):
        def go(st, vs):
            vals = []
            for v, a in zip(vs, e['args']):
                v = ex.rd(st, v, ex.p.ty(a['t']))
                vals.append(v)
            return Op(ex, st, e['f']['n'], vals).run()
        return ex.bind(ex.eval_list(e['args'], st), go)


class Op:
    def __init__(self, ex, st, n, a):
        self.ex, self.st, self.n, self.a = ex, st, n, a

    # integers
    def zp(self, v):
        if not isinstance(v, PtrV) or v.path is None:
            raise Unsupported('%s: argument is no number' % self.n)
        t = self.ex.read(self.st, v.path)
        p = v.path
        if isinstance(t, SV) and t.name == 'fmpq':
            raise Unsupported('%s on a fraction' % self.n)
        if isinstance(t, SV):
            p = F(p, 'num_')
        return p

    def zv(self, v):
        if is_z3(v):
            return v
        return self.ex.read(self.st, self.zp(v))

    def zset(self, v, x):
        self.ex.write(self.st, self.zp(v), x)

    # fractions
    def qp(self, v):
        if not isinstance(v, PtrV) or v.path is None:
            raise Unsupported('%s: argument is no fraction' % self.n)
        t = self.ex.read(self.st, v.path)
        if not isinstance(t, SV) or t.name != 'fmpq':
            raise Unsupported('%s: argument is no fraction' % self.n)
        return v.path

    def qraw(self, v):
        t = self.ex.read(self.st, self.qp(v))
        return t.f['num'].f['num_'], t.f['den'].f['num_']

    def qv(self, v, need=True):
        n, d = self.qraw(v)
        if need:
            self.need('operand is in lowest terms', CANON(n, d))
        return VAL(n, d)

    def need(self, label, f):
        self.ex.oblig(self.st, 'precondition of %s: %s' % (self.n, label), f, 'pre')
        self.st.assume(f)

    def qset(self, v, *facts):
        """New fraction at v; facts(value) are assumed."""
        p = self.qp(v)
        n, d = self.ex.fresh_int('num'), self.ex.fresh_int('den')
        self.st.assume(CANON(n, d), *[f(VAL(n, d)) for f in facts])
        self.ex.write(self.st, F(p, 'num', 'num_'), n)
        self.ex.write(self.st, F(p, 'den', 'num_'), d)

    def sign(self, lt, eq):
        r = self.ex.fresh_int('cmp')
        self.st.assume((r < 0) == lt, (r == 0) == eq)
        return r

    def flag(self, c):
        r = self.ex.fresh_int('flag')
        self.st.assume((r != 0) == c)
        return r

    def run(self):
        n, a, st = self.n, self.a, self.st
        out = lambda v=None: [(st, v)]
        if n.startswith('fmpz_'):
            m = n[5:]
            if m in ('init', 'zero'):
                self.zset(a[0], z3.IntVal(0))
            elif m == 'one':
                self.zset(a[0], z3.IntVal(1))
            elif m in ('clear',):
                pass
            elif m in ('set_si', 'set_ui', 'init_set_si', 'init_set_ui'):
                self.zset(a[0], a[1])
            elif m in ('set', 'init_set'):
                self.zset(a[0], self.zv(a[1]))
            elif m == 'swap':
                x, y = self.zv(a[0]), self.zv(a[1])
                self.zset(a[0], y)
                self.zset(a[1], x)
            elif m == 'set_str':
                s, b = a[1], a[2]
                ok = STRIOK(s, b)
                r = self.ex.fresh_int('rc')
                old = self.zv(a[0])
                v = self.ex.fresh_int('parsed')
                st.assume((r == 0) == ok, z3.Implies(ok, v == STRI(s, b)))
                self.zset(a[0], v)
                return out(r)
            elif m in ('add', 'add_si', 'add_ui'):
                self.zset(a[0], self.zv(a[1]) + self.zv(a[2]))
            elif m in ('sub', 'sub_si', 'sub_ui'):
                self.zset(a[0], self.zv(a[1]) - self.zv(a[2]))
            elif m in ('mul', 'mul_si', 'mul_ui'):
                self.zset(a[0], self.zv(a[1]) * self.zv(a[2]))
            elif m in ('addmul', 'addmul_si', 'addmul_ui'):
                self.zset(a[0], self.zv(a[0]) + self.zv(a[1]) * self.zv(a[2]))
            elif m in ('submul', 'submul_si', 'submul_ui'):
                self.zset(a[0], self.zv(a[0]) - self.zv(a[1]) * self.zv(a[2]))
            elif m == 'neg':
                self.zset(a[0], -self.zv(a[1]))
            elif m == 'abs':
                x = self.zv(a[1])
                self.zset(a[0], z3.If(x >= 0, x, -x))
            elif m in ('divexact', 'divexact_si', 'divexact_ui'):
                x, y = self.zv(a[1]), self.zv(a[2])
                self.need('exact division by a nonzero divisor', z3.And(y != 0, DVD(y, x)))
                q = self.ex.fresh_int('quot')
                st.assume(q * y == x)
                self.zset(a[0], q)
            elif m == 'gcd':
                self.zset(a[0], GCD(self.zv(a[1]), self.zv(a[2])))
            elif m in ('equal', 'equal_si', 'equal_ui'):
                return out(self.flag(self.zv(a[0]) == self.zv(a[1])))
            elif m in ('cmp', 'cmp_si', 'cmp_ui'):
                x, y = self.zv(a[0]), self.zv(a[1])
                return out(self.sign(x < y, x == y))
            elif m == 'sgn':
                x = self.zv(a[0])
                return out(z3.If(x < 0, z3.IntVal(-1), z3.If(x > 0, z3.IntVal(1), z3.IntVal(0))))
            elif m == 'is_zero':
                return out(self.flag(self.zv(a[0]) == 0))
            elif m == 'is_one':
                return out(self.flag(self.zv(a[0]) == 1))
            elif m == 'fits_si':
                x = self.zv(a[0])
                return out(self.flag(z3.And(x >= -2 ** 63, x <= 2 ** 63 - 1)))
            elif m == 'get_si':
                x = self.zv(a[0])
                self.need('number fits a machine word', z3.And(x >= -2 ** 63, x <= 2 ** 63 - 1))
                return out(x)
            else:
                raise Unsupported(n)
            return out()
        m = n[5:]
        if m in ('init', 'zero'):
            p = self.qp(a[0])
            self.ex.write(st, F(p, 'num', 'num_'), z3.IntVal(0))
            self.ex.write(st, F(p, 'den', 'num_'), z3.IntVal(1))
            st.assume(CANON(z3.IntVal(0), z3.IntVal(1)), VAL(z3.IntVal(0), z3.IntVal(1)) == 0)
        elif m == 'one':
            self.qset(a[0], lambda v: v == 1)
        elif m == 'clear':
            pass
        elif m == 'set_si':
            self.need('denominator is not zero', a[2] != 0)
            num, den = real(a[1]), real(a[2])
            self.qset(a[0], lambda v: v * den == num)
        elif m == 'set_str':
            ok = STRQOK(a[1], a[2])
            r = self.ex.fresh_int('rc')
            st.assume((r == 0) == ok)
            self.qset(a[0], lambda v: z3.Implies(ok, v == STRQ(a[1], a[2])))
            return out(r)
        elif m == 'set':
            x = self.qraw(a[1])
            p = self.qp(a[0])
            self.ex.write(st, F(p, 'num', 'num_'), x[0])
            self.ex.write(st, F(p, 'den', 'num_'), x[1])
        elif m == 'set_fmpz':
            x = real(self.zv(a[1]))
            self.qset(a[0], lambda v: v == x)
        elif m == 'set_fmpz_frac':
            x, y = self.zv(a[1]), self.zv(a[2])
            self.need('denominator is not zero', y != 0)
            self.qset(a[0], lambda v: v * real(y) == real(x))
        elif m == 'swap':
            p, q = self.qp(a[0]), self.qp(a[1])
            x, y = self.ex.read(st, p), self.ex.read(st, q)
            self.ex.write(st, p, y)
            self.ex.write(st, q, x)
        elif m == 'canonicalise':
            x, y = self.qraw(a[0])
            self.need('denominator is not zero', y != 0)
            self.qset(a[0], lambda v: v * real(y) == real(x))
        elif m == 'neg':
            x = self.qv(a[1])
            self.qset(a[0], lambda v: v == -x)
        elif m == 'abs':
            x = self.qv(a[1])
            self.qset(a[0], lambda v: v == z3.If(x >= 0, x, -x))
        elif m == 'inv':
            x = self.qv(a[1])
            self.need('number is not zero', x != 0)
            self.qset(a[0], lambda v: v * x == 1)
        elif m in ('add', 'sub', 'mul', 'div', 'add_si', 'sub_si', 'mul_si', 'add_fmpz', 'sub_fmpz', 'mul_fmpz',
                   'div_fmpz', 'add_ui', 'sub_ui', 'mul_ui'):
            x = self.qv(a[1])
            y = self.qv(a[2]) if '_' not in m else real(self.zv(a[2]))
            o = m.split('_')[0]
            if o == 'div':
                self.need('divisor is not zero', y != 0)
                self.qset(a[0], lambda v: v * y == x)
            else:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[o]()
                self.qset(a[0], lambda v: v == r)
        elif m in ('addmul', 'submul'):
            z, x, y = self.qv(a[0]), self.qv(a[1]), self.qv(a[2])
            self.qset(a[0], lambda v: v == (z + x * y if m == 'addmul' else z - x * y))
        elif m in ('equal', 'equal_si', 'equal_fmpz', 'equal_ui'):
            x = self.qv(a[0])
            y = self.qv(a[1]) if m == 'equal' else real(self.zv(a[1]))
            return out(self.flag(x == y))
        elif m in ('cmp', 'cmp_si', 'cmp_fmpz', 'cmp_ui'):
            x = self.qv(a[0])
            y = self.qv(a[1]) if m == 'cmp' else real(self.zv(a[1]))
            return out(self.sign(x < y, x == y))
        elif m == 'sgn':
            x = self.qv(a[0])
            return out(self.sign(x < 0, x == 0))
        elif m == 'is_zero':
            return out(self.flag(self.qv(a[0]) == 0))
        elif m == 'is_one':
            return out(self.flag(self.qv(a[0]) == 1))
        else:
            raise Unsupported(n)
        return out()


# ---------------------------------------------------------------- configs

class ConcreteExec(Exec):
    def leaf_tag(self, p, st):
        # reading a FLINT word by value gives its machine representation
        if p.acc and p.acc[-1] in (('f', 'num_'), ('f', 'num'), ('f', 'den')):
            v = self.read(st, p)
            if is_z3(v) and v.sort() == I:
                return lambda x: RAW(x)
        return None


def concrete_shapes(ex, ty):
    if ty.k == 'rec' and ty.n == 'Integer':
        return Struct('Integer', {'num_': Leaf(I, 'fmpz')})
    if ty.k == 'rec' and ty.n == 'fmpq':
        i = Struct('Integer', {'num_': Leaf(I, 'fmpz')})
        return Struct('fmpq', {'num': i, 'den': i})
    if ty.k == 'rec' and ty.q == 'std::basic_string':
        return Leaf(I, 'str')
    if ty.k == 'ptr' and str(ty.to).replace('const ', '') == 'char':
        return Leaf(I, 'str')
    return None


def string_models(ex, e, f, kind):
    if kind == 'mcall' and f['n'].startswith('std::basic_string') and f['n'].endswith(('::c_str', '::data')):
        return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, ex.rd(st, o))])
    return None


def concrete_config(prog):
    cfg = Config()
    cfg.shapes.append(concrete_shapes)
    cfg.models += [Flint(), string_models, StdModels()]
    rep = Concrete()

    def moved_facts(old, new):
        if isinstance(new, SV) and new.name in ('Rational', 'RationalQ'):
            return rep.wf(new.name, View(new))
        return []
    cfg.moved_facts = moved_facts
    for f in prog.funcs:
        if f.dflt or not f.file.endswith(('number.hh', 'number_flint.hh')):
            continue
        s = spec(f, rep)
        if s is not None:
            cfg.contracts[f.id] = s
    return cfg, rep
