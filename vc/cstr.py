"""C strings: pointers into one immutable memory of characters ('@char')."""
from .core import *
from .base import *


def low(c):
    """tolower in the C locale."""
    return z3.If(And(c >= 65, c <= 90), c + 32, c)


class CExec(Exec):
    """Execution where string literals are addresses of characters."""

    def __init__(self, prog, cfg):
        super().__init__(prog, cfg)
        self.lits = {}
        self.addr_of = {}

    def e_str(self, e, st):
        return [(st, self.literal(st, e['v']))]

    def literal(self, st, s):
        if s not in self.lits:
            a = z3.Int('lit!%d!%s' % (len(self.lits), ''.join(c for c in s if c.isalnum())[:12]))
            self.lits[s] = a
            self.addr_of[a.get_id()] = s
        a = self.lits[s]
        m = mem(st)
        st.assume([a > 0] + [m[a + i] == ord(c) for i, c in enumerate(s)] + [m[a + len(s)] == 0])
        return PtrV(AT(Path('@char', ()), a), False)

    def text(self, v):
        """The text of a literal, None for other pointers."""
        a = addr(v)
        return self.addr_of.get(a.get_id()) if a is not None else None


def mem(st):
    return st.store['@char'].elem


def addr(v):
    """The address a character pointer holds."""
    if isinstance(v, PtrV):
        if v.path is None:
            return z3.IntVal(0)
        if v.path.root == '@char' and len(v.path.acc) == 1:
            return v.path.acc[0][1]
        return None
    return v if is_z3(v) else None


def val(v):
    """Address with null as zero."""
    a = addr(v)
    if isinstance(v, PtrV) and is_z3(v.null) and a is not None and v.null.eq(a == 0):
        return a
    if isinstance(v, PtrV) and v.null is not False and v.null is not True and a is not None:
        return z3.If(v.null, z3.IntVal(0), a)
    return a


def iprefix(m, a, s):
    """The text at a starts with s, whatever the case."""
    return And([low(m[a + i]) == ord(c.lower()) for i, c in enumerate(s)])


def ieq(m, a, s):
    return And(iprefix(m, a, s), m[a + len(s)] == 0)


def eq(m, a, s):
    return And([m[a + i] == ord(c) for i, c in enumerate(s)] + [m[a + len(s)] == 0])


class CModels:
    """tolower, strcmp and the streams that messages are written to."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'call' and n in ('tolower', 'std::tolower'):
            return lambda ex, e, st: ex.bind(ex.eval_list(e['args'], st), lambda st, vs: [(st, low(ex.rd(st, vs[0])))])
        if kind == 'call' and n in ('strcmp', 'std::strcmp'):
            return self.strcmp
        if 'basic_ostringstream' in n and kind == 'ctor':
            return self.stream
        if kind == 'call' and n == 'std::operator<<' and len(e['args']) == 2:
            return self.shl
        if kind == 'mcall' and 'basic_ostringstream' in n and n.endswith('::str') and not e['args']:
            return self.text
        if kind == 'mcall' and n.startswith('std::basic_string<') and n.endswith('::c_str'):
            return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [
                (st, ex.read(st, o) if isinstance(o, Path) else o)])
        if kind == 'call' and n == 'clingo_set_error':
            return self.set_error
        if kind == 'call' and n == 'Clingo::Detail::handle_cxx_error':
            return lambda ex, e, st: [(st, None)]
        if kind == 'call' and n == 'Clingo::Detail::handle_error':
            return self.handle_error
        return None

    def strcmp(self, ex, e, st):
        def go(st, vs):
            a, b = vs
            if ex.text(a) is not None:
                a, b = b, a
            s = ex.text(b)
            if s is None or addr(a) is None:
                raise Unsupported('strcmp')
            r = ex.fresh_int('strcmp')
            st.assume((r == 0) == eq(mem(st), addr(a), s))
            return [(st, r)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def stream(self, ex, e, st):
        return [(st, ListV([]))]

    def shl(self, ex, e, st):
        def go(st, vs):
            s, x = vs
            if not isinstance(s, Path) or not isinstance(ex.read(st, s), ListV):
                raise Unsupported('stream')
            x = ex.rd(st, x)
            ex.replace(st, s, ListV(ex.read(st, s).items + [x]))
            return [(st, s)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def text(self, ex, e, st):
        def go(st, o):
            return [(st, ex.read(st, o) if isinstance(o, Path) else o)]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def set_error(self, ex, e, st):
        def go(st, vs):
            x = ex.rd(st, vs[1])
            items = x.items if isinstance(x, ListV) else [x]
            st.store['$message'] = ListV(list(items))
            return [(st, None)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def handle_error(self, ex, e, st):
        def go(st, vs):
            ok = as_bool(ex.to_bool(ex.rd(st, vs[0])))
            bad = st.fork()
            bad.assume(Not(ok))
            bad.exc = 'std::runtime_error'
            st.assume(ok)
            return [(st, None), (bad, None)]
        return ex.bind(ex.eval_list(e['args'], st), go)


def cconfig(p):
    cfg = abstract_config(p)
    cfg.ptr_regions['char'] = ('char', ())
    cfg.regions = {'char': Leaf(I)}
    cfg.ghosts = {'$message': lambda ex: ListV([])}
    cfg.models.insert(0, CModels())
    return cfg


def prefix_contract():
    """iequals_pre: the rest of a if a starts with b, null otherwise."""
    L = z3.Function('strlen', I, I)
    k = z3.Int('k')

    def same(c, n):
        m, a, b = mem(c.pre_st), c.arg(0), c.arg(1)
        return z3.ForAll([k], z3.Implies(And(0 <= k, k < n), low(m[a + k]) == low(m[b + k])))

    def ids(c):
        return val(c._args[0]), val(c._args[1])

    def pre(c):
        m, b = mem(c.pre_st), ids(c)[1]
        r = [('the strings are given', And(ids(c)[0] > 0, b > 0))]
        if c.ex.text(c._args[1]) is None:
            r.append(('the second string ends', And(L(b) >= 0, m[b + L(b)] == 0, z3.ForAll([k], z3.Implies(
                And(b <= k, k < b + L(b)), m[k] != 0), patterns=[m[k]]))))
        return r

    def post(c):
        m = mem(c.pre_st)
        a, b = ids(c)
        r = val(c.ret)
        s = c.ex.text(c._args[1])
        if s is not None:
            ok = iprefix(m, a, s)
            return [('prefix', r == z3.If(ok, a + len(s), 0))]
        n = L(b)
        return [('the rest is returned if the first string starts with the second', z3.Implies(r != 0, And(
            r == a + n, z3.ForAll([k], z3.Implies(And(0 <= k, k < n), low(m[a + k]) == low(m[b + k])))))),
            ('null is returned only if it does not', z3.Implies(r == 0, z3.Exists([k], And(
                0 <= k, k < n, low(m[a + k]) != low(m[b + k])))))]

    def inv(Lc):
        c = Lc.f
        m = mem(Lc.st)
        a0, b0 = ids(c)
        a, b = addr(Lc.ex.ptr_from_id(PtrS('char'), Lc.v('a'))) if is_z3(Lc.v('a')) else val(Lc.v('a')), val(Lc.v('b'))
        d = a - a0
        return [('both have moved by the same distance', And(d >= 0, a0 + d == a, b == b0 + d)),
                ('so far the characters agree', z3.ForAll([k], z3.Implies(And(0 <= k, k < d), And(
                    low(m[a0 + k]) == low(m[b0 + k]), m[a0 + k] != 0, m[b0 + k] != 0)))),
                ('the second string has not ended', d <= L(b0)),
                ('the pointers are not null', And(a > 0, b > 0))]
    return Contract('iequals_pre', pre, post, loops=[LoopSpec(inv)])


def equal_contract():
    """iequals: equal but for the case."""
    L = z3.Function('strlen', I, I)
    k = z3.Int('k')

    def pre(c):
        m, b = mem(c.pre_st), val(c._args[1])
        r = [('the strings are given', And(val(c._args[0]) > 0, b > 0))]
        if c.ex.text(c._args[1]) is None:
            r.append(('the second string ends', And(L(b) >= 0, m[b + L(b)] == 0, z3.ForAll([k], z3.Implies(
                And(b <= k, k < b + L(b)), m[k] != 0), patterns=[m[k]]))))
        return r

    def post(c):
        m = mem(c.pre_st)
        a, b = val(c._args[0]), val(c._args[1])
        s = c.ex.text(c._args[1])
        if s is not None:
            return [('the strings are equal but for the case', c.rval == ieq(m, a, s))]
        n = L(b)
        return [('equal strings', z3.Implies(c.rval, And(m[a + n] == 0, z3.ForAll([k], z3.Implies(
            And(0 <= k, k < n), low(m[a + k]) == low(m[b + k])))))),
            ('different strings', z3.Implies(Not(c.rval), Or(m[a + n] != 0, z3.Exists([k], And(
                0 <= k, k < n, low(m[a + k]) != low(m[b + k]))))))]
    return Contract('iequals', pre, post)
