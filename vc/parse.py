"""Clingo's theory atoms and symbols as the parser sees them: the terms are
given by their components, symbols by what they are built from."""
from .cstr import *
from .nums import QNUM, QDEN
from .stdmodels import split_name
from .sums import *

TUPLE, FUNCTION, NUMBER, SYMBOL = 0, 3, 4, 5         # Clingo::TheoryTermType
S_NUMBER, S_STRING, S_FUNCTION = 1, 4, 5             # Clingo::SymbolType
ASZ = z3.ArraySort(I, I)

# theory terms
TYPE, NAME, NUM, ARITY = (z3.Function('term_' + n, I, I) for n in ('type', 'name', 'number', 'arity'))
ARGS = z3.Function('term_args', I, ASZ)
# theory elements and atoms
TUPN, CONDN, CONDID = (z3.Function('elem_' + n, I, I) for n in ('size', 'condsize', 'condid'))
TUP = z3.Function('elem_tuple', I, ASZ)
ATERM, ELN, GOP, GTERM, ALIT = (z3.Function('atom_' + n, I, I) for n in ('term', 'size', 'op', 'guard', 'literal'))
ELS = z3.Function('atom_elements', I, ASZ)
HASG = z3.Function('atom_has_guard', I, B)
MAPLIT = z3.Function('map_literal', I, I)
# an arbitrary assignment to the literals
TRUE = z3.Const('true', z3.ArraySort(I, B))
# there are as many auxiliary variables as an int can count
TOOMANY = z3.Bool('too_many')
# strings: length and text of the string at an address; 0 is the empty text
LEN, TEXT = z3.Function('strlen', I, I), z3.Function('text', I, I)
UNQUOTED = z3.Function('unquoted', I, I, I)
NUMERIC, DECIMAL = z3.Function('numeric', I, B), z3.Function('decimal', I, R)
# symbols
KIND, SNUM, SNAME, SADDR, SARITY = (z3.Function('sym_' + n, I, I) for n in ('kind', 'number', 'name', 'addr', 'arity'))
SPOS = z3.Function('sym_positive', I, B)
SARGS = z3.Function('sym_args', I, ASZ)
NUMSYM = z3.Function('number_symbol', I, I)
ZEROSYM = NUMSYM(0)


def str_facts(m, a):
    """What holds for a C string at address a."""
    k = z3.Int('k!str')
    return [a > 0, LEN(a) >= 0, m[a + LEN(a)] == 0,
            z3.ForAll([k], z3.Implies(And(a <= k, k < a + LEN(a)), m[k] != 0), patterns=[m[k]]),
            (TEXT(a) == 0) == (LEN(a) == 0), (LEN(a) == 0) == (m[a] == 0)]


def symbol_axioms():
    n, s = z3.Ints('n s')
    return [z3.ForAll([n], And(KIND(NUMSYM(n)) == S_NUMBER, SNUM(NUMSYM(n)) == n), patterns=[NUMSYM(n)]),
            z3.ForAll([s], z3.Implies(KIND(s) == S_NUMBER, NUMSYM(SNUM(s)) == s), patterns=[KIND(s)])]


def same_function(s, name, n, args, pos):
    k = z3.Int('k!sym')
    return And(KIND(s) == S_FUNCTION, SNAME(s) == name, SARITY(s) == n, SPOS(s) == pos,
               z3.ForAll([k], z3.Implies(And(0 <= k, k < n), SARGS(s)[k] == args[k])))


def determined(s, name, n, args, pos):
    """A function symbol is the one with its name, arguments, and sign."""
    x = z3.Int('x!sym')
    return z3.ForAll([x], z3.Implies(same_function(x, name, n, args, pos), x == s), patterns=[KIND(x)])


class TheoryModels:
    """clingo's theory terms and symbols, std::variant and std::visit."""

    TERM = {'Clingo::TheoryTerm::type': TYPE, 'Clingo::TheoryTerm::number': NUM,
            'Clingo::TheoryElement::condition_id': CONDID, 'Clingo::TheoryAtom::term': ATERM,
            'Clingo::TheoryAtom::literal': ALIT, 'Clingo::TheoryAtom::has_guard': HASG,
            'Clingo::Symbol::type': KIND, 'Clingo::Symbol::number': SNUM, 'Clingo::Symbol::is_positive': SPOS}
    SPANS = {'Clingo::TheoryTerm::arguments': (ARITY, ARGS), 'Clingo::TheoryElement::tuple': (TUPN, TUP),
             'Clingo::TheoryElement::condition': (CONDN, None), 'Clingo::TheoryAtom::elements': (ELN, ELS),
             'Clingo::Symbol::arguments': (SARITY, SARGS)}
    STRS = {'Clingo::TheoryTerm::name': NAME, 'Clingo::Symbol::name': SADDR}

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'mcall':
            if n in self.TERM:
                return self.with_obj(lambda ex, st, o: [(st, self.TERM[n](o))])
            if n in self.SPANS:
                return self.with_obj(lambda ex, st, o: self.span(ex, st, o, *self.SPANS[n]))
            if n in self.STRS:
                return self.with_obj(lambda ex, st, o: self.string(ex, st, o, self.STRS[n]))
            if n == 'Clingo::TheoryAtom::guard':
                return self.guard
            if n.startswith('Clingo::Span<'):
                return getattr(self, 's_' + split_name(n)[1].replace('operator', 'op'), None)
            if n.startswith('Clingo::TheoryIterator<') and n.endswith(('operator->', 'operator*')):
                return self.deref
            if n.startswith('std::function<') and n.endswith('operator()'):
                return lambda ex, e, st: self.args(ex, e, st, lambda st, vs: self.maplit(ex, st, ex.rd(st, vs[0])))
        if kind == 'call':
            if n in ('strlen', 'std::strlen'):
                return lambda ex, e, st: self.args(ex, e, st, lambda st, vs: self.strlen(ex, st, vs[0]))
            if n == 'Clingo::Number':
                return lambda ex, e, st: self.args(ex, e, st, lambda st, vs: [(st, NUMSYM(ex.rd(st, vs[0])))])
            if n == 'Clingo::Function':
                return self.function
            if n == 'Clingo::String':
                return self.make_string
            if n in ('std::visit',):
                return self.visit
        if kind == 'ctor':
            if n.startswith('std::variant<') and e['args']:
                return self.variant
            if n.startswith('Clingo::Span<'):
                return self.make_span
            if n.startswith('Clingo::ToIterator<'):
                return lambda ex, e, st: [(st, Opq('Clingo::ToIterator'))]
            if n in ('Clingo::Symbol::Symbol', 'Clingo::TheoryTerm::TheoryTerm') and len(e['args']) == 1:
                return lambda ex, e, st: self.args(ex, e, st, lambda st, vs: [(st, ex.rd(st, vs[0]))])
        return None

    @staticmethod
    def args(ex, e, st, fn):
        return ex.bind(ex.eval_list(e['args'], st), fn)

    @staticmethod
    def with_obj(fn):
        def h(ex, e, st):
            def go(st, o):
                if e.get('arrow'):
                    o = ex.deref(st, ex.rd(st, o, ex.p.ty(e['o']['t'])))
                return fn(ex, st, ex.rd(st, o))
            return ex.bind(ex.eval_any(e['o'], st), go)
        return h

    def span(self, ex, st, o, size, elems):
        st.assume(size(o) >= 0)
        return [(st, VV(size(o), elems(o) if elems is not None else z3.Const(ex.name('span'), ASZ)))]

    def string(self, ex, st, o, fn):
        a = fn(o)
        st.assume(str_facts(mem(st), a))
        if fn is SADDR:
            st.assume(TEXT(a) == SNAME(o))
        return [(st, PtrV(AT(Path('@char', ()), a), False))]

    def guard(self, ex, e, st):
        def go(ex, st, o):
            st.assume(str_facts(mem(st), GOP(o)))
            return [(st, SV('std::pair', {'first': PtrV(AT(Path('@char', ()), GOP(o)), False), 'second': GTERM(o)}))]
        return self.with_obj(go)(ex, e, st)

    def maplit(self, ex, st, x):
        st.assume(MAPLIT(x) != 0, TRUE[-MAPLIT(x)] == Not(TRUE[MAPLIT(x)]))
        return [(st, MAPLIT(x))]

    def strlen(self, ex, st, v):
        a = addr(v)
        if a is None:
            raise Unsupported('strlen')
        st.assume(str_facts(mem(st), a))
        return [(st, LEN(a))]

    # ---- spans
    def span_of(fn):
        def h(self, ex, e, st):
            def go(st, o):
                v = ex.read(st, o) if isinstance(o, Path) else o
                if isinstance(v, SV) and 'ib' in v.f:
                    k = {'begin': v.f['ib'], 'end': v.f['ib'] + v.f['n'], 'size': v.f['n']}.get(fn.__name__[2:])
                    if k is None:
                        raise Unsupported('span of characters')
                    return [(st, k if fn.__name__ == 's_size' else PtrV(AT(Path('@char', ()), k), False))]
                if not isinstance(v, VV):
                    raise Unsupported('span %r' % (v,))
                return fn(self, ex, st, o, v)
            return ex.bind(ex.eval_any(e['o'], st), go)
        return h

    @span_of
    def s_size(self, ex, st, o, v):
        return [(st, v.len)]

    @span_of
    def s_empty(self, ex, st, o, v):
        return [(st, v.len == 0)]

    def at(self, ex, st, o, v, k, what):
        ex.oblig(st, '%s of a non-empty range' % what, v.len > 0, 'safety')
        st.assume(v.len > 0)
        return [(st, tselect(v.elem, k))]

    @span_of
    def s_front(self, ex, st, o, v):
        return self.at(ex, st, o, v, z3.IntVal(0), 'first element')

    @span_of
    def s_back(self, ex, st, o, v):
        return self.at(ex, st, o, v, z3.simplify(v.len - 1), 'last element')

    def bound(self, ex, st, o, v, k):
        if not isinstance(o, Path):
            o = ex.new_root(st, 'span', v)
        return [(st, IterV(o, k))]

    @span_of
    def s_begin(self, ex, st, o, v):
        return self.bound(ex, st, o, v, z3.IntVal(0))

    @span_of
    def s_end(self, ex, st, o, v):
        return self.bound(ex, st, o, v, v.len)

    def deref(self, ex, e, st):
        def go(st, o):
            it = ex.rd(st, o)
            if not isinstance(it, IterV) or it.kind != 'vec':
                raise Unsupported('iterator %r' % (it,))
            g = And(0 <= it.idx, it.idx < ex.read(st, it.path).len)
            ex.oblig(st, 'iterator is dereferenceable', g, 'safety')
            st.assume(g)
            p = AT(it.path, it.idx)
            return [(st, PtrV(p, False) if e['f']['n'].endswith('->') else p)]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def make_span(self, ex, e, st):
        def go(st, vs):
            vs = [v for v in vs if not isinstance(v, Opq)]
            ty = ex.p.ty(e['t'])
            if 'Span<char' in ty.n and len(vs) == 2:
                a, b = addr(vs[0]) if isinstance(vs[0], PtrV) else addr(ex.rd(st, vs[0])), vs[1]
                b = b if isinstance(b, PtrV) else ex.rd(st, b)
                return [(st, SV(ty.n, {'ib': a, 'n': addr(b) - a if isinstance(b, PtrV) else b}))]
            if not vs:
                return [(st, VV(z3.IntVal(0), z3.Const(ex.name('empty'), ASZ)))]
            v = ex.rd(st, vs[0])
            if len(vs) == 1 and isinstance(v, VV):
                return [(st, v)]
            if len(vs) == 1 and isinstance(v, SV) and 'items' in v.f:
                return [(st, VV(v.f['len'], v.f['items']))]
            raise Unsupported('span of %r' % (vs,))
        return self.args(ex, e, st, go)

    # ---- symbols
    def function(self, ex, e, st):
        def go(st, vs):
            a = addr(ex.rd(st, vs[0]) if not isinstance(vs[0], PtrV) else vs[0])
            if a is None:
                raise Unsupported('name of a symbol')
            st.assume(str_facts(mem(st), a))
            v = ex.rd(st, vs[1])
            pos = as_bool(ex.to_bool(ex.rd(st, vs[2]))) if len(vs) > 2 else z3.BoolVal(True)
            if isinstance(v, ListV) and not v.items:
                v = VV(z3.IntVal(0), z3.Const(ex.name('empty'), ASZ))
            if not isinstance(v, VV):
                raise Unsupported('arguments of a symbol %r' % (v,))
            s = z3.Int(ex.name('symbol'))
            st.assume(same_function(s, TEXT(a), v.len, v.elem, pos), determined(s, TEXT(a), v.len, v.elem, pos))
            return [(st, s)]
        return self.args(ex, e, st, go)

    def make_string(self, ex, e, st):
        def go(st, vs):
            x = ex.rd(st, vs[0])
            if not is_z3(x):
                raise Unsupported('text of a string')
            s, y = z3.Int(ex.name('string')), z3.Int('y!sym')
            st.assume(KIND(s) == S_STRING, SNAME(s) == x, z3.ForAll([y], z3.Implies(And(
                KIND(y) == S_STRING, SNAME(y) == x), y == s), patterns=[KIND(y)]))
            return [(st, s)]
        return self.args(ex, e, st, go)

    # ---- variants: tag 0 for a number, 1 for a symbol
    def variant(self, ex, e, st):
        def go(st, vs):
            x = ex.rd(st, vs[0])
            if isinstance(x, SV) and 'tag' in x.f:
                return [(st, x)]
            return [(st, make_variant(ex, x))]
        return self.args(ex, e, st, go)

    def visit(self, ex, e, st):
        def pick(st, fn, alts):
            """The overload for the given alternatives."""
            v = ex.read(st, fn) if isinstance(fn, Path) else fn
            names = ['Clingo::Symbol' if a else 'Rational' for a in alts]
            if isinstance(v, Closure):
                cs = [ex.p.byid[i] for i in v.fids if i in ex.p.byid]
            else:
                cs = [g for g in ex.p.funcs if isinstance(v, SV) and g.rec == v.name and g.s == 'operator()']
            cs = [g for g in cs if [t.strip().n for _, _, t in g.ps] == names]
            if len(cs) != 1:
                raise Unsupported('overload for std::visit of %r: %d' % (v, len(cs)))
            return v, cs[0]

        def go(st, vs):
            fn, vars = vs[0], vs[1:]
            cur = [(st, [])]
            for x in vars:
                nxt = []
                for s, alts in cur:
                    v = ex.read(s, x) if isinstance(x, Path) else x
                    for s2, b in ex.split(s, v.f['tag'] == 1):
                        nxt.append((s2, alts + [b]))
                cur = nxt
            out = []
            for s, alts in cur:
                v, g = pick(s, fn, alts)
                args = []
                for x, a in zip(vars, alts):
                    y = ex.read(s, x) if isinstance(x, Path) else x
                    args.append(ex.new_root(s, 'alternative', y.f['sym' if a else 'num']))
                if isinstance(v, Closure):
                    out += ex.call_closure(s, Closure([g.id], v.env, v.this), args)
                else:
                    o = fn if isinstance(fn, Path) else ex.new_root(s, 'functor', v)
                    out += ex.call(s, g, o, args)
            return out
        return self.args(ex, e, st, go)


def make_variant(ex, x):
    if not is_z3(x):
        raise Unsupported('variant of %r' % (x,))
    b = x.sort() == I
    return SV('variant', {'tag': z3.IntVal(int(b)), 'num': z3.RealVal(0) if b else x, 'sym': x if b else z3.IntVal(0)})


def theory_shapes(ex, ty):
    if ty.k == 'rec':
        n = ty.n
        if n in ('Clingo::TheoryTerm', 'Clingo::TheoryElement', 'Clingo::TheoryAtom', 'Clingo::Symbol'):
            return Leaf(I, n)
        if n.startswith('std::variant<'):
            return Struct('variant', {'tag': Leaf(I, 'tag'), 'num': Leaf(R), 'sym': Leaf(I)})
        if n == 'Clingo::Span<char, Clingo::ToIterator<char>>':
            return Struct(n, {'ib': Leaf(I), 'n': Leaf(I)})
        if n.startswith('Clingo::Span<') or n == 'Clingo::TheoryAtoms':
            return Vec(Leaf(I))
        if n.startswith('std::unordered_map<Clingo::Symbol, Term &'):
            return Struct('refmap', {'has': Leaf(z3.ArraySort(I, B)), 'val': Leaf(ASZ), 'size': Leaf(I, unsigned=64)})
        if n.startswith('std::map<std::pair<Clingo::Symbol, int>'):
            return Struct('pairmap', {'has': Leaf(z3.ArraySort(I, z3.ArraySort(I, B))), 'val': Leaf(z3.ArraySort(I, ASZ)),
                                      'size': Leaf(I, unsigned=64)})
        if n.startswith('std::function<'):
            return OpaqueS('mapper')
        if n.startswith('std::basic_string<'):
            return Leaf(I, 'text')
    return None


class ParseExec(CExec):
    def is_foreach(self, x):
        return x['f'].get('n') in ('std::for_each', 'std::remove_if')


def parse_exec(p):
    cfg = cconfig(p)
    cfg.shapes.insert(0, theory_shapes)
    cfg.models.insert(0, TheoryModels())
    cfg.models.insert(0, Containers())
    for f in p.funcs:
        if f.rec == 'Rational' and f.s in ('num', 'den') and not f.ps and f.id not in cfg.contracts:
            cfg.contracts[f.id] = part_contract(f.s)
    return ParseExec(p, cfg)


def part_contract(n):
    """Access to numerator or denominator; what is returned is only read."""
    def res(c):
        return c.ex.new_root(c.post_st, 'readonly', (QNUM if n == 'num' else QDEN)(c.this))
    return Contract('Rational::' + n, result=res, post=lambda c: [
        ('fraction', z3.And(c.this * z3.ToReal(QDEN(c.this)) == z3.ToReal(QNUM(c.this)), QDEN(c.this) > 0))])


TERMS = Path('@Terms', ())


class Containers:
    """for_each and remove_if as the loops they are, maps, back_inserter."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'call' and n == 'std::for_each':
            return self.for_each
        if kind == 'call' and n == 'std::remove_if':
            return self.remove_if
        if kind == 'call' and n == 'std::back_inserter':
            return lambda ex, e, st: TheoryModels.args(ex, e, st, lambda st, vs: [(st, Opq('inserter', vs[0]))])
        if kind == 'call' and n == 'std::move' and len(e['args']) == 3:
            return self.move_range
        if kind == 'mcall' and n.startswith('std::unordered_map<Clingo::Symbol, Term &'):
            return getattr(self, 'r_' + split_name(n)[1], None)
        if kind == 'mcall' and n.startswith('std::map<std::pair<Clingo::Symbol, int>'):
            return getattr(self, 'm_' + split_name(n)[1], None)
        if kind == 'mcall' and n.startswith(('std::__detail::_Node_iterator', 'std::_Rb_tree_iterator')):
            m = split_name(n)[1]
            return {'operator->': lambda ex, e, st: self.node(ex, e, st, True), 'operator*': self.node}.get(m)
        return None

    # ---- algorithms
    def walk(self, ex, e, st, first, last, body):
        """body at each position from first to last."""
        o, k0, end = first.path, first.idx, last.idx
        root = ex.new_root(st, '$at', k0)

        def cond(st):
            return [(st, ex.read(st, root) < end)]

        def go(st):
            out = []
            for s, v in body(st, ex.read(st, root)):
                out.append(('x' if s.exc is not None else 'n', s, None))
            return out

        def inc(st):
            ex.write(st, root, ex.read(st, root) + 1)
            return [(st, None)]
        return [(x[1], None) for x in ex.loop_core(
            e, st, cond, go, inc, lambda st: ex.read(st, root), auto=lambda st: [k0 <= ex.read(st, root), z3.Or(
                ex.read(st, root) <= end, k0 > end)])]

    def range(self, ex, st, a, b):
        if not isinstance(a, IterV) or not isinstance(b, IterV) or a.kind != b.kind or a.kind == 'rvec':
            raise Unsupported('range of %r' % (a,))
        n = ex.read(st, a.path).len
        g = And(0 <= a.idx, a.idx <= b.idx, b.idx <= n)
        ex.oblig(st, 'range is within the container', g, 'safety')
        st.assume(g)

    def for_each(self, ex, e, st):
        def go(st, vs):
            a, b, fn = ex.rd(st, vs[0]), ex.rd(st, vs[1]), ex.rd(st, vs[2])
            if not isinstance(fn, Closure):
                raise Unsupported('for_each with %r' % (fn,))
            self.range(ex, st, a, b)
            return self.walk(ex, e, st, a, b, lambda st, k: ex.call_closure(st, fn, [AT(a.path, k)]))
        return TheoryModels.args(ex, e, st, go)

    def remove_if(self, ex, e, st):
        """What is kept is moved to the front; what is behind is unspecified."""
        def go(st, vs):
            a, b, fn = ex.rd(st, vs[0]), ex.rd(st, vs[1]), ex.rd(st, vs[2])
            if not isinstance(fn, Closure):
                raise Unsupported('remove_if with %r' % (fn,))
            self.range(ex, st, a, b)
            st.store['$kept'] = a.idx
            kept = Path('$kept', ())

            def body(st, k):
                out = []
                for s, v in ex.call_closure(st, fn, [AT(a.path, k)]):
                    if s.exc is not None:
                        out.append((s, None))
                        continue
                    for s2, r in ex.split(s, as_bool(ex.to_bool(ex.rd(s, v)))):
                        if not r:
                            m = ex.read(s2, kept)
                            ex.write(s2, AT(a.path, m), ex.read(s2, AT(a.path, k)))
                            ex.write(s2, kept, m + 1)
                        out.append((s2, None))
                return out
            out = []
            for s, _ in self.walk(ex, e, st, a, b, body):
                m = s.store.pop('$kept')
                s.store['$moved'] = ex.read(s, a.path)
                if s.exc is None:
                    v = ex.read(s, a.path)
                    new, k = ex.fresh_like(v.elem, 'kept'), z3.Int('k!kept')
                    s.assume([z3.ForAll([k], z3.Implies(z3.Or(k < m, k >= b.idx), x[k] == y[k]), patterns=[x[k]])
                              for x, y in zip(leaves(new), leaves(v.elem))])
                    ex.write(s, a.path, VV(v.len, new))
                out.append((s, IterV(a.path, m, a.kind)))
            return out
        return TheoryModels.args(ex, e, st, go)

    def move_range(self, ex, e, st):
        """Moving a range to the back of a vector."""
        def go(st, vs):
            a, b, o = ex.rd(st, vs[0]), ex.rd(st, vs[1]), ex.rd(st, vs[2])
            if not isinstance(o, Opq) or o.name != 'inserter':
                raise Unsupported('std::move to %r' % (o,))
            self.range(ex, st, a, b)
            x, y = ex.read(st, a.path), ex.read(st, o.data)
            new, k = ex.fresh_like(y.elem, 'moved'), z3.Int('k!mv')
            n = y.len
            st.store['$appended'] = x
            for p, q, r in zip(leaves(new), leaves(y.elem), leaves(x.elem)):
                st.assume(z3.ForAll([k], z3.Implies(And(0 <= k, k < n), p[k] == q[k]), patterns=[p[k]]),
                          z3.ForAll([k], z3.Implies(And(n <= k, k < n + b.idx - a.idx), p[k] == r[k - n + a.idx]), patterns=[p[k]]))
            ex.write(st, o.data, VV(z3.simplify(n + b.idx - a.idx), new))
            ex.havoc(st, a.path, name='moved')
            v = ex.read(st, a.path)
            ex.write(st, a.path, VV(x.len, v.elem))
            return [(st, o)]
        return TheoryModels.args(ex, e, st, go)

    # ---- map from symbols to terms of the vector they are found in
    @staticmethod
    def obj(ex, e, st, fn):
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: ex.bind(ex.eval_list(e['args'], st), lambda st, vs: fn(st, o, vs)))

    def r_clear(self, ex, e, st):
        def go(st, o, vs):
            ex.write(st, F(o, 'has'), z3.K(I, False))
            ex.write(st, F(o, 'size'), z3.IntVal(0))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    def r_size(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o, vs: [(st, ex.read(st, F(o, 'size')))])

    def r_emplace(self, ex, e, st):
        def go(st, o, vs):
            k, p = ex.rd(st, vs[0]), vs[1]
            if not isinstance(p, Path) or p.root != '@Terms' or len(p.acc) != 1 or p.acc[0][0] != 'i':
                raise Unsupported('reference to %r in a map' % (p,))
            has, val, size = (ex.read(st, F(o, g)) for g in ('has', 'val', 'size'))
            out = []
            for s, b in ex.split(st, has[k]):
                if not b:
                    ex.write(s, F(o, 'has'), z3.Store(has, k, True))
                    ex.write(s, F(o, 'val'), z3.Store(val, k, p.acc[0][1]))
                    ex.write(s, F(o, 'size'), size + 1)
                out.append((s, SV('std::pair', {'first': IterV(o, k, 'map'), 'second': z3.BoolVal(not b)})))
            return out
        return self.obj(ex, e, st, go)
    r_try_emplace = r_emplace

    def r_find(self, ex, e, st):
        def go(st, o, vs):
            k = ex.rd(st, vs[0])
            return [(st, IterV(o, z3.If(ex.read(st, F(o, 'has'))[k], k, z3.IntVal(-1)), 'map'))]
        return self.obj(ex, e, st, go)

    def r_end(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o, vs: [(st, IterV(o, z3.IntVal(-1), 'map'))])

    # ---- map from pairs of symbols and literals to symbols
    def m_size(self, ex, e, st):
        def go(st, o, vs):
            n = ex.read(st, F(o, 'size'))
            st.assume(n >= 0, z3.Implies(n >= 2 ** 31 - 1, TOOMANY))
            return [(st, n)]
        return self.obj(ex, e, st, go)

    def m_try_emplace(self, ex, e, st):
        def go(st, o, vs):
            key, x = ex.rd(st, vs[0]), ex.rd(st, vs[1])
            s0, l = key.f['first'], key.f['second']
            has, val, size = (ex.read(st, F(o, g)) for g in ('has', 'val', 'size'))
            out = []
            for s, b in ex.split(st, has[s0][l]):
                if not b:
                    # named, for patterns
                    h, y = z3.Const(ex.name('has'), has.sort()), z3.Const(ex.name('val'), val.sort())
                    v, m = z3.Ints('v!map m!map')
                    key = And(v == s0, m == l)
                    s.assume(h[s0][l], y[s0][l] == x,
                             z3.ForAll([v, m], And(h[v][m] == Or(key, has[v][m]), z3.Implies(Not(key), y[v][m] == val[v][m])),
                                       patterns=[h[v][m], has[v][m], y[v][m], val[v][m]]))
                    ex.write(s, F(o, 'has'), h)
                    ex.write(s, F(o, 'val'), y)
                    ex.write(s, F(o, 'size'), size + 1)
                out.append((s, SV('std::pair', {'first': IterV(o, (s0, l), 'map2'), 'second': z3.BoolVal(not b)})))
            return out
        return self.obj(ex, e, st, go)
    m_emplace = m_try_emplace

    def node(self, ex, e, st, arrow=False):
        """The pair an iterator of a map is at."""
        def go(st, o):
            it = ex.rd(st, o)
            if not isinstance(it, IterV) or it.kind not in ('map', 'map2'):
                raise Unsupported('iterator %r' % (it,))
            has, val = ex.read(st, F(it.path, 'has')), ex.read(st, F(it.path, 'val'))
            if it.kind == 'map2':
                s, l = it.idx
                return at(st, {'first': SV('std::pair', {'first': s, 'second': l}), 'second': val[s][l]})
            ex.oblig(st, 'iterator is dereferenceable', has[it.idx], 'safety')
            st.assume(has[it.idx])
            return at(st, {'first': it.idx, 'second': RefV(AT(TERMS, val[it.idx]))})

        def at(st, d):
            p = ex.new_root(st, 'mapnode', SV('node', d))
            return [(st, PtrV(p, False) if arrow else p)]
        return ex.bind(ex.eval_any(e['o'], st), go)


def leaves(v):
    if isinstance(v, SV):
        return [y for k in sorted(v.f) for y in leaves(v.f[k])]
    if isinstance(v, VV):
        return [v.len] + leaves(v.elem)
    return [v]
