"""C13: what the interface reports, given what the propagator knows.

The facade is verified over the contracts that c13 proves for Propagator: symbols
and their numbers, the number of values and the values per thread. The text of a
value is a function of the value; the terms clingo builds are functions of their
parts.
"""
from .nums import *
from .base import abstract_config

NUMBER = 1                                        # clingo_symbol_type_number
SHAPE = Struct('Propagator', dict([('n', Leaf(I)), ('symbols', Leaf(z3.ArraySort(I, I))), ('has', Leaf(z3.ArraySort(I, B))),
                              ('number', Leaf(z3.ArraySort(I, I))), ('values', Leaf(z3.ArraySort(I, z3.ArraySort(I, I)))),
                              ('active', Leaf(B)), ('best', Leaf(z3.ArraySort(I, I))), ('bounded', Leaf(z3.ArraySort(I, B))),
                              ('told', Leaf(I))]))
TYPE = z3.Function('symbol_type', I, I)
TEXT = z3.Function('text_of_value', I, I)         # of a value, as written by operator<<
APPENDED = z3.Function('text_appended', I, I, I)
STRING = z3.Function('string_term', I, I)         # the term of a text
NUMTERM = z3.Function('number_term', I, I)
FUNCTION = z3.Function('function_term', I, I, I, I)   # of a name and two arguments
CNT = z3.Function('reported_before', z3.ArraySort(I, I), I, I)
NAMES = {'__lpx': 1, '__lpx_objective': 2}
EMPTY = z3.IntVal(0)


def cnt_axioms(sym):
    i = z3.Int('i')
    return [CNT(sym, z3.IntVal(0)) == 0]


def cnt_step(sym, i):
    return z3.Implies(i >= 0, CNT(sym, i + 1) == CNT(sym, i) + z3.If(TYPE(sym[i]) == NUMBER, 0, 1))


class FacadeModels:
    def __call__(self, ex, e, f, kind):
        n = f['n']
        ps = [str(ex.p.ty(t)) for t in f.get('ps', [])]
        m = None
        if kind == 'mcall':
            if n.startswith('Propagator<'):
                m = getattr(self, 'p_' + n.split('::')[-1], None)
            elif n.startswith('std::basic_ostringstream') and n.endswith('::str'):
                m = self.set_str if e['args'] else self.get_str
            elif n.endswith('::c_str'):
                m = self.same
            elif n in ('Clingo::Symbol::to_c',):
                m = self.same
            elif n == 'Clingo::Symbol::type':
                m = lambda ex, e, st, a: TYPE(a[0])
            elif n == 'Clingo::Model::thread_id':
                m = lambda ex, e, st, a: st.store['$thread']
            elif n == 'Clingo::Model::extend':
                return self.extend
        elif kind == 'ctor':
            if n == 'Clingo::Symbol::Symbol' and len(e['args']) == 1:
                return lambda ex, e, st: ex.eval_any(e['args'][0], st)
            if n.startswith('std::basic_string') and len(e['args']) == 2:
                return self.lit_string
            if n.startswith('Clingo::Span<Clingo::Symbol'):
                return lambda ex, e, st: ex.eval_any(e['args'][0], st)
            if n.startswith('Clingo::ToIterator'):
                return lambda ex, e, st: [(st, Opq('iterator'))]
        elif kind == 'call':
            if n == 'operator<<' and 'std::basic_ostream' in ps[0]:
                return self.put
            if n == 'Clingo::String':
                m = lambda ex, e, st, a: STRING(a[0])
                e = dict(e, o=None)
            elif n == 'Clingo::Number':
                m = lambda ex, e, st, a: NUMTERM(a[0])
            elif n == 'Clingo::Function':
                return self.function
        if m is None:
            return None

        def go(ex, e, st):
            es = ([e['o']] if kind == 'mcall' else []) + list(e['args'])

            def fin(st, vs):
                if kind == 'mcall' and n.startswith('Propagator<'):
                    return m(ex, st, vs[0], [ex.rd(st, v) for v in vs[1:]])
                if m in (self.set_str, self.get_str):
                    return m(ex, st, vs)
                return [(st, m(ex, e, st, [ex.rd(st, v) for v in vs]))]
            return ex.bind(ex.eval_list(es, st), fin)
        return go

    def same(self, ex, e, st, a):
        return a[0]

    # ---- texts
    def lit_string(self, ex, e, st):
        a = e['args'][0]
        while a['k'] == 'cast':
            a = a['e']
        if a['k'] == 'str':
            if a['v'] == '':
                return [(st, EMPTY)]
            raise Unsupported('string literal')
        return ex.eval_any(e['args'][0], st)

    def set_str(self, ex, st, vs):
        ex.write(st, vs[0], ex.rd(st, vs[1]))
        return [(st, None)]

    def get_str(self, ex, st, vs):
        return [(st, ex.rd(st, vs[0]))]

    def put(self, ex, e, st):
        def go(st, vs):
            o = vs[0]
            old = ex.rd(st, o)
            v = TEXT(ex.rd(st, vs[1]))
            ex.write(st, o, z3.If(old == EMPTY, v, APPENDED(old, v)))
            return [(st, o)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def function(self, ex, e, st):
        def go(st, vs):
            name = vs[0]
            if not isinstance(name, StrV) or name.s not in NAMES:
                raise Unsupported('name of a term')
            xs = self.items(ex, st, vs[1])
            if len(xs) != 2:
                raise Unsupported('number of arguments')
            pos = ex.rd(st, vs[2]) if len(vs) > 2 else z3.BoolVal(True)
            ex.oblig(st, 'the term is positive', pos, 'post')
            return [(st, FUNCTION(NAMES[name.s], xs[0], xs[1]))]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def items(self, ex, st, v):
        v = v if isinstance(v, ListV) else ex.rd(st, v)
        if isinstance(v, VV) and z3.is_int_value(v.len):
            return [v.elem[k] for k in range(v.len.as_long())]
        if not isinstance(v, ListV):
            raise Unsupported('arguments of a term')
        return [ex.rd(st, x) for x in v.items]

    def extend(self, ex, e, st):
        def go(st, vs):
            v = ex.rd(st, vs[0])
            st.store['$shown'] = VV(v.len, v.elem)
            st.store['$extended'] = st.store['$extended'] + 1
            return [(st, None)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    # ---- the propagator, as its contracts say
    def prop(self, ex, st, o):
        return ex.read(st, o).f

    def need(self, ex, st, label, f):
        ex.oblig(st, label, f, 'pre')

    def p_lookup_symbol(self, ex, st, o, a):
        p = self.prop(ex, st, o)
        return [(st, SV('std::optional', {'has': p['has'][a[0]], 'val': p['number'][a[0]]}))]

    def p_get_symbol(self, ex, st, o, a):
        p = self.prop(ex, st, o)
        self.need(ex, st, 'the symbol of a variable is asked for', And(0 <= a[0], a[0] < p['n']))
        return [(st, p['symbols'][a[0]])]

    def p_has_value(self, ex, st, o, a):
        return [(st, And(0 <= a[1], a[1] < self.prop(ex, st, o)['n']))]

    def p_n_values(self, ex, st, o, a):
        return [(st, self.prop(ex, st, o)['n'])]

    def thread(self, ex, st, a):
        self.need(ex, st, 'the thread is the given one', a == st.store['$thread'])

    def p_get_value(self, ex, st, o, a):
        p = self.prop(ex, st, o)
        self.thread(ex, st, a[0])
        self.need(ex, st, 'the value of a variable is asked for', And(0 <= a[1], a[1] < p['n']))
        return [(st, p['values'][a[0]][a[1]])]

    def p_get_objective(self, ex, st, o, a):
        p = self.prop(ex, st, o)
        self.thread(ex, st, a[0])
        return [(st, SV('std::optional', {'has': p['active'], 'val': SV('std::pair', {
            'first': p['best'][a[0]], 'second': p['bounded'][a[0]]})}))]

    def p_on_model(self, ex, st, o, a):
        t = ex.rd(st, F(o, 'told'))
        ex.write(st, F(o, 'told'), t + 1)
        return [(st, None)]


def shapes(V):
    def sh(ex, ty):
        n = ty.n or ''
        if ty.k != 'rec':
            return None
        if n.startswith('Propagator<'):
            return SHAPE
        if n == V or n == 'Clingo::Symbol' or n.startswith('std::basic_ostringstream') or n.startswith('std::basic_string<'):
            return Leaf(I)
        if n in ('Clingo::Model',):
            return OpaqueS('model')
        return None
    return sh


class Fac:
    def __init__(self, t):
        t = t.t if isinstance(t, View) else t
        f = t.f['prop_'].f
        self.n, self.sym, self.has, self.num, self.val = f['n'], f['symbols'], f['has'], f['number'], f['values']
        self.active, self.best, self.bounded, self.told = f['active'], f['best'], f['bounded'], f['told']

    def inv(self):
        i, s = z3.Ints('i s')
        return [('number of variables', And(self.n >= 0, self.n < 2 ** 32)),
                ('each variable has its own number', z3.ForAll([i], z3.Implies(And(0 <= i, i < self.n), And(
                    self.has[self.sym[i]], self.num[self.sym[i]] == i)), patterns=[self.sym[i]])),
                ('each symbol known is a variable', z3.ForAll([s], z3.Implies(self.has[s], And(
                    0 <= self.num[s], self.num[s] < self.n, self.sym[self.num[s]] == s)), patterns=[self.has[s]]))]


def contracts(V):
    N = 'LPXPropagatorFacade<%s>::' % V
    pre = lambda c: Fac(c.this).inv()
    wide = lambda k: lambda c: pre(c) + [('machine integer', And(0 <= c.arg(k), c.arg(k) < 2 ** 64))]

    def out(c, k):
        return c.new(c._args[k].path)

    def inp(c, k):
        return c.old(c._args[k].path)

    def lookup(c):
        f, s = Fac(c.this), c.arg(0)
        i = z3.Int('i')
        x = out(c, 1)
        return [('a variable is found under its index', z3.Implies(c.rval, And(1 <= x, x <= f.n, f.sym[x - 1] == s))),
                ('nothing else is found', z3.Implies(Not(c.rval), And(x == inp(c, 1), z3.ForAll([i], z3.Implies(And(
                    0 <= i, i < f.n), f.sym[i] != s), patterns=[f.sym[i]]))))]

    def index(k):
        return lambda c: pre(c) + [('index of a variable', And(1 <= c.arg(k), c.arg(k) <= Fac(c.this).n))]

    def value(c):
        f = Fac(c.this)
        v = out(c, 2)
        return [('the value is reported as a symbol', v.type == 2),
                ('the value of the variable in the thread is reported', v.t.f[''].f['symbol'] == STRING(TEXT(
                    f.val[c.arg(0)][c.arg(1) - 1])))]

    def skipped(f, a, b):
        """No variable from a up to b is reported."""
        i = z3.Int('i')
        return And(a <= b, z3.ForAll([i], z3.Implies(And(a <= i, i < b), TYPE(f.sym[i]) == NUMBER), patterns=[f.sym[i]]))

    def following(c):
        f = Fac(c.this)
        a, b = inp(c, 1), out(c, 1)
        return [('the next variable is found', z3.Implies(c.rval, And(a < b, b <= f.n, skipped(f, a, b - 1), TYPE(f.sym[b - 1]) != NUMBER))),
                ('no variable is left out', z3.Implies(Not(c.rval), And(a <= b, b >= f.n, z3.Implies(a <= f.n, b == f.n), skipped(f, a, b)))),
                ('one more variable is reported', z3.Implies(a <= f.n, CNT(f.sym, b) == CNT(f.sym, a) + z3.If(c.rval, 1, 0)))]

    def walk(L):
        f = Fac(L.this)
        a, b = L.eval_(L.f._args[1].path), L.val(L.f._args[1].path)
        return [('position', And(0 <= a, a <= b, z3.Implies(a <= f.n, b <= f.n))), ('only numbers are skipped', skipped(f, a, b)),
                ('nothing is reported so far', z3.Implies(a <= f.n, CNT(f.sym, b) == CNT(f.sym, a)))]

    def whint(L):
        f = Fac(L.this)
        a, b = L.eval_(L.f._args[1].path), L.val(L.f._args[1].path)
        return [cnt_step(f.sym, b)]

    def term(f, th, i):
        return FUNCTION(1, f.sym[i], STRING(TEXT(f.val[th][i])))

    def shown(f, th, n, elem, upto):
        i = z3.Int('i')
        return [('one term per variable', n == CNT(f.sym, upto)),
                ('the terms of the variables are shown in order', z3.ForAll([i], z3.Implies(And(
                    0 <= i, i < upto, TYPE(f.sym[i]) != NUMBER), And(0 <= CNT(f.sym, i), CNT(f.sym, i) < n, elem[CNT(f.sym, i)] == term(f, th, i))),
                    patterns=[f.sym[i]]))]

    def model(c):
        f, th = Fac(c.this), c.pre_st.store['$thread']
        v = c.post_st.store['$shown']
        k = z3.If(f.active, 1, 0)
        m = v.len - k
        return [('the model is extended once', c.post_st.store['$extended'] == 1)] + shown(f, th, m, v.elem, f.n) + [
            ('the objective is shown with its value', z3.Implies(f.active, v.elem[m] == FUNCTION(
                2, STRING(TEXT(f.best[th])), NUMTERM(z3.If(f.bounded[th], 1, 0))))),
            ('the propagator sees the model', Fac(c.nthis).told == f.told + 1)]

    def each(L):
        f, th = Fac(L.this), L.st.store['$thread']
        v, i = L.v('symbols').t, L.v('i')
        return [('position', And(0 <= i, i <= f.n, v.len >= 0))] + shown(f, th, v.len, v.elem, i)

    def ehint(L):
        return [cnt_step(Fac(L.this).sym, L.v('i') - 1)]

    mod = lambda k: lambda c: [c._args[k].path]
    ss = lambda c: F(c.tpath, 'ss_')
    return {
        'lookup_symbol': Contract(N + 'lookup_symbol', pre, lookup, mod(1)),
        'get_symbol': Contract(N + 'get_symbol', index(0), lambda c: [
            ('the symbol of the variable is reported', c.rval == Fac(c.this).sym[c.arg(0) - 1])]),
        'has_value': Contract(N + 'has_value', wide(1), lambda c: [('exactly the variables have values', c.rval == And(
            1 <= c.arg(1), c.arg(1) <= Fac(c.this).n))]),
        'get_value': Contract(N + 'get_value', lambda c: index(1)(c) + [('thread', c.arg(0) == c.pre_st.store['$thread'])], value,
                              lambda c: [c._args[2].path, ss(c)]),
        'next': Contract(N + 'next', lambda c: pre(c) + [('position', inp(c, 1) >= 0)], following, mod(1), loops=[
            LoopSpec(walk, hints=whint, head_hints=whint)]),
        'extend_model': Contract(N + 'extend_model', lambda c: pre(c) + [('so far', CNT(Fac(c.this).sym, z3.IntVal(0)) == 0)], model, lambda c: [
            ss(c), F(c.tpath, 'prop_', 'told'), Path('$shown', ()), Path('$extended', ())], loops=[LoopSpec(each, hints=ehint)]),
    }


def verify(gen, V):
    p = gen.program('clingo-lpx.cc')
    cfg = abstract_config(p)
    cfg.casts = 'wrap'
    cfg.models.insert(0, FacadeModels())
    cfg.shapes.insert(0, shapes(V))
    cfg.ghosts = {'$thread': lambda ex: ex.fresh(Leaf(I), 'thread'), '$extended': lambda ex: z3.IntVal(0),
                  '$shown': lambda ex: ex.fresh(Vec(Leaf(I)), 'shown')}
    cs = contracts(V)
    fs = {n: p.find('LPXPropagatorFacade<%s>::%s' % (V, n)) for n in cs}

    def setup(n):
        def go(ex, st, args):
            sh = {'lookup_symbol': (1, Leaf(I, unsigned=True)), 'next': (1, Leaf(I, unsigned=True)), 'get_value': (2, Struct('clingolpx_value', dict([
                ('type', Leaf(I)), ('', Struct('', {'symbol': Leaf(I)}))])))}.get(n)
            if sh:
                st.store['out'] = ex.fresh(sh[1], 'out')
                args[sh[0]] = PtrV(Path('out', ()), False)
            return args
        return go
    for n, c in cs.items():
        ex = Exec(p, cfg)
        if n == 'extend_model':
            cfg.contracts[fs['next'].id] = cs['next']
        gen.verify(ex, fs[n], c, setup(n))


ROOT = z3.Function('statistics_root', I, I)


class Calls:
    """Functions that only pass on what they are given: the calls are recorded."""
    WRAP = ('Clingo::Model::Model', 'Clingo::PropagateInit::PropagateInit', 'Clingo::PropagateControl::PropagateControl', 'Clingo::Assignment::Assignment')
    DONE = ('Clingo::Detail::handle_error', 'Clingo::Detail::handle_cxx_error')
    RECORDED = ('clingo_control_add', 'clingo_control_register_propagator')

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'ctor':
            if n in self.WRAP and len(e['args']) == 1:
                return lambda ex, e, st: ex.eval_any(e['args'][0], st)
            if n.startswith('Clingo::StatisticsBase<'):
                return lambda ex, e, st: ex.bind(ex.eval_list(e['args'], st), lambda st, vs: [
                    (st, self.value(ex, st, vs[0]) if len(vs) == 1 else ListV([ex.rd(st, v) for v in vs]))])
            if n.startswith('Clingo::Span<int') and len(e['args']) == 3:
                return lambda ex, e, st: ex.bind(ex.eval_list(e['args'][:2], st), lambda st, vs: [(st, ListV([ex.rd(st, v) for v in vs]))])
            if n.startswith('Propagator<'):
                return self.make
        if kind == 'call' and n in self.DONE:
            return lambda ex, e, st: ex.bind(ex.eval_list(e['args'], st), lambda st, vs: [(st, None)])
        if kind == 'call' and n == 'clingo_statistics_root':
            return self.root
        if kind == 'call' and n in self.RECORDED:
            return self.record
        if kind == 'mcall' and (n.startswith('Propagator<') or n.startswith('PropagatorFacade::')):
            return self.record
        if kind == 'mcall' and n.startswith('std::unique_ptr<PropagatorFacade') and n.endswith('::operator->'):
            return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, PtrV(o, z3.BoolVal(False)))])
        return None

    def value(self, ex, st, v):
        return ex.read(st, v) if isinstance(v, Path) else v

    def root(self, ex, e, st):
        def go(st, vs):
            ex.write(st, vs[1].path, ROOT(ex.rd(st, vs[0])))
            return [(st, st.store['$bool'])]
        return ex.bind(ex.eval_list(e['args'], st, lambda a, st: [(s, v if isinstance(v, PtrV) else ex.rd(s, v)) for s, v in ex.eval_any(a, st)]), go)

    def make(self, ex, e, st):
        def go(st, vs):
            self.note(st, 'make', None, [ex.rd(st, v) for v in vs])
            return [(st, Opq('propagator'))]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def note(self, st, n, o, vs):
        st.store['$called'] = ListV(st.store['$called'].items + [(n, o, vs)])

    def record(self, ex, e, st):
        n = e['f']['n'].split('::')[-1]

        def go(st, vs):
            o = None
            if e['k'] == 'mcall':
                o, vs = vs[0], vs[1:]
                o = o.path if isinstance(o, PtrV) else o
            r = []
            for v in vs:
                v = ex.read(st, v) if isinstance(v, Path) and isinstance(ex.read(st, v), ListV) else v if isinstance(v, (ListV, PtrV)) or isinstance(
                    v, Path) and isinstance(ex.read(st, v), (Opq, SV)) else ex.rd(st, v)
                r.append(v)
            self.note(st, n, o, r)
            t = ex.p.ty(e['t'])
            res = None
            if t.k in ('int', 'bool'):
                res = st.store['$bool'] if t.k == 'bool' else st.store['$int']
            return [(st, res)]
        es = ([e['o']] if e['k'] == 'mcall' else []) + list(e['args'])
        return ex.bind(ex.eval_list(es, st), go)


def same(ex, a, b):
    """Whether two recorded arguments are the same."""
    if isinstance(a, ListV) and isinstance(b, ListV):
        return And([same(ex, x, y) for x, y in zip(a.items, b.items)] + [z3.BoolVal(len(a.items) == len(b.items))])
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return z3.BoolVal(a.path == b.path)
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a == b
    return z3.BoolVal(a is b or (isinstance(a, Path) and a == b))


def tree(a, b):
    a, b = (x.t if isinstance(x, View) else x for x in (a, b))
    if isinstance(a, SV) and isinstance(b, SV) and a.f.keys() == b.f.keys():
        return And([tree(a.f[k], b.f[k]) for k in a.f])
    return a == b if is_z3(a) and is_z3(b) and a.sort() == b.sort() else z3.BoolVal(False)


def one_call(c, name, obj, args):
    """Exactly this call is made."""
    got = c.post_st.store['$called'].items
    if len(got) != 1 or got[0][0] != name or len(got[0][2]) != len(args):
        return z3.BoolVal(False)
    return And([same(c.ex, x, y) for x, y in zip(got[0][2], args)] + [z3.BoolVal(got[0][1] == obj)])


def calls_config(p):
    cfg = abstract_config(p)
    cfg.models.insert(0, Calls())
    opaque = lambda ex, ty: OpaqueS(ty.n) if ty.k == 'rec' and (ty.n or '').startswith((
        'Propagator<', 'clingo_propagator', 'std::unique_ptr<PropagatorFacade', 'std::basic_ostringstream', 'Clingo::StatisticsBase<', 'Clingo::Model')) else None
    cfg.shapes.insert(0, opaque)
    cfg.ghosts = {'$called': lambda ex: ListV([]), '$bool': lambda ex: ex.fresh(Leaf(B), 'result'), '$int': lambda ex: ex.fresh(Leaf(I), 'result')}
    return cfg


def verify_callbacks(gen, V):
    """clingo's callbacks reach the propagator; deciding is left to clingo without a heuristic."""
    p = gen.program('clingo-lpx.cc')
    cfg = calls_config(p)
    obj = Path('prop', ())

    def find(n):
        return [f for f in p.byname.get(n, []) if not f.rec and len(f.ps) == {'init': 2, 'propagate': 4, 'undo': 4, 'check': 2, 'decide': 5}[n]
                and 'Propagator<%s>' % V in str(f.d)]

    def setup(n):
        def go(ex, st, args):
            st.store['prop'] = Opq('propagator')
            st.store['out'] = ex.fresh(Leaf(I), 'out')
            args = list(args)
            if n == 'decide':
                args[1], args[3], args[4] = z3.Int('assignment'), PtrV(obj, False), PtrV(Path('out', ()), False)
            else:
                args[0] = z3.Int('control')
                args[-1] = PtrV(obj, False)
                if len(args) == 4:
                    args[1] = z3.Int('literals')
            return args
        return go

    def post(n):
        def go(c):
            a = c._args
            args = {'init': lambda: [a[0]], 'check': lambda: [a[0]], 'propagate': lambda: [a[0], ListV([a[1], c.arg(2)])],
                    'undo': lambda: [a[0], ListV([a[1], c.arg(2)])], 'decide': lambda: [c.arg(0), a[1], c.arg(2)]}[n]()
            r = [('the propagator is called with what clingo passes', one_call(c, n, obj, args))]
            if n == 'decide':
                r.append(('the decision of the propagator is handed to clingo', c.new(Path('out', ())) == c.post_st.store['$int']))
            if n != 'undo':
                r.append(('success is reported', c.rval))
            return r
        return go
    for n in ('init', 'propagate', 'undo', 'check', 'decide'):
        for f in find(n):
            gen.verify(Exec(p, cfg), f, Contract('%s<%s>' % (n, V), None, post(n), lambda c: [Path('$called', ()), Path('out', ())]), setup(n))

    # registration
    sel = p.enums['SelectionHeuristic']
    f = p.find('LPXPropagatorFacade<%s>::LPXPropagatorFacade' % V)

    def csetup(ex, st, args):
        return [z3.Int('control'), z3.Int('theory'), args[2]]

    def cpost(c):
        got = [x for x in c.post_st.store['$called'].items if x[0] == 'clingo_control_register_propagator']
        if len(got) != 1 or len(got[0][2]) != 4:
            return [('one propagator is registered', z3.BoolVal(False))]
        ctl, cb, data, seq = got[0][2]
        v = c.post_st.store.get(cb.path.root) if isinstance(cb, PtrV) else None
        if not isinstance(v, ListV) or len(v.items) != 5:
            raise Unsupported('callbacks')
        fn = [x.f.get('n') if isinstance(x, FnV) and isinstance(x.f, dict) else x.f.n if isinstance(x, FnV) else None for x in v.items]
        made = [x for x in c.post_st.store['$called'].items if x[0] == 'make']
        return [('the callbacks are in place', z3.BoolVal(fn[:4] == ['init', 'propagate', 'undo', 'check'] and fn[4] in ('decide', None))),
                ('decisions are only influenced with a heuristic', (c.arg(2).select != 0) == z3.BoolVal(fn[4] == 'decide')),
                ('the propagator is the one registered', z3.BoolVal(isinstance(data, PtrV) and data.path == F(c.tpath, 'prop_'))),
                ('the options reach the propagator', tree(made[0][2][0], c.arg(2)) if len(made) == 1 and len(made[0][2]) == 1 else z3.BoolVal(False)),
                ('threads are served concurrently', Not(seq)), ('the given control is used', same(c.ex, ctl, c._args[0]))]
    gen.verify(Exec(p, cfg), f, Contract('LPXPropagatorFacade<%s>::LPXPropagatorFacade' % V, None, cpost, lambda c: [
        c.tpath, Path('$called', ())]), csetup)


FORWARD = {'clingolpx_lookup_symbol': ('lookup_symbol', 3), 'clingolpx_get_symbol': ('get_symbol', 2), 'clingolpx_assignment_next': ('next', 3),
           'clingolpx_assignment_has_value': ('has_value', 3), 'clingolpx_assignment_get_value': ('get_value', 4)}


def verify_c_interface(gen):
    """The C functions pass on what they are given."""
    p = gen.program('clingo-lpx.cc')
    cfg = calls_config(p)
    ty = next(p.ty(i) for i, t in enumerate(p.types) if t.get('n') == 'clingolpx_theory')
    fac = F(Path('theory', ()), 'clingolpx')

    def setup(ex, st, args):
        st.store['theory'] = ex.fresh(ex.shape(ty), 'theory')
        args = [PtrV(Path('theory', ()), False)] + list(args[1:])
        for k in range(1, len(args)):
            if args[k] is None or isinstance(args[k], PtrV):
                st.store['out'] = ex.fresh(Leaf(I), 'out')
                args[k] = PtrV(Path('out', ()), False)
        return args

    def post(n, to):
        def go(c):
            args = [c._args[k] if isinstance(c._args[k], PtrV) else c.arg(k) for k in range(1, len(c._args))]
            r = [('the call is passed on', one_call(c, to, fac, args))]
            if c.ret is not None:
                r.append(('the result is passed on', c.rval == c.post_st.store['$bool' if c.rval.sort() == B else '$int']))
            return r
        return go
    for n, (to, k) in FORWARD.items():
        gen.verify(Exec(p, cfg), p.find(n), Contract(n, None, post(n, to), lambda c: [Path('$called', ()), Path('out', ())]), setup)
    gen.verify(Exec(p, cfg), p.find('clingolpx_assignment_begin'), Contract('clingolpx_assignment_begin', None, lambda c: [
        ('iteration starts before the first variable', c.new(Path('out', ())) == 0)], lambda c: [Path('out', ())]), setup)


def verify_model(gen):
    """Models are extended by the propagator of the theory."""
    p = gen.program('clingo-lpx.cc')
    cfg = calls_config(p)
    theory = theory_setup(p)
    gen.verify(Exec(p, cfg), p.find('clingolpx_on_model'), Contract('clingolpx_on_model', None, lambda c: [
        ('the model is passed on', one_call(c, 'extend_model', FACADE, [c._args[1]])), ('success is reported', c.rval)],
        lambda c: [Path('$called', ())]), lambda ex, st, args: theory(ex, st, args) + [z3.Int('model')])


FACADE = F(Path('theory', ()), 'clingolpx')


def theory_setup(p):
    ty = next(p.ty(i) for i, t in enumerate(p.types) if t.get('n') == 'clingolpx_theory')

    def go(ex, st, args):
        st.store['theory'] = ex.fresh(ex.shape(ty), 'theory')
        return [PtrV(Path('theory', ()), False)]
    return go


def verify_statistics(gen):
    """The statistics of the step and the accumulated ones reach the propagator as such."""
    p = gen.program('clingo-lpx.cc')
    cfg = calls_config(p)
    theory = theory_setup(p)
    step, accu = z3.Ints('step accu')
    gen.verify(Exec(p, cfg), p.find('clingolpx_on_statistics'), Contract('clingolpx_on_statistics', None, lambda c: [
        ('the statistics are passed on', one_call(c, 'on_statistics', FACADE, [ListV([step, ROOT(step)]), ListV([accu, ROOT(accu)])])),
        ('success is reported', c.rval)], lambda c: [Path('$called', ())]), lambda ex, st, args: theory(ex, st, args) + [step, accu])
    for V in ('Rational', 'RationalQ'):
        f = p.find('LPXPropagatorFacade<%s>::on_statistics' % V)
        s, a = ListV([step]), ListV([accu])

        def setup(ex, st, args):
            st.store['s'], st.store['a'] = s, a
            return [Path('s', ()), Path('a', ())]
        gen.verify(Exec(p, cfg), f, Contract('LPXPropagatorFacade<%s>::on_statistics' % V, None, lambda c: [
            ('the statistics are passed on', one_call(c, 'on_statistics', F(c.tpath, 'prop_'), [s, a]))],
            lambda c: [Path('$called', ())]), setup)


PUT = z3.Function('text_followed_by_number', I, R, I)
PUTC = z3.Function('text_followed_by_char', I, I, I)


class TextModels:
    """Writing to a stream appends numbers and characters."""

    def __call__(self, ex, e, f, kind):
        if kind != 'call' or not f['n'].endswith('operator<<') or not f.get('ps'):
            return None
        ps = [ex.p.ty(t) for t in f['ps']]
        if 'std::basic_ostream' not in str(ps[0]):
            return None
        what = ps[1].strip()
        if what.k == 'rec' and what.n != 'Rational':
            return None

        def go(st, vs):
            o, v = vs
            t = ex.rd(st, o)
            if isinstance(v, StrV):
                for ch in v.s:
                    t = PUTC(t, z3.IntVal(ord(ch)))
            elif what.k == 'rec':
                t = PUT(t, ex.rd(st, v))
            else:
                v = ex.rd(st, v)
                if not is_z3(v):
                    raise Unsupported('text')
                t = PUTC(t, v)
            ex.write(st, o, t)
            return [(st, o)]
        return lambda ex, e, st: ex.bind(ex.eval_list(e['args'], st), go)


def verify_text(gen):
    """Numbers with epsilon are written as c, c+e, c+k*e, e or k*e."""
    p = gen.program('clingo-lpx.cc')
    cfg = abstract_config(p)
    cfg.models.insert(0, TextModels())
    cfg.shapes.insert(0, lambda ex, ty: None if ty.k != 'rec' else Leaf(I) if (ty.n or '').startswith('std::basic_ostream') else Struct(
        'RationalQ', {'c_': Leaf(R), 'k_': Leaf(R)}) if ty.n == 'RationalQ' else None)
    fs = [f for f in p.byname.get('operator<<', []) if len(f.ps) == 2 and str(f.ps[1][2].strip()) == 'const RationalQ' or f.ps[1:] and f.ps[1][2].strip().n == 'RationalQ']
    if not fs:
        raise Unsupported('operator<<')

    def lit(t, s):
        for ch in s:
            t = PUTC(t, z3.IntVal(ord(ch)))
        return t

    def post(c):
        q = c.arg(1)
        t, n = c.old(c.apath(0)), c.new(c.apath(0))
        ck = NUM_PARTS(q)
        C, K = ck
        eps = lambda t: z3.If(K == 1, lit(t, 'e'), lit(PUT(t, K), '*e'))
        return [('the number is written with its epsilon part', n == z3.If(K == 0, PUT(t, C), z3.If(C == 0, eps(t), eps(lit(PUT(t, C), '+')))))]
    gen.verify(Exec(p, cfg), fs[0], Contract('operator<<(RationalQ)', None, post, lambda c: [c.apath(0)]))


def NUM_PARTS(q):
    t = q.t if isinstance(q, View) else q
    return list(t.f.values()) if isinstance(t, SV) else t


DECIMAL = z3.Function('decimal_text', I, I)       # what FLINT writes in base ten


class FlintText:
    """FLINT's text of a number, owned by a unique_ptr."""

    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'call' and n in ('fmpz_get_str', 'fmpq_get_str'):
            return self.text
        if kind == 'call' and n == 'flint_free':
            return None
        if kind == 'ctor' and n.startswith('std::unique_ptr<char'):
            return lambda ex, e, st: ex.eval_any(e['args'][0], st)
        if n.startswith('std::operator==') and 'nullptr' in str(e):
            return lambda ex, e, st: [(st, ex.fresh(Leaf(B), 'out_of_memory'))]
        if kind == 'mcall' and n.startswith('std::unique_ptr<char') and n.endswith('::get'):
            return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, ex.rd(st, o))])
        if kind == 'call' and n.endswith('operator<<') and 'std::basic_ostream' in str(ex.p.ty(f['ps'][0])):
            return self.put
        return None

    def text(self, ex, e, st):
        def go(st, vs):
            buf, base, x = vs
            ex.oblig(st, 'the text is allocated by FLINT', ex.is_null(st, buf) if hasattr(ex, 'is_null') else z3.BoolVal(
                isinstance(buf, PtrV) and buf.null is True or is_z3(buf) and z3.is_int_value(buf) and buf.as_long() == 0), 'pre')
            ex.oblig(st, 'the base is ten', ex.rd(st, base) == 10, 'pre')
            return [(st, DECIMAL(ex.rd(st, x.path)))]
        return ex.bind(ex.eval_list(e['args'], st, lambda a, st: [(s, v if isinstance(v, PtrV) else ex.rd(s, v)) for s, v in ex.eval_any(a, st)]), go)

    def put(self, ex, e, st):
        def go(st, vs):
            o = vs[0]
            ex.write(st, o, APPENDED(ex.rd(st, o), ex.rd(st, vs[1])))
            return [(st, o)]
        return ex.bind(ex.eval_list(e['args'], st), go)


def verify_flint_text(gen):
    """Integers and rationals are written as FLINT writes them in base ten."""
    p = gen.program('clingo-lpx.cc')
    cfg = abstract_config(p)
    cfg.models.insert(0, FlintText())
    cfg.shapes.insert(0, lambda ex, ty: None if ty.k != 'rec' else Leaf(I) if (ty.n or '').startswith((
        'std::basic_ostream', 'std::unique_ptr<char')) else Struct(ty.n, {'num_': Leaf(I)}) if ty.n in ('Integer', 'Rational') else None)
    for V in ('Integer', 'Rational'):
        for f in p.byname.get('operator<<', []):
            if len(f.ps) == 2 and f.ps[1][2].strip().n == V:
                gen.verify(Exec(p, cfg), f, Contract('operator<<(%s)' % V, None, lambda c: [
                    ('the text of the number is appended', c.new(c.apath(0)) == APPENDED(c.old(c.apath(0)), DECIMAL(c.arg(1).num_)))],
                    lambda c: [c.apath(0)], throws=lambda c: z3.BoolVal(True)))
