"""C14: options accept exactly the documented values and set only their target."""
from .cstr import *
from .solver import enums
from . import harness as H

PARSES = z3.Function('is_number', I, B)  # the text at an address is a number
NUMVAL = z3.Function('number_at', I, R)
ASSUMPTIONS = ['tolower is the one of the C locale',
               'the constructor of Rational accepts exactly the texts that FLINT reads as a number, and gives their value']

ENUMS = {'select': ('select', 'SelectionHeuristic', {'none': 'None', 'match': 'Match', 'conflict': 'Conflict'}),
         'propagate': ('propagate_mode', 'PropagateMode', {'none': 'None', 'changed': 'Changed', 'full': 'Full'}),
         'store': ('store_sat_assignment', 'StoreSATAssignments', {'no': 'No', 'partial': 'Partial', 'total': 'Total'})}
BOOLS = {False: ('no', 'off', '0'), True: ('yes', 'on', '1')}


class Models(CModels):
    def __call__(self, ex, e, f, kind):
        n = f['n']
        if kind == 'ctor' and n == 'Rational::Rational' and [str(ex.p.ty(t)) for t in f['ps']] == ['const char*', 'int']:
            return self.number
        if kind == 'mcall' and n == 'Rational::den':
            return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, QDEN(ex.rd(st, o)))])
        if kind == 'mcall' and n == 'Rational::canonicalize':
            return lambda ex, e, st: ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, o)])
        if kind == 'call' and n in ('clingo_options_add', 'clingo_options_add_flag'):
            return self.add
        if kind == 'call' and n == 'std::make_unique':
            return self.make
        if kind == 'mcall' and n.startswith('std::unique_ptr<PropagatorFacade') and n.endswith('::operator='):
            return self.assign
        return super().__call__(ex, e, f, kind)

    def make(self, ex, e, st):
        def go(st, vs):
            ty = [ex.p.ty(a['t']) for a in e['f']['targs'][:1]][0]
            return [(st, Opq('new', (str(ty), ex.text(ex.rd(st, vs[1])), vs[2])))]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def assign(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                v = ex.rd(st, vs[0])
                st.store['$facade'] = ListV([o, v])
                return [(st, o)]
            return ex.bind(ex.eval_list(e['args'], st), go2)
        return ex.bind(ex.eval_any(e['o'], st), go)

    def number(self, ex, e, st):
        def go(st, vs):
            a = val(ex.rd(st, vs[0]))
            base = ex.rd(st, vs[1])
            ex.oblig(st, 'numbers are read in base ten', base == 10, 'spec')
            bad = st.fork()
            bad.assume(Not(PARSES(a)))
            bad.exc = 'std::runtime_error'
            st.assume(PARSES(a))
            return [(st, NUMVAL(a)), (bad, None)]
        return ex.bind(ex.eval_list(e['args'], st), go)

    def add(self, ex, e, st):
        def go(st, vs):
            flag = e['f']['n'].endswith('_flag')
            key = ex.text(ex.rd(st, vs[2]))
            fn, data = (None, vs[4]) if flag else (vs[4], vs[5])
            data = ex.rd(st, data)
            if key is None or not isinstance(data, PtrV) or not (flag or isinstance(fn, FnV)):
                raise Unsupported('option')
            ex.registered.append((key, None if flag else fn.f['n'], data.path))
            tgt, want = TABLE.get(key, (None, None))
            ex.oblig(st, 'option %s is documented' % key, z3.BoolVal(tgt is not None), 'spec')
            if tgt is not None:
                path = Path('theory', tuple(('f', x) for x in tgt))
                ex.oblig(st, 'option %s sets its own setting' % key, z3.BoolVal(
                    data.path.root == 'theory' and data.path.acc == path.acc), 'spec')
                ex.oblig(st, 'option %s is parsed as documented' % key, z3.BoolVal(
                    want is None if flag else fn.f['n'] == want), 'spec')
            r = z3.Const(ex.name('added'), B)
            st.store['$options'] = ListV(st.store['$options'].items + [key])
            return [(st, r)]
        return ex.bind(ex.eval_list(e['args'], st), go)


# key -> (what the data pointer refers to, parser or None for a flag)
TABLE = {'strict': (('strict',), None), 'propagate-conflicts': (('options', 'propagate_conflicts'), None),
         'propagate-bounds': (('options',), 'parse_propagate'), 'objective': (('options',), 'parse_objective'),
         'select': (('options',), 'parse_select'), 'store': (('options',), 'parse_store')}


def m_of(c):
    return mem(c.pre_st)


def enum_value(p, which, m, a):
    """(accepted, value, field) of an enumeration option for the text at a."""
    field, en, tab = ENUMS[which]
    es = enums(p, en)
    v = z3.IntVal(-1)
    for s, n in tab.items():
        v = z3.If(ieq(m, a, s), z3.IntVal(es[n]), v)
    return Or([ieq(m, a, s) for s in tab]), v, field


def bool_value(m, a):
    return Or([ieq(m, a, s) for v in BOOLS.values() for s in v]), Or([ieq(m, a, s) for s in BOOLS[True]])


def objective_value(m, a):
    """(accepted, has a step, step)"""
    loc = ieq(m, a, 'local')
    pre = iprefix(m, a, 'global')
    b = a + 6
    plain = m[b] == 0
    step = m[b] == ord(',')
    eps = ieq(m, b + 1, 'e')
    num = And(PARSES(b + 1), QDEN(NUMVAL(b + 1)) != 0)
    ok = Or(loc, And(pre, Or(plain, And(step, Or(eps, num)))))
    v = z3.If(plain, z3.RealVal(0), z3.If(eps, EPS, NUMVAL(b + 1)))
    return ok, Not(loc), v


def options_after(p, which, m, a, o, n):
    """What parsing an option must do: (accepted, [formulas on o and n if accepted], target)."""
    if which == 'objective':
        ok, has, v = objective_value(m, a)
        return ok, And(n.global_objective.has == has, z3.Implies(has, n.global_objective.val == v)), 'global_objective'
    ok, v, f = enum_value(p, which, m, a)
    return ok, getattr(n, f) == v, f


def same_options(o, n, but=()):
    """Settings that do not change."""
    r = []
    for f in ('select', 'store_sat_assignment', 'propagate_mode', 'propagate_conflicts'):
        if f not in but:
            r.append(getattr(o, f) == getattr(n, f))
    if 'global_objective' not in but:
        r.append(And(o.global_objective.has == n.global_objective.has, z3.Implies(
            o.global_objective.has, o.global_objective.val == n.global_objective.val)))
    return And(r)


def parser(p, which):
    def pre(c):
        return [('a value is given', val(c._args[0]) > 0)]

    def post(c):
        m, a = m_of(c), val(c._args[0])
        path = c._args[1].path
        o, n = c.old(path), c.new(path)
        if which == 'bool':
            ok, v = bool_value(m, a)
            return [('exactly the documented values are accepted', c.rval == ok),
                    ('an accepted value is stored', z3.Implies(ok, n == v)),
                    ('a refused value changes nothing', z3.Implies(Not(ok), n == o))]
        ok, eff, f = options_after(p, which, m, a, o, n)
        return [('exactly the documented values are accepted', c.rval == ok),
                ('an accepted value is stored', z3.Implies(ok, eff)),
                ('other settings stay', same_options(o, n, (f,))),
                ('a refused value changes nothing', z3.Implies(Not(ok), same_options(o, n)))]
    return Contract('parse_' + which, pre, post, modifies=lambda c: [c._args[1].path])


def refused(c, key):
    """The error message names the key: the pointer itself or a literal with its text."""
    items = c.post_st.store['$message'].items
    m, k = m_of(c), val(c._args[1])
    r = []
    for x in items:
        if isinstance(x, PtrV):
            s = c.ex.text(x)
            r.append(eq(m, k, s) if s is not None else val(x) == k)
    return Or(r)


def configure(p):
    def pre(c):
        return [('key and value are given', And(val(c._args[1]) > 0, val(c._args[2]) > 0))]

    def post(c):
        m, k, a = m_of(c), val(c._args[1]), val(c._args[2])
        path = c._args[0].path
        o, n = c.old(path), c.new(path)
        is_ = {x: eq(m, k, x) for x in TABLE}
        r = []
        same_strict = o.strict == n.strict
        for x, (tgt, fn) in TABLE.items():
            if fn is None:
                ok, v = bool_value(m, a)
                now = n.strict if tgt == ('strict',) else n.options.propagate_conflicts
                old = o.strict if tgt == ('strict',) else o.options.propagate_conflicts
                eff, f = now == v, tgt[-1]
            else:
                ok, eff, f = options_after(p, fn[6:], m, a, o.options, n.options)
            rest = same_options(o.options, n.options, (f,))
            if f != 'strict':
                rest = And(rest, same_strict)
            r += [('%s: exactly the documented values are accepted' % x, z3.Implies(is_[x], c.rval == ok)),
                  ('%s: an accepted value is stored' % x, z3.Implies(And(is_[x], ok), eff)),
                  ('%s: other settings stay' % x, z3.Implies(is_[x], rest)),
                  ('%s: a refused value changes nothing' % x, z3.Implies(And(is_[x], Not(ok)), And(
                      same_strict, same_options(o.options, n.options))))]
        r += [('other keys are refused', z3.Implies(Not(Or(list(is_.values()))), Not(c.rval))),
              ('other keys change nothing', z3.Implies(Not(Or(list(is_.values()))), And(
                  same_strict, same_options(o.options, n.options)))),
              ('the error names the key', z3.Implies(Not(c.rval), refused(c, k)))]
        return r
    return Contract('clingolpx_configure', pre, post,
                    modifies=lambda c: [F(c._args[0].path, 'strict'), F(c._args[0].path, 'options'), Path('$message', ())])


def generate(gen):
    p = gen.program('clingo-lpx.cc')
    cfg = cconfig(p)
    cfg.models[0] = Models()
    pre, eq_ = p.find('iequals_pre', allow_none=True), p.find('iequals', allow_none=True)
    ex = CExec(p, cfg)
    for f, c in ((pre, prefix_contract()), (eq_, equal_contract())):
        if f is not None:
            gen.verify(CExec(p, cfg), f, c)
            cfg.contracts[f.id] = c

    def theory_shape(ex):
        return ex.shape(next(p.ty(i) for i, t in enumerate(p.types) if t.get('n') == 'clingolpx_theory'))

    def data(which):
        def setup(ex, st, args):
            ty = 'bool' if which == 'bool' else 'Options'
            sh = Leaf(B) if which == 'bool' else ex.shape(next(
                p.ty(i) for i, t in enumerate(p.types) if t.get('n') == 'Options' and t.get('k') == 'rec'))
            st.store['data'] = ex.fresh(sh, 'data')
            args[1] = PtrV(Path('data', ()), False)
            return args
        return setup

    def theory(ex, st, args):
        sh = theory_shape(ex)
        st.store['theory'] = ex.fresh(sh, 'theory')
        st.store['$options'] = ListV([])
        args[0] = PtrV(Path('theory', ()), False)
        return args
    for which in ('bool', 'select', 'propagate', 'store', 'objective'):
        f = p.find('parse_' + which)
        c = parser(p, which)
        gen.verify(CExec(p, cfg), f, c, data(which))
        cfg.contracts[f.id] = c
    gen.verify(CExec(p, cfg), p.find('clingolpx_configure'), configure(p), theory)

    # the command line
    ex = CExec(p, cfg)
    ex.registered = []

    def post(c):
        got = sorted(c.post_st.store['$options'].items)
        return [('every option is registered once', z3.Implies(c.rval, z3.BoolVal(got == sorted(TABLE))))]
    gen.verify(ex, p.find('clingolpx_register_options'), Contract('clingolpx_register_options', None, post, modifies=lambda c: [
        Path('$options', ())]), theory)

    def vpost(c):
        t = c.old(c._args[0].path)
        bad = And(Not(t.strict), t.options.global_objective.has, Not(ISRAT(t.options.global_objective.val)))
        return [('a step with epsilon needs strict mode', c.rval == Not(bad))]
    gen.verify(CExec(p, cfg), p.find('clingolpx_validate_options'), Contract('clingolpx_validate_options', None, vpost), theory)

    # strict mode selects numbers with epsilon and the syntax with strict relations
    def rpost(c):
        x = c.post_st.store['$facade'].items
        ok = len(x) == 2 and isinstance(x[0], Path) and x[0].root == 'theory' and isinstance(x[1], Opq) and \
            isinstance(x[1].data, tuple)
        if not ok:
            return [('a propagator is created', Not(c.rval))]
        ty, text, opts = x[1].data
        t = c.old(c._args[0].path)
        q = 'RationalQ' in ty
        syn = None if text is None else ',<,>}' in ''.join(text.split())
        return [('strict mode selects numbers with epsilon', t.strict == z3.BoolVal(q)),
                ('strict mode selects the syntax with strict relations', z3.BoolVal(True) if syn is None else t.strict == z3.BoolVal(syn)),
                ('the options are handed over', z3.BoolVal(isinstance(opts, Path) and opts.root == 'theory' and
                                                           opts.acc == (('f', 'options'),)))]

    def rtheory(ex, st, args):
        r = theory(ex, st, args)
        st.store['$facade'] = ListV([])
        return r
    gen.verify(CExec(p, cfg), p.find('clingolpx_register'), Contract('clingolpx_register', None, rpost, modifies=lambda c: [
        Path('$facade', ())]), rtheory)


def harness(scratch, seed, tier, failed, incomplete):
    return H.end_to_end(scratch, 'C14', seed, tier)
