"""Meaning of the standard library pieces used by the code (trusted)."""
import z3
from .core import *


def split_name(n):
    """'std::vector<int>::size' -> ('std::vector', 'size')"""
    depth, cut = 0, []
    i = 0
    op = n.find('::operator')
    while i < len(n):
        c = n[i]
        if op >= 0 and i >= op + 2:
            break
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == ':' and depth == 0 and n[i:i + 2] == '::':
            cut.append(i)
            i += 1
        i += 1
    if op >= 0:
        cut = [x for x in cut if x <= op]
        if op not in cut:
            cut.append(op)
    if not cut:
        return '', n.split('<')[0] if not n.startswith('operator') else n
    cls, m = n[:cut[-1]], n[cut[-1] + 2:]
    base = cls.split('<')[0]
    if not m.startswith('operator'):
        m = m.split('<')[0]
    elif m.startswith('operator') and m[8:9].isalpha() is False:
        # strip template arguments of operator templates
        pass
    return base, m


ITER = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator')


def same_path(p, q):
    if p.root != q.root or len(p.acc) != len(q.acc):
        return False
    for (k, a), (l, b) in zip(p.acc, q.acc):
        if k != l:
            return False
        if k == 'f':
            if a != b:
                return False
        elif not (a is b or a.eq(b)):
            return False
    return True


class StdModels:
    def __init__(self):
        self.fresh_arrays = 0

    def __call__(self, ex, e, f, kind):
        n = f['n']
        cls, m = split_name(n)
        if kind == 'ctor':
            if not n.startswith(('std::', '__gnu_cxx::', 'Clingo::')):
                return None
            h = getattr(self, 'c_' + cls.replace('std::', '').replace('__gnu_cxx::', ''), None)
            return h
        if kind == 'mcall':
            if cls in ('std::vector', 'std::deque', 'std::initializer_list', 'std::_Vector_base'):
                return self.method('v_', m)
            if cls in ITER or cls.endswith('_iterator'):
                return self.method('i_', m)
            if cls == 'std::optional' or cls.startswith('std::_Optional'):
                return self.method('o_', m)
            if cls in ('std::pair', 'std::tuple') and m == 'operator=':
                return self.assign
            if cls.startswith('std::priority_queue') or cls == 'std::priority_queue':
                return None
            return None
        if kind == 'call':
            if n.startswith('std::') or n.startswith('__gnu_cxx::') or n == '__assert_fail':
                if cls == 'std::numeric_limits':
                    return self.f_numeric_limits
                return self.method('f_', m)
        return None

    OPS = {'operator[]': 'index', 'operator*': 'deref', 'operator->': 'arrow', 'operator++': 'inc', 'operator--': 'dec',
           'operator+': 'plus', 'operator-': 'minus', 'operator+=': 'pluseq', 'operator-=': 'minuseq',
           'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le',
           'operator>=': 'ge', 'operator=': 'assign', 'operator bool': 'bool', 'operator<<': 'shl'}

    def method(self, pre, m):
        m = self.OPS.get(m, m)
        return getattr(self, pre + m, None)

    # ---- helpers
    @staticmethod
    def obj(ex, e, st, fn):
        """Evaluate the object of a member call to a path."""
        def go(st, o):
            if e.get('arrow'):
                o = ex.deref(st, ex.rd(st, o, ex.p.ty(e['o']['t'])))
            if isinstance(o, RefV):
                o = o.path
            if not isinstance(o, Path):
                o = ex.new_root(st, 'tmp', ex.materialize(st, o, ex.p.ty(e['o']['t'])))
            v = ex.read(st, o)
            if isinstance(v, RefV):
                o = v.path
            return fn(st, o)
        return ex.bind(ex.eval_any(e['o'], st), go)

    @staticmethod
    def args(ex, e, st, fn):
        return ex.bind(ex.eval_list(e['args'], st), fn)

    def elem_shape(self, ex, e):
        return ex.shape(ex.p.ty(e['o']['t']).strip()).elem

    # ---- functions
    def f_move(self, ex, e, st):
        if len(e['args']) != 1:
            raise Unsupported('std::move of ranges')
        return ex.eval_any(e['args'][0], st)
    f_forward = f_as_const = f_move

    def f_swap(self, ex, e, st):
        def go(st, vs):
            a, b = vs
            x, y = ex.read(st, a), ex.read(st, b)
            ex.write(st, a, y)
            ex.write(st, b, x)
            return [(st, None)]
        return self.args(ex, e, st, go)

    def f_iter_swap(self, ex, e, st):
        def go(st, vs):
            a, b = (ex.deref(st, ex.rd(st, v)) for v in vs)
            x, y = ex.read(st, a), ex.read(st, b)
            ex.write(st, a, y)
            ex.write(st, b, x)
            return [(st, None)]
        return self.args(ex, e, st, go)

    def f_exchange(self, ex, e, st):
        def go(st, vs):
            x = ex.read(st, vs[0])
            ex.write(st, vs[0], ex.rd(st, vs[1]))
            return [(st, x)]
        return self.args(ex, e, st, go)

    def f___assert_fail(self, ex, e, st):
        ex.oblig(st, 'assertion cannot fail', z3.BoolVal(False), 'assert')
        st.exc = 'assert'
        return [(st, None)]

    def f_terminate(self, ex, e, st):
        ex.oblig(st, 'terminate is not reached', z3.BoolVal(False), 'assert')
        st.exc = 'terminate'
        return [(st, None)]
    f_abort = f_unreachable = f_terminate

    def f_min(self, ex, e, st):
        def go(st, vs):
            x, y = (ex.rd(st, v) for v in vs)
            return [(st, z3.If(y < x, y, x))]
        return self.args(ex, e, st, go) if len(e['args']) == 2 else self.limits(ex, e, st, 'min')

    def f_max(self, ex, e, st):
        def go(st, vs):
            x, y = (ex.rd(st, v) for v in vs)
            return [(st, z3.If(x < y, y, x))]
        return self.args(ex, e, st, go) if len(e['args']) == 2 else self.limits(ex, e, st, 'max')

    def limits(self, ex, e, st, which):
        raise Unsupported('min/max')

    def f_numeric_limits(self, ex, e, st):
        ty = ex.p.ty(e['t'])
        w, s = ty.d['w'], ty.d['s']
        m = e['f']['n'].rsplit('::', 1)[1]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return [(st, z3.IntVal(lo if m in ('min', 'lowest') else hi))]

    def f_make_pair(self, ex, e, st):
        sh = ex.shape(ex.p.ty(e['t']))
        return self.args(ex, e, st, lambda st, vs: [(st, SV(sh.name, {
            k: ex.materialize(st, ex.rd(st, v), t) for k, v, t in zip(('first', 'second'), vs, ex.p.ty(e['t']).args)}))])

    def f_make_tuple(self, ex, e, st):
        sh = ex.shape(ex.p.ty(e['t']))
        return self.args(ex, e, st, lambda st, vs: [(st, SV(sh.name, {
            '_%d' % i: ex.materialize(st, ex.rd(st, v), t) for i, (v, t) in enumerate(zip(vs, ex.p.ty(e['t']).args))}))])

    def f_forward_as_tuple(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, ListV(vs))])
    f_tie = f_forward_as_tuple

    def f_get(self, ex, e, st):
        ty = ex.p.ty(e['args'][0]['t']).strip()
        ta = e['f'].get('targs') or [{}]
        if 'v' not in ta[0]:
            raise Unsupported('std::get by type')
        i = int(ta[0]['v'])
        name = ('first', 'second')[i] if ty.q == 'std::pair' else '_%d' % i

        def go(st, vs):
            v = vs[0]
            if isinstance(v, Path):
                return [(st, F(v, name))]
            return [(st, v.f[name])]
        return self.args(ex, e, st, go)

    def assign(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                x = ex.rd(st, vs[0])
                if isinstance(vs[0], Path) and ex.p.ty(e['f']['ps'][0]).d.get('rv'):
                    ex.moved(st, vs[0], x, None)
                ex.write(st, o, x)
                return [(st, o)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)
    v_assign = i_assign = assign

    # ---- vectors
    def v_size(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, ex.read(st, o).len)])

    def v_empty(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, ex.read(st, o).len == 0)])

    def v_capacity(self, ex, e, st):
        raise Unsupported('capacity')

    def v_index(self, ex, e, st, exc=False):
        def go(st, o):
            def go2(st, vs):
                i = ex.rd(st, vs[0], ex.p.ty(e['args'][0]['t']))
                n = ex.read(st, o).len
                if exc:
                    x = st.fork()
                    x.assume(z3.Or(i < 0, i >= n))
                    st.assume(i >= 0, i < n)
                    x.exc = 'std::out_of_range'
                    return [(st, AT(o, i)), (x, None)]
                if ex.cfg.check_bounds:
                    g = z3.simplify(And(i >= 0, i < n))
                    if not z3.is_true(g):
                        ex.oblig(st, 'index is in range', g, 'safety')
                        st.assume(g)
                return [(st, AT(o, i))]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def v_at(self, ex, e, st):
        return self.v_index(ex, e, st, True)

    def nonempty(self, ex, st, n):
        if ex.cfg.check_bounds:
            g = z3.simplify(n > 0)
            if not z3.is_true(g):
                ex.oblig(st, 'container is not empty', g, 'safety')
                st.assume(g)

    def v_front(self, ex, e, st):
        def go(st, o):
            self.nonempty(ex, st, ex.read(st, o).len)
            return [(st, AT(o, z3.IntVal(0)))]
        return self.obj(ex, e, st, go)

    def v_back(self, ex, e, st):
        def go(st, o):
            n = ex.read(st, o).len
            self.nonempty(ex, st, n)
            return [(st, AT(o, z3.simplify(n - 1)))]
        return self.obj(ex, e, st, go)

    def v_data(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, PtrV(AT(o, z3.IntVal(0)), False))])

    def v_begin(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, IterV(o, z3.IntVal(0)))])
    v_cbegin = v_begin

    def v_end(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, IterV(o, ex.read(st, o).len))])
    v_cend = v_end

    def v_rbegin(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, IterV(o, ex.read(st, o).len, 'rvec'))])

    def v_rend(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, IterV(o, z3.IntVal(0), 'rvec'))])

    def v_clear(self, ex, e, st):
        def go(st, o):
            ex.write(st, o, VV(z3.IntVal(0), ex.read(st, o).elem))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    def v_reserve(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: self.args(ex, e, st, lambda st, vs: [(st, None)]))
    v_shrink_to_fit = v_reserve

    def v_pop_back(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            self.nonempty(ex, st, v.len)
            ex.write(st, o, VV(z3.simplify(v.len - 1), v.elem))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    def make(self, ex, st, ty, vs):
        """[(state, value)]: an object of type ty constructed from vs."""
        sh = ex.shape(ty)
        if len(vs) == 1:
            x = ex.rd(st, vs[0], ty if ty.k in ('ptr', 'int') else None)
            if isinstance(sh, (Leaf, PtrS)) and (is_z3(x) or isinstance(x, (PtrV, bool))):
                return [(st, ex.materialize(st, x, ty))]
            if isinstance(sh, Struct) and isinstance(x, SV) and x.name == sh.name:
                return [(st, x)]
            if isinstance(sh, Vec) and isinstance(x, VV):
                return [(st, x)]
            if isinstance(sh, OpaqueS):
                return [(st, x)]
        if not vs:
            for fn in ex.p.funcs:
                if fn.is_ctor and fn.rec == ty.n and not fn.ps and not fn.dflt:
                    return ex.construct(st, fn, [], ty)
            fn = [x for x in ex.p.funcs if x.is_ctor and x.rec == ty.n and not x.ps]
            if fn:
                return ex.construct(st, fn[0], [], ty)
            return [(st, ex.default(sh))]
        if ty.k == 'rec' and ty.q in ('std::pair', 'std::tuple'):
            names = ('first', 'second') if ty.q == 'std::pair' else ['_%d' % i for i in range(len(ty.args))]
            if len(names) == len(vs):
                cur = [(st, {})]
                for nm, t, v in zip(names, ty.args, vs):
                    nxt = []
                    for s, d in cur:
                        for s2, x in self.make(ex, s, t, [v]):
                            nxt.append((s2, {**d, nm: x}))
                    cur = nxt
                return [(s, SV(sh.name, d)) for s, d in cur]
        if ty.k == 'rec':
            cs = [x for x in ex.p.funcs if x.is_ctor and x.rec == ty.n and len(x.ps) == len(vs) and not x.dflt]
            if len(cs) > 1:
                cs = [x for x in cs if all(self.fits(ex, st, t, v) for (_, _, t), v in zip(x.ps, vs))] or cs
            if len(cs) >= 1:
                return ex.construct(st, cs[0], vs, ty)
            h = getattr(ex.cfg, 'make', None)
            if h:
                r = h(ex, st, ty, vs)
                if r is not None:
                    return r
        raise Unsupported('construction of %s from %d values' % (ty, len(vs)))

    def fits(self, ex, st, t, v):
        sh = ex.shape(t)
        x = ex.rd(st, v)
        if isinstance(sh, Leaf):
            return is_z3(x) and x.sort() == sh.sort
        if isinstance(sh, Struct):
            return isinstance(x, SV) and x.name == sh.name
        return True

    def v_emplace_back(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                ty = self.elem_type(ex, e)

                def put(st, x):
                    v = ex.read(st, o)
                    n = v.len
                    if not isinstance(x, (SV, VV)) and not is_z3(x):
                        if isinstance(x, Opq):
                            ex.write(st, o, VV(z3.simplify(n + 1), v.elem))
                            return [(st, AT(o, n))]
                        raise Unsupported('emplace_back of %r' % (x,))
                    ex.write(st, o, VV(z3.simplify(n + 1), tstore(v.elem, n, x)))
                    return [(st, AT(o, n))]
                if len(vs) == 1 and isinstance(vs[0], Path) and self.is_rv(ex, e, 0):
                    x = ex.read(st, vs[0])
                    r = self.make(ex, st, ty, [x] if isinstance(x, (SV, VV)) else vs)
                    for s2, _ in r:
                        if s2.exc is None and isinstance(x, (SV, VV)):
                            ex.moved(s2, vs[0], x, None)
                    return ex.bind(r, put)
                return ex.bind(self.make(ex, st, ty, vs), put)
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)
    v_push_back = v_emplace_back

    def is_rv(self, ex, e, i):
        ps = e['f'].get('ps', [])
        return i < len(ps) and ex.p.ty(ps[i]).isref and ex.p.ty(ps[i]).d.get('rv') and \
            e['args'][i].get('k') == 'call' and e['args'][i]['f']['n'].startswith('std::move')

    def elem_type(self, ex, e):
        return ex.p.ty(e['o']['t']).strip().args[0] if ex.p.ty(e['o']['t']).strip().k == 'rec' else \
            ex.p.ty(e['o']['t']).strip().to.args[0]

    def v_resize(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                n = ex.rd(st, vs[0])
                v = ex.read(st, o)
                ty = self.elem_type(ex, e)
                if len(vs) > 1:
                    ds = [(st, ex.rd(st, vs[1]))]
                else:
                    ds = self.make(ex, st, ty, [])
                out = []
                for s2, d in ds:
                    grow = z3.simplify(n <= v.len)
                    if z3.is_true(grow) or not ex.feasible(s2, n > v.len):
                        ex.write(s2, o, VV(n, v.elem))
                    else:
                        new = ex.fresh_like(v.elem, 'resized')
                        k = z3.Int('k!r')
                        for (ln, a), (_, b), (_, c) in zip(leaves(v.elem), leaves(new), leaves_or(d, v.elem)):
                            if is_z3(a):
                                body = [z3.Implies(k < v.len, b[k] == a[k])]
                                if c is not None and is_z3(c):
                                    body.append(z3.Implies(k >= v.len, b[k] == c))
                                s2.assume(z3.ForAll([k], z3.And(body), patterns=[b[k]]))
                        ex.write(s2, o, VV(n, new))
                    out.append((s2, None))
                return out
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def v_swap(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                x, y = ex.read(st, o), ex.read(st, vs[0])
                ex.write(st, o, y)
                ex.write(st, vs[0], x)
                return [(st, None)]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def v_insert(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                if len(vs) != 2:
                    return self.insert_range(ex, e, st, o, vs)
                it = ex.rd(st, vs[0])
                v = ex.read(st, o)
                if ex.cfg.check_bounds:
                    ex.oblig(st, 'insert position is in range', And(it.idx >= 0, it.idx <= v.len), 'safety')
                out = []
                for s2, x in self.make(ex, st, self.elem_type(ex, e), [vs[1]]):
                    self.do_insert(ex, s2, o, it.idx, x)
                    out.append((s2, IterV(o, it.idx)))
                return out
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def insert_range(self, ex, e, st, o, vs):
        """At the end of a vector of numbers."""
        it, a, b = (ex.rd(st, x) for x in vs)
        v = ex.read(st, o)
        if not (all(isinstance(x, IterV) for x in (it, a, b)) and a.path == b.path and a.path != o and is_z3(v.elem) and v.len.eq(it.idx)):
            raise Unsupported('insert of a range')
        w = ex.read(st, a.path)
        n = z3.simplify(b.idx - a.idx)
        if ex.cfg.check_bounds:
            ex.oblig(st, 'inserted range is in range', And(a.idx >= 0, a.idx <= b.idx, b.idx <= w.len), 'safety')
        st.assume(n >= 0)
        new = ex.fresh_like(v, 'inserted').elem
        k = z3.Int('k!r')
        st.assume(z3.ForAll([k], z3.Implies(k < v.len, new[k] == v.elem[k]), patterns=[new[k]]),
                  z3.ForAll([k], z3.Implies(And(a.idx <= k, k < b.idx), new[v.len + (k - a.idx)] == w.elem[k]), patterns=[w.elem[k]]),
                  z3.ForAll([k], z3.Implies(And(k >= v.len, k < v.len + n), new[k] == w.elem[k - v.len + a.idx]), patterns=[new[k]]))
        ex.write(st, o, VV(z3.simplify(v.len + n), new))
        return [(st, IterV(o, it.idx))]

    def v_emplace(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                it = ex.rd(st, vs[0])
                v = ex.read(st, o)
                if ex.cfg.check_bounds:
                    ex.oblig(st, 'insert position is in range', And(it.idx >= 0, it.idx <= v.len), 'safety')
                out = []
                for s2, x in self.make(ex, st, self.elem_type(ex, e), vs[1:]):
                    self.do_insert(ex, s2, o, it.idx, x)
                    out.append((s2, IterV(o, it.idx)))
                return out
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def do_insert(self, ex, st, o, pos, x):
        v = ex.read(st, o)
        new = ex.fresh_like(v.elem, 'inserted')
        self.shift_facts(ex, st, v.elem, new, pos, 1)
        for (_, b), (_, c) in zip(leaves(new), leaves_or(x, v.elem)):
            if is_z3(b):
                if c is not None and b.sort().range() == R and c.sort() == I:
                    c = z3.ToReal(c)
                st.assume(b[pos] == c)
        ex.write(st, o, VV(z3.simplify(v.len + 1), new))

    def shift_facts(self, ex, st, small, big, pos, w):
        """big is small with w elements inserted at pos. The positions are
        related by functions, so that instantiation ends."""
        up = z3.Function(ex.name('up'), I, I)
        dn = z3.Function(ex.name('down'), I, I)
        k = z3.Int('k!s')
        for (_, a), (_, b) in zip(leaves(small), leaves(big)):
            if is_z3(a):
                st.assume(z3.ForAll([k], b[up(k)] == a[k], patterns=[a[k]]))
                st.assume(z3.ForAll([k], z3.Implies(Or(k < pos, k >= pos + w), b[k] == a[dn(k)]), patterns=[b[k]]))
        st.assume(z3.ForAll([k], And(up(k) == z3.If(k < pos, k, k + w), dn(up(k)) == k), patterns=[up(k)]))
        st.assume(z3.ForAll([k], And(dn(k) == z3.If(k < pos, k, z3.If(k < pos + w, pos, k - w)),
                                     z3.Implies(Or(k < pos, k >= pos + w), up(dn(k)) == k)), patterns=[dn(k)]))

    def v_erase(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                v = ex.read(st, o)
                it = ex.rd(st, vs[0])
                if len(vs) == 2:
                    last = ex.rd(st, vs[1]).idx
                    w = z3.simplify(last - it.idx)
                    g = And(it.idx >= 0, it.idx <= last, last <= v.len)
                else:
                    w = z3.IntVal(1)
                    g = And(it.idx >= 0, it.idx < v.len)
                if ex.cfg.check_bounds:
                    ex.oblig(st, 'erased range is in range', g, 'safety')
                    st.assume(g)
                if len(vs) == 2 and z3.is_true(z3.simplify(last == v.len)):
                    ex.write(st, o, VV(it.idx, v.elem))
                    return [(st, IterV(o, it.idx))]
                new = ex.fresh_like(v.elem, 'erased')
                self.shift_facts(ex, st, new, v.elem, it.idx, w)
                ex.write(st, o, VV(z3.simplify(v.len - w), new))
                return [(st, IterV(o, it.idx))]
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    # ---- iterators
    def i_deref(self, ex, e, st):
        def go(st, o):
            it = ex.rd(st, o)
            return [(st, self.at(ex, st, it))]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def at(self, ex, st, it):
        if not isinstance(it, IterV):
            return ex.deref(st, it)
        if it.kind == 'map':
            has, val = ex.read(st, F(it.path, 'has')), ex.read(st, F(it.path, 'val'))
            ex.oblig(st, 'iterator is dereferenceable', has[it.idx], 'safety')
            st.assume(has[it.idx])
            return ex.new_root(st, 'mapnode', SV('node', {'first': it.idx, 'second': val[it.idx]}))
        i = it.idx if it.kind != 'rvec' else z3.simplify(it.idx - 1)
        if ex.cfg.check_bounds:
            n = ex.read(st, it.path).len
            g = z3.simplify(And(i >= 0, i < n))
            if not z3.is_true(g):
                ex.oblig(st, 'iterator is dereferenceable', g, 'safety')
                st.assume(g)
        return AT(it.path, i)

    def i_arrow(self, ex, e, st):
        def go(st, o):
            return [(st, PtrV(self.at(ex, st, ex.rd(st, o)), False))]
        return ex.bind(ex.eval_any(e['o'], st), go)

    def step(self, ex, it, d):
        return ex.ptr_add(None, it, -d if isinstance(it, IterV) and it.kind == 'rvec' else d)

    def i_inc(self, ex, e, st, d=1):
        def go(st, o):
            it = ex.rd(st, o)
            ex.write(st, o, self.step(ex, it, d))
            return [(st, it if e['args'] else o)]
        return self.obj_raw(ex, e, st, go)

    def obj_raw(self, ex, e, st, go):
        def go2(st, o):
            if not isinstance(o, Path):
                o = ex.new_root(st, 'it', o)
            return go(st, o)
        return ex.bind(ex.eval_any(e['o'], st), go2)

    def i_dec(self, ex, e, st):
        return self.i_inc(ex, e, st, -1)

    def i_plus(self, ex, e, st, sgn=1):
        def go(st, o):
            def go2(st, vs):
                it, n = ex.rd(st, o), ex.rd(st, vs[0])
                if isinstance(n, IterV):
                    return [(st, it.idx - n.idx if it.kind != 'rvec' else n.idx - it.idx)]
                return [(st, self.step(ex, it, sgn * n))]
            return self.args(ex, e, st, go2)
        return self.obj_raw(ex, e, st, go)

    def i_minus(self, ex, e, st):
        return self.i_plus(ex, e, st, -1)

    def i_pluseq(self, ex, e, st, sgn=1):
        def go(st, o):
            def go2(st, vs):
                ex.write(st, o, self.step(ex, ex.rd(st, o), sgn * ex.rd(st, vs[0])))
                return [(st, o)]
            return self.args(ex, e, st, go2)
        return self.obj_raw(ex, e, st, go)

    def i_minuseq(self, ex, e, st):
        return self.i_pluseq(ex, e, st, -1)

    def i_base(self, ex, e, st):
        return ex.bind(ex.eval_any(e['o'], st), lambda st, o: [(st, IterV(ex.rd(st, o).path, ex.rd(st, o).idx))])

    def c___normal_iterator(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, ex.rd(st, vs[0]))])
    c_reverse_iterator = c___normal_iterator

    def f_cmp(self, ex, e, st, op):
        def go(st, vs):
            a, b = (ex.rd(st, v, ex.p.ty(x['t'])) for v, x in zip(vs, e['args']))
            if isinstance(a, (IterV, PtrV)) or isinstance(b, (IterV, PtrV)):
                if isinstance(a, IterV) and a.kind == 'rvec':
                    a, b = b, a
                return [(st, ex.ptr_op(st, op, a, b))]
            if isinstance(a, SV) and isinstance(b, SV) and 'has' in a.f and op in ('==', '!='):
                r = And(a.f['has'] == b.f['has'], Or(Not(a.f['has']), And(teq(a.f['val'], b.f['val']))))
                return [(st, r if op == '==' else Not(r))]
            if isinstance(a, SV) and isinstance(b, SV) and op in ('==', '!='):
                h = getattr(ex.cfg, 'struct_eq', None)
                r = h(ex, a, b) if h else And(teq(a, b))
                return [(st, r if op == '==' else Not(r))]
            h = getattr(ex.cfg, 'lib_cmp', None)
            if h:
                r = h(ex, st, op, a, b)
                if r is not None:
                    return [(st, r)]
            raise Unsupported('comparison of %r and %r' % (a, b))
        return self.args(ex, e, st, go)

    def f_eq(self, ex, e, st): return self.f_cmp(ex, e, st, '==')
    def f_ne(self, ex, e, st): return self.f_cmp(ex, e, st, '!=')
    def f_lt(self, ex, e, st): return self.f_cmp(ex, e, st, '<')
    def f_le(self, ex, e, st): return self.f_cmp(ex, e, st, '<=')
    def f_gt(self, ex, e, st): return self.f_cmp(ex, e, st, '>')
    def f_ge(self, ex, e, st): return self.f_cmp(ex, e, st, '>=')

    # ---- algorithms
    def less(self, ex, st, a, b, ta, tb, what):
        """a < b for an element and a value (paths or values), by the operator the code has for it."""
        if is_z3(a) and is_z3(b):
            return a < b
        names = [t.strip().n for t in (ta, tb)]
        if ta.strip().k == 'int' and tb.strip().k == 'int':
            return ex.rd(st, a) < ex.rd(st, b)
        for f in ex.p.funcs:
            if f.s == 'operator<' and f.rec is None and len(f.ps) == 2 and \
                    [t.strip().n if t.strip().k == 'rec' else t.strip().k for _, _, t in f.ps] == \
                    [t.strip().n if t.strip().k == 'rec' else t.strip().k for t in (ta, tb)]:
                n = len(st.pc)
                r = ex.call(st, f, None, [a, b])
                if len(r) != 1 or r[0][0].exc is not None:
                    raise Unsupported(what + ' with branching comparison')
                return r[0][1]
        raise Unsupported('%s over %s' % (what, names))

    def it_elem(self, ex, e, i):
        return ex.p.ty(e['args'][i]['t']).strip()

    def f_lower_bound(self, ex, e, st):
        """Binary search: the result separates the elements less than the value."""
        def go(st, vs):
            if len(vs) != 3:
                raise Unsupported('lower_bound with comparison')
            a, b = ex.rd(st, vs[0]), ex.rd(st, vs[1])
            if not isinstance(a, IterV) or not same_path(a.path, b.path) or a.kind == 'rvec':
                raise Unsupported('lower_bound over %r' % (a,))
            r = ex.fresh_int('lb')
            ta = self.vec_elem_type(ex, e)
            tb = ex.p.ty(e['args'][2]['t'])
            if not tb.strip().k:
                raise Unsupported('lower_bound type')
            n = ex.read(st, a.path).len
            ex.oblig(st, 'searched range is valid', And(0 <= a.idx, a.idx <= b.idx, b.idx <= n), 'safety')
            st.assume(a.idx <= r, r <= b.idx)
            hi = self.less(ex, st, AT(a.path, r), vs[2], ta, tb, 'lower_bound')
            lo = self.less(ex, st, AT(a.path, r - 1), vs[2], ta, tb, 'lower_bound')
            st.assume(z3.Implies(r < b.idx, Not(hi)), z3.Implies(r > a.idx, lo))
            return [(st, IterV(a.path, r))]
        return self.args(ex, e, st, go)

    def vec_elem_type(self, ex, e):
        t = ex.p.ty(e['args'][0]['t']).strip()
        # __normal_iterator<T *, vector<T>>
        t = t.args[0]
        return t.to

    def f_back_inserter(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, Opq('back_inserter', vs[0]))])

    def f_set_union(self, ex, e, st):
        """Union of two strictly sorted ranges of integers appended to an empty vector."""
        def go(st, vs):
            if len(vs) != 5:
                raise Unsupported('set_union with comparison')
            a, b, c, d = (ex.rd(st, v) for v in vs[:4])
            out = ex.rd(st, vs[4])
            if not isinstance(out, Opq) or out.name != 'back_inserter':
                raise Unsupported('set_union output')
            A, C = ex.read(st, a.path).elem, ex.read(st, c.path).elem
            o = ex.read(st, out.data)
            if not (is_z3(A) and is_z3(C)):
                raise Unsupported('set_union of structures')
            x, y = z3.Ints('x!u y!u')
            srt = lambda E, l, h: z3.ForAll([x, y], z3.Implies(And(l <= x, x < y, y < h), E[x] < E[y]),
                                            patterns=[z3.MultiPattern(E[x], E[y])])
            for E, l, h, p, n in ((A, a.idx, b.idx, a.path, 'first'), (C, c.idx, d.idx, c.path, 'second')):
                ex.oblig(st, '%s range of set_union is valid' % n, And(0 <= l, l <= h, h <= ex.read(st, p).len), 'safety')
                ex.oblig(st, '%s range of set_union is strictly sorted' % n, srt(E, l, h), 'safety')
                st.assume(srt(E, l, h))
            ex.oblig(st, 'output of set_union is empty', o.len == 0, 'safety')
            U = z3.Const(ex.name('union'), z3.ArraySort(I, I))
            n = ex.fresh_int('union.len')
            fa = z3.Function(ex.name('ufrom'), I, I)
            f1 = z3.Function(ex.name('upos1'), I, I)
            f2 = z3.Function(ex.name('upos2'), I, I)
            st.assume(n >= 0, srt(U, z3.IntVal(0), n),
                      z3.ForAll([x], z3.Implies(And(0 <= x, x < n), Or(
                          And(a.idx <= fa(x), fa(x) < b.idx, A[fa(x)] == U[x]),
                          And(c.idx <= fa(x), fa(x) < d.idx, C[fa(x)] == U[x]))), patterns=[U[x]]),
                      z3.ForAll([x], z3.Implies(And(a.idx <= x, x < b.idx),
                                                And(0 <= f1(x), f1(x) < n, U[f1(x)] == A[x])), patterns=[A[x]]),
                      z3.ForAll([x], z3.Implies(And(c.idx <= x, x < d.idx),
                                                And(0 <= f2(x), f2(x) < n, U[f2(x)] == C[x])), patterns=[C[x]]))
            ex.write(st, out.data, VV(n, U))
            return [(st, out)]
        return self.args(ex, e, st, go)

    def f_next(self, ex, e, st, d=1):
        def go(st, vs):
            it = ex.rd(st, vs[0])
            n = ex.rd(st, vs[1]) if len(vs) > 1 else z3.IntVal(1)
            return [(st, self.step(ex, it, d * n))]
        return self.args(ex, e, st, go)

    def f_prev(self, ex, e, st):
        return self.f_next(ex, e, st, -1)

    def f_distance(self, ex, e, st):
        def go(st, vs):
            a, b = (ex.rd(st, v) for v in vs)
            return [(st, ex.ptr_op(st, '-', b, a))]
        return self.args(ex, e, st, go)

    def f_begin(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, IterV(vs[0], z3.IntVal(0)))])

    def f_end(self, ex, e, st):
        return self.args(ex, e, st, lambda st, vs: [(st, IterV(vs[0], ex.read(st, vs[0]).len))])

    # ---- pairs, tuples, vectors, optionals
    def c_pair(self, ex, e, st):
        ty = ex.p.ty(e['t'])

        def go(st, vs):
            if len(vs) == 1:
                v = ex.rd(st, vs[0])
                if e['f'].get('ck') == 'move' and isinstance(vs[0], Path):
                    ex.moved(st, vs[0], v, ty)
                return [(st, v)]
            return self.make(ex, st, ty, vs)
        return self.args(ex, e, st, go)
    c_tuple = c_pair

    def c_vector(self, ex, e, st):
        ty = ex.p.ty(e['t'])
        sh = ex.shape(ty)

        def go(st, vs):
            if not vs:
                return [(st, ex.default(sh))]
            x = ex.rd(st, vs[0])
            if isinstance(x, VV):
                rv = ex.p.ty(e['f']['ps'][0]).d.get('rv')
                if rv and isinstance(vs[0], Path):
                    ex.moved(st, vs[0], x, ty)
                return [(st, x)]
            if isinstance(x, ListV):
                return [(st, ex.vec_from_list(ListV([ex.rd(st, i) for i in x.items]), sh))]
            if is_z3(x) and len(vs) <= 2:
                d = ex.rd(st, vs[1]) if len(vs) == 2 else ex.default(sh.elem)
                arr = ex.fresh(sh.elem, 'filled', 1)
                k = z3.Int('k!c')
                for (_, b), (_, c) in zip(leaves(arr), leaves_or(d, arr)):
                    if is_z3(b) and c is not None:
                        st.assume(z3.ForAll([k], b[k] == c, patterns=[b[k]]))
                return [(st, VV(x, arr))]
            raise Unsupported('vector constructor')
        return self.args(ex, e, st, go)
    c_deque = c_vector

    def c_nullopt_t(self, ex, e, st):
        return [(st, Opq('nullopt'))]

    def opt_val(self, ex, st, ty, v, src):
        """optional of type ty made from value v: [(state, value)]"""
        sh = ex.shape(ty)
        if isinstance(v, Opq) and 'nullopt' in v.name:
            return [(st, ex.default(sh))]
        if isinstance(v, SV) and v.name == sh.name:
            return [(st, v)]
        return [(s2, SV(sh.name, {'has': z3.BoolVal(True), 'val': x}))
                for s2, x in self.make(ex, st, ty.args[0], [src])]

    def c_optional(self, ex, e, st):
        ty = ex.p.ty(e['t'])

        def go(st, vs):
            if not vs:
                return [(st, ex.default(ex.shape(ty)))]
            return self.opt_val(ex, st, ty, ex.rd(st, vs[0]), vs[0])
        return self.args(ex, e, st, go)

    def o_assign(self, ex, e, st):
        def go(st, o):
            def go2(st, vs):
                ty = ex.p.ty(e['o']['t']).strip()
                out = []
                for s2, x in self.opt_val(ex, st, ty, ex.rd(st, vs[0]), vs[0]):
                    ex.write(s2, o, x)
                    out.append((s2, o))
                return out
            return self.args(ex, e, st, go2)
        return self.obj(ex, e, st, go)

    def o_has_value(self, ex, e, st):
        return self.obj(ex, e, st, lambda st, o: [(st, ex.read(st, o).f['has'])])
    o_bool = o_has_value

    def o_deref(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            g = z3.simplify(v.f['has'])
            if not z3.is_true(g):
                ex.oblig(st, 'optional has a value', g, 'safety')
                st.assume(g)
            return [(st, F(o, 'val'))]
        return self.obj(ex, e, st, go)

    def o_arrow(self, ex, e, st):
        return ex.bind(self.o_deref(ex, e, st), lambda st, p: [(st, PtrV(p, False))])

    def o_value(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            out = []
            for s2, b in ex.split(st, v.f['has']):
                if b:
                    out.append((s2, F(o, 'val')))
                else:
                    s2.exc = 'std::bad_optional_access'
                    out.append((s2, None))
            return out
        return self.obj(ex, e, st, go)

    def o_reset(self, ex, e, st):
        def go(st, o):
            v = ex.read(st, o)
            ex.write(st, o, SV(v.name, {'has': z3.BoolVal(False), 'val': v.f['val']}))
            return [(st, None)]
        return self.obj(ex, e, st, go)

    # ---- exceptions
    def c_runtime_error(self, ex, e, st):
        return ex.bind(ex.eval_list(e['args'], st), lambda st, vs: [(st, Opq('std::runtime_error'))])
    c_logic_error = c_invalid_argument = c_range_error = c_runtime_error

    def c_bad_alloc(self, ex, e, st):
        return [(st, Opq('std::bad_alloc'))]


def leaves_or(v, like):
    """Leaves of v in the order of the leaves of `like` (None where unknown)."""
    if v is None or isinstance(v, Opq):
        return [(n, None) for n, _ in leaves(like)]
    return list(leaves(v))
