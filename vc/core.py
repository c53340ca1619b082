"""Contract based verification of the extracted C++ functions.

Symbolic execution over the extracted syntax trees generates verification
conditions; functions with a contract are used through their contract, loops
through their invariants, everything else of the repository is inlined.
"""
import json, os, re
import z3
from collections import namedtuple
from .prog import Ty, Func

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# Names and types of the local variables at the time the contracts were
# written: a renamed variable is found as the new name of a known type.
_LOCALS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'locals.json')
LOCALS = json.load(open(_LOCALS)) if os.path.exists(_LOCALS) else {}
RECORD = {} if os.environ.get('VERIF_LOCALS') else None
INTS = ('unsigned int', 'int', 'unsigned long', 'long', 'size_t', 'unsigned long long', 'long long', 'unsigned', 'uint32_t')


def tykey(t):
    t = t.replace('const ', '').rstrip('&').strip()
    return 'int' if t in INTS else t


class Unsupported(Exception):
    """The code left the subset the verifier understands (not a verdict)."""


Path = namedtuple('Path', 'root acc')


def F(p, *names):
    return Path(p.root, p.acc + tuple(('f', n) for n in names))


def AT(p, i):
    return Path(p.root, p.acc + (('i', i),))


# ---------------------------------------------------------------- shapes

class Shape:
    pass


class Leaf(Shape):
    def __init__(self, sort, tag=None, unsigned=None):
        self.sort, self.tag, self.unsigned = sort, tag, unsigned

    def __repr__(self):
        return 'Leaf(%s%s)' % (self.sort, ',' + self.tag if self.tag else '')


class Struct(Shape):
    def __init__(self, name, fields):
        self.name, self._f = name, fields

    @property
    def fields(self):
        if callable(self._f):
            self._f = self._f()
        return self._f

    def __repr__(self):
        return 'Struct(%s)' % self.name


class Vec(Shape):
    def __init__(self, elem):
        self._e = elem

    @property
    def elem(self):
        if callable(self._e):
            self._e = self._e()
        return self._e

    def __repr__(self):
        return 'Vec(%r)' % self.elem


class PtrS(Shape):
    """Pointer into a region of objects, represented by an integer id (0: null)."""

    def __init__(self, region, tail=()):
        self.region, self.tail = region, tail


class OpaqueS(Shape):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name


# ---------------------------------------------------------------- values

class SV:
    __slots__ = ('f', 'name')

    def __init__(self, name, f):
        self.f, self.name = f, name

    def __repr__(self):
        return '%s%s' % (self.name, self.f)


class VV:
    __slots__ = ('len', 'elem')

    def __init__(self, ln, elem):
        self.len, self.elem = ln, elem

    def __repr__(self):
        return 'VV(%s)' % self.len


class PtrV:
    __slots__ = ('path', 'null')

    def __init__(self, path, null):
        self.path, self.null = path, null

    def __repr__(self):
        return 'PtrV(%s,%s)' % (self.path, self.null)


NULL = PtrV(None, True)


class IterV:
    __slots__ = ('path', 'idx', 'kind')

    def __init__(self, path, idx, kind='vec'):
        self.path, self.idx, self.kind = path, idx, kind


class Closure:
    __slots__ = ('fids', 'env', 'this')

    def __init__(self, fids, env, this):
        self.fids, self.env, self.this = fids, env, this


class Opq:
    """A value without structure."""
    __slots__ = ('name', 'data')

    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return 'Opq(%s)' % self.name


class RefV:
    """A reference stored in an object (reference member)."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class StrV:
    """A string literal."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class ListV:
    """A braced initializer list / argument pack of values (python list)."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def tmap(fn, t):
    if isinstance(t, SV):
        return SV(t.name, {k: tmap(fn, v) for k, v in t.f.items()})
    if isinstance(t, VV):
        return VV(fn(t.len), tmap(fn, t.elem))
    if is_z3(t):
        return fn(t)
    return t


def tselect(t, i):
    if is_z3(i) is False:
        i = z3.IntVal(i)
    return tmap(lambda a: simp_select(a, i), t)


def simp_select(a, i):
    # read over write for syntactically equal or distinct numeral indices
    while z3.is_store(a):
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_const_array(a):
        return a.arg(0)
    return z3.Select(a, i)


def tstore(t, i, v):
    if isinstance(t, SV):
        if not isinstance(v, SV):
            raise Unsupported('store of non struct')
        return SV(t.name, {k: tstore(x, i, v.f[k]) for k, x in t.f.items()})
    if isinstance(t, VV):
        return VV(store_leaf(t.len, i, v.len), tstore(t.elem, i, v.elem))
    if is_z3(t):
        return store_leaf(t, i, v)
    return t


def store_leaf(a, i, v):
    if not is_z3(v):
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        elif isinstance(v, int):
            v = z3.IntVal(v)
        else:
            raise Unsupported('store of %r' % (v,))
    if z3.is_select(v) and v.arg(0).eq(a) and v.arg(1).eq(i):
        return a
    rs = a.sort().range()
    if rs == R and v.sort() == I:
        v = z3.ToReal(v)
    return z3.Store(a, i, v)


def leaves(t, pre=''):
    if isinstance(t, SV):
        for k, v in t.f.items():
            yield from leaves(v, pre + '.' + k)
    elif isinstance(t, VV):
        yield pre + '.#', t.len
        yield from leaves(t.elem, pre + '[]')
    else:
        yield pre, t


def teq(a, b):
    """Conjuncts stating equality of two values (arrays compared as wholes)."""
    la, lb = list(leaves(a)), list(leaves(b))
    if len(la) != len(lb):
        raise Unsupported('comparison of different shapes')
    r = []
    for (n, x), (m, y) in zip(la, lb):
        if is_z3(x) and is_z3(y):
            if not x.eq(y):
                r.append(x == y)
        elif x is not y:
            raise Unsupported('comparison of opaque values at ' + n)
    return r


def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    if not xs:
        return z3.BoolVal(False)
    return z3.Or(xs) if len(xs) > 1 else xs[0]


def as_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    return z3.Not(x)


_hq = {}


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is None:
        seen = set()
        stack = [e]
        r = False
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                r = True
                break
            stack.extend(x.children())
        _hq[k] = (r, e)
        return r
    return r[0]


class View:
    """Convenient access to value trees in contracts."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __getattr__(self, n):
        t = self.t
        if isinstance(t, SV):
            if n in t.f:
                return view(t.f[n])
            raise Unsupported('no field %s in %s' % (n, t.name))
        if isinstance(t, VV) and n == 'len':
            return t.len
        if isinstance(t, VV) and n == 'elem':
            return view(t.elem)
        raise Unsupported('no field %s in %r' % (n, t))

    def __getitem__(self, i):
        t = self.t
        if isinstance(t, VV):
            return view(tselect(t.elem, i if is_z3(i) else z3.IntVal(i)))
        raise Unsupported('index into %r' % (t,))


def view(t):
    if isinstance(t, (SV, VV)):
        return View(t)
    return t


class State:
    __slots__ = ('store', 'env', 'pc', 'exc', 'this', 'depth', 'tags')

    def __init__(self):
        self.store, self.env, self.pc, self.exc, self.this = {}, {}, [], None, None
        self.depth = 0
        self.tags = ()

    def fork(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.pc = list(self.pc)
        s.exc, s.this, s.depth, s.tags = self.exc, self.this, self.depth, self.tags
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif isinstance(f, bool):
                if not f:
                    self.pc.append(z3.BoolVal(False))
            elif not z3.is_true(f):
                self.pc.append(f)


class Obl:
    __slots__ = ('fn', 'label', 'hyps', 'goal', 'kind', 'line', 'status', 'info', 'time', 'backend', 'hints')

    def __init__(self, fn, label, hyps, goal, kind, line):
        self.fn, self.label, self.hyps, self.goal, self.kind, self.line = fn, label, hyps, goal, kind, line
        self.status = None
        self.info = ''
        self.time = 0.0
        self.backend = ''
        self.hints = []


class Contract:
    """Contract of a function.

    pre(c)      -> list of (label, formula)
    post(c)     -> list of (label, formula) or (label, formula, [extra hypotheses])
    modifies(c) -> list of Path prefixes the function may change
    result(c)   -> value or Path (optional: functional result; else fresh)
    throws      -> None (never), or c -> condition under which it may throw
    loops       -> list of loop specifications (LoopSpec or None)
    """

    def __init__(self, name, pre=None, post=None, modifies=None, result=None, throws=None, loops=(), ghost=None,
                 trusted=False, lemmas=None, xpost=None, resets=None):
        self.name = name
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.result = result
        self.throws = throws
        self.loops = list(loops)
        self.ghost = ghost
        self.trusted = trusted
        self.lemmas = lemmas
        self.xpost = xpost


MARK = z3.Function('mark', I, B)


def mark(*ts):
    """Mention integer terms, so that quantified facts are instantiated for them."""
    return [MARK(t) for t in ts]


class Lemma:
    """hyps imply goal for all values of vars; proved once (Gen.prove), used
    through instances or as a quantified fact."""
    all = {}

    def __init__(self, name, vars, hyps, goal, axioms=()):
        self.name, self.vars, self.hyps, self.goal, self.axioms = name, list(vars), list(hyps), goal, axioms
        Lemma.all[name] = self
        self.f = z3.Implies(And(self.hyps), goal) if self.hyps else goal

    def at(self, *ts):
        ts = [z3.IntVal(t) if isinstance(t, int) else t for t in ts]
        assert len(ts) == len(self.vars)
        return z3.substitute(self.f, *[(v, t) for v, t in zip(self.vars, ts)])

    def goal_at(self, *ts):
        """The conclusion for ts, whose hypotheses are definitions."""
        return z3.substitute(self.goal, *zip(self.vars, ts))

    def forall(self, *pats):
        return z3.ForAll(self.vars, self.f, patterns=list(pats))


class LoopSpec:
    """inv(L) -> list of (label, formula); step(L) -> obligations relating the
    state before (L.bi) and after (L) one iteration; hints(L): instances of
    proved lemmas that may be assumed at the end of an iteration."""

    def __init__(self, inv=None, step=None, hints=None, exit_hints=None, entry_hints=None, skip_frame=(), head_hints=None):
        self.inv = inv or (lambda L: [])
        self.step = step
        self.hints = hints
        self.exit_hints = exit_hints
        self.entry_hints = entry_hints
        self.skip_frame = skip_frame
        self.head_hints = head_hints


class Ctx:
    """What a contract sees."""

    def __init__(self, ex, func, this, args, pre, post=None, ret=None):
        self.ex, self.func, self._this, self._args, self.pre_st, self.post_st = ex, func, this, args, pre, post
        self.ret = ret

    def _v(self, st, x):
        if isinstance(x, Path):
            return view(self.ex.read(st, x))
        return view(x)

    # value of the arguments and of *this before and after
    def arg(self, i):
        return self._v(self.pre_st, self._args[i])

    def narg(self, i):
        return self._v(self.post_st, self._args[i])

    def apath(self, i):
        return self._args[i]

    @property
    def tpath(self):
        return self._this

    @property
    def this(self):
        return self._v(self.pre_st, self._this)

    @property
    def nthis(self):
        return self._v(self.post_st, self._this)

    @property
    def rval(self):
        return self._v(self.post_st, self.ret)

    def old(self, p):
        return self._v(self.pre_st, p)

    def new(self, p):
        return self._v(self.post_st, p)


class Config:
    """Abstractions and models used for a module."""

    def __init__(self):
        self.shapes = []      # list of fn(ex, ty) -> Shape | None
        self.models = []      # list of fn(ex, node, fref) -> handler | None
        self.contracts = {}   # function id -> Contract
        self.opaque_calls = set()
        self.casts = 'math'
        self.check_bounds = True
        self.check_wrap = True
        self.ptr_regions = {}  # type string of pointee -> (region, tail)
        self.moved_from = 'fresh'
        self.no_inline = set()
        self.globals = {}
        self.loop_keys = {}
        self.max_paths = 4000


class LoopCtx:
    """What a loop invariant sees."""

    def __init__(self, ex, st, fctx, entry, pos, func, node, bi=None, over=None):
        self.ex, self.st, self.f, self.entry, self._pos, self.func, self.node, self.bi = \
            ex, st, fctx, entry, pos, func, node, bi
        self.over = over            # what a range loop ranges over
        self.mods = ()              # the roots of what the loop changes

    @property
    def pos(self):
        return self._pos(self.st) if callable(self._pos) else self._pos

    @property
    def iter(self):
        """The iterator the loop advances."""
        raw = getattr(self._pos, 'raw', None)
        v = raw and raw(self.st)
        return v if isinstance(v, IterV) else None

    @property
    def entry_pos(self):
        """The loop position at loop entry."""
        return self._pos(self.entry)

    def v(self, *names, **kw):
        """Current value of a local variable given by (alternative) names."""
        return view(self.ex.read(self.st, self.lv(*names, **kw)))

    def lv(self, *names, ty=None, n=0):
        p = self.ex.find_local(self.st, names, ty, n, self.mods)
        if p is None:
            raise Unsupported('no local variable %s' % (names,))
        return p

    def ev(self, *names, **kw):
        """Value at loop entry."""
        return view(self.ex.read(self.entry, self.ex.find_local(self.entry, names, kw.get('ty'), kw.get('n', 0))))

    def val(self, p):
        return view(self.ex.read(self.st, p))

    def eval_(self, p):
        return view(self.ex.read(self.entry, p))

    @property
    def this(self):
        return view(self.ex.read(self.st, self.f.tpath))

    @property
    def ethis(self):
        return view(self.ex.read(self.entry, self.f.tpath))


def nodes(x):
    """The nodes of a syntax tree."""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


class Exec:
    def __init__(self, prog, cfg):
        self.p, self.cfg = prog, cfg
        self.loops = []            # the loops around the current statement
        self.n = 0
        self.obls = []
        self.rec = None            # set of recorded writes during discovery
        self.quiet = 0
        self.cur = None            # name of the function being verified
        self.cur_ctx = None
        self.cur_contract = None
        self.loop_no = {}
        self.line = 0
        self.shape_cache = {}
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.varinfo = {}
        self.top = ''
        self.paths = 0
        self.axioms = []

    # ------------------------------------------------------------ basics
    def name(self, s):
        self.n += 1
        return '%s!%d' % (s, self.n)

    def fresh_int(self, s='k'):
        return z3.Int(self.name(s))

    def oblig(self, st, label, goal, kind='spec', extra=None):
        if self.quiet:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        hints = []
        for h in extra or []:
            if callable(h):
                # hints about the arbitrary values of a universal goal
                goal, vs = self.skolemize(goal)
                h = h(*vs)
            hints += h if isinstance(h, (list, tuple)) else [h]
        o = Obl(self.cur, label, list(st.pc), goal, kind, self.line)
        o.hints = hints
        self.obls.append(o)

    def skolemize(self, goal):
        if not (z3.is_quantifier(goal) and goal.is_forall()):
            return goal, getattr(self, '_skolems', [])
        vs = [z3.Const(self.name('sk.' + goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        self._skolems = vs
        return z3.substitute_vars(goal.body(), *reversed(vs)), vs

    # ------------------------------------------------------------ shapes
    def shape(self, ty):
        ty = ty.strip()
        s = self.shape_cache.get(ty.id)
        if s is None:
            s = self._shape(ty)
            self.shape_cache[ty.id] = s
        return s

    def _shape(self, ty):
        for fn in self.cfg.shapes:
            s = fn(self, ty)
            if s is not None:
                return s
        k = ty.k
        if k == 'bool':
            return Leaf(B)
        if k == 'int':
            return Leaf(I, unsigned=None if ty.d['s'] else ty.d['w'])
        if k == 'enum':
            return Leaf(I, tag='enum')
        if k == 'ptr':
            nm = str(ty.to).replace('const ', '')
            if nm in self.cfg.ptr_regions:
                r, tail = self.cfg.ptr_regions[nm]
                return PtrS(r, tail)
            return OpaqueS('ptr')
        if k == 'rec':
            q = ty.q
            a = ty.args
            if q in ('std::vector', 'std::deque'):
                return Vec(lambda: self.shape(a[0]))
            if q == 'std::pair':
                return Struct(ty.n, lambda: {'first': self.shape(a[0]), 'second': self.shape(a[1])})
            if q == 'std::tuple':
                return Struct(ty.n, lambda: {'_%d' % i: self.shape(x) for i, x in enumerate(a)})
            if q == 'std::optional':
                return Struct(ty.n, lambda: {'has': Leaf(B), 'val': self.shape(a[0])})
            fs = self.p.record_fields(ty.n)
            if fs is not None and not ty.d.get('lambda'):
                return Struct(ty.n, lambda: {n: (OpaqueS('ref') if t.isref else self.shape(t)) for n, t in fs})
        return OpaqueS(ty.n or k or '?')

    def fresh(self, shape, name, depth=0):
        if isinstance(shape, Leaf):
            s = shape.sort
            for _ in range(depth):
                s = z3.ArraySort(I, s)
            return z3.Const(self.name(name), s)
        if isinstance(shape, PtrS):
            s = I
            for _ in range(depth):
                s = z3.ArraySort(I, s)
            return z3.Const(self.name(name), s)
        if isinstance(shape, Struct):
            return SV(shape.name, {k: self.fresh(s, name + '.' + k, depth) for k, s in shape.fields.items()})
        if isinstance(shape, Vec):
            s = I
            for _ in range(depth):
                s = z3.ArraySort(I, s)
            return VV(z3.Const(self.name(name + '.len'), s), self.fresh(shape.elem, name, depth + 1))
        return Opq(self.name(name))

    def fresh_facts(self, shape, v):
        """Facts about a fresh value at depth 0 that hold by typing."""
        if isinstance(shape, Leaf):
            if shape.unsigned and is_z3(v):
                return [v >= 0]
            return []
        if isinstance(shape, PtrS):
            return [v >= 0]
        if isinstance(shape, Struct) and isinstance(v, SV):
            r = []
            for k, s in shape.fields.items():
                r += self.fresh_facts(s, v.f[k])
            return r
        if isinstance(shape, Vec) and isinstance(v, VV):
            return [v.len >= 0]
        return []

    def default(self, shape, name='dflt'):
        """Value-initialized value."""
        if isinstance(shape, Leaf):
            if shape.sort == I:
                return z3.IntVal(0)
            if shape.sort == R:
                return z3.RealVal(0)
            if shape.sort == B:
                return z3.BoolVal(False)
            return z3.Const(self.name(name), shape.sort)
        if isinstance(shape, PtrS):
            return z3.IntVal(0)
        if isinstance(shape, Struct):
            return SV(shape.name, {k: self.default(s, name + '.' + k) for k, s in shape.fields.items()})
        if isinstance(shape, Vec):
            return VV(z3.IntVal(0), self.fresh(shape.elem, name, 1))
        return Opq(name)

    def new_root(self, st, name, val):
        r = self.name(name)
        st.store[r] = val
        return Path(r, ())

    # ------------------------------------------------------------ memory
    def read(self, st, p):
        if p.root not in st.store:
            raise Unsupported('read of unknown object ' + str(p.root))
        t = st.store[p.root]
        for i, (k, a) in enumerate(p.acc):
            if isinstance(t, RefV):
                return self.read(st, Path(t.path.root, t.path.acc + p.acc[i:]))
            if k == 'f':
                if isinstance(t, SV):
                    if a not in t.f:
                        raise Unsupported('no field %s in %s' % (a, t.name))
                    t = t.f[a]
                else:
                    raise Unsupported('field %s of %r' % (a, t))
            else:
                if isinstance(t, VV):
                    t = tselect(t.elem, a)
                elif is_z3(t) and z3.is_array(t):
                    t = simp_select(t, a)
                else:
                    raise Unsupported('index into %r' % (t,))
        return t

    def write(self, st, p, v):
        if str(p.root).startswith('mapnode'):
            raise Unsupported('assignment to an element of a map')
        if str(p.root).startswith('readonly'):
            raise Unsupported('assignment to the numerator or denominator of a number')
        if p.root not in st.store:
            raise Unsupported('write to unknown object ' + str(p.root))
        if self.rec is not None:
            self.rec.append(p)
        st.store[p.root] = self._write(st, st.store[p.root], p.acc, v, p)

    def _write(self, st, t, acc, v, p):
        if not acc:
            return self.coerce(v, t)
        k, a = acc[0]
        if isinstance(t, RefV):
            self.write(st, Path(t.path.root, t.path.acc + acc), v)
            return t
        if k == 'f':
            if not isinstance(t, SV) or a not in t.f:
                raise Unsupported('write to field %s of %r' % (a, t))
            f = dict(t.f)
            f[a] = self._write(st, f[a], acc[1:], v, p)
            return SV(t.name, f)
        if isinstance(t, VV):
            sub = tselect(t.elem, a)
            sub2 = self._write(st, sub, acc[1:], v, p)
            return VV(t.len, self._store_changed(t.elem, a, sub, sub2))
        if is_z3(t) and z3.is_array(t):
            sub = simp_select(t, a)
            return store_leaf(t, a, self._write(st, sub, acc[1:], v, p))
        raise Unsupported('write into %r' % (t,))

    def _store_changed(self, t, i, old, new):
        if old is new:
            return t
        if isinstance(t, SV):
            if not isinstance(new, SV):
                raise Unsupported('store of non struct')
            return SV(t.name, {k: self._store_changed(x, i, old.f[k], new.f[k]) for k, x in t.f.items()})
        if isinstance(t, VV):
            return VV(self._store_changed(t.len, i, old.len, new.len),
                      self._store_changed(t.elem, i, old.elem, new.elem))
        if is_z3(t):
            return store_leaf(t, i, new)
        return t

    def coerce(self, v, like):
        """Make v fit the representation of the value it replaces."""
        if isinstance(v, PtrV) and is_z3(like):
            return self.ptr_id(v)
        if is_z3(like) and is_z3(v) and like.sort() != v.sort():
            if like.sort() == R and v.sort() == I:
                return z3.ToReal(v)
            if like.sort() == B and v.sort() == I:
                return v != 0
            if like.sort() == I and v.sort() == B:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            raise Unsupported('sort mismatch %s vs %s' % (like.sort(), v.sort()))
        if isinstance(v, bool) and is_z3(like):
            return z3.BoolVal(v)
        return v

    def ptr_id(self, v):
        if v.null is True:
            return z3.IntVal(0)
        if v.path is None or len(v.path.acc) < 1 or v.path.acc[0][0] != 'i' or \
                not str(v.path.root).startswith('@'):
            raise Unsupported('pointer does not point into a region: %r' % (v,))
        i = v.path.acc[0][1]
        if v.null is False or (is_z3(v.null) and v.null.eq(i == 0)):
            return i
        return z3.If(v.null, z3.IntVal(0), i)

    def ptr_from_id(self, sh, x):
        return PtrV(Path('@' + sh.region, (('i', x),) + tuple(('f', t) for t in sh.tail)), x == 0)

    def load(self, st, p, ty):
        v = self.read(st, p)
        return self.loaded(st, v, ty)

    def loaded(self, st, v, ty):
        if isinstance(v, RefV):
            v = self.read(st, v.path)
        if ty is not None:
            k = ty.k
            if k == 'ptr' and is_z3(v):
                sh = self.shape(ty)
                if isinstance(sh, PtrS):
                    st.assume(v >= 0)
                    return self.ptr_from_id(sh, v)
            if k == 'int' and is_z3(v) and v.sort() == I and not ty.d['s'] and not z3.is_int_value(v):
                st.assume(v >= 0)
        return v

    def havoc(self, st, p, shape=None, name='h'):
        """Replace the value at p by an arbitrary one of the same form."""
        old = self.read(st, p)
        new = self.fresh_like(old, name)
        self.write(st, p, new)
        if isinstance(new, VV):
            if is_z3(new.len) and new.len.sort() == I:
                st.assume(new.len >= 0)
        elif isinstance(new, SV):
            for n, l in leaves(new):
                if n.endswith('.#') and is_z3(l) and l.sort() == I:
                    st.assume(l >= 0)

    def fresh_like(self, t, name):
        if isinstance(t, SV):
            return SV(t.name, {k: self.fresh_like(v, name + '.' + k) for k, v in t.f.items()})
        if isinstance(t, VV):
            return VV(self.fresh_like(t.len, name + '.len'), self.fresh_like(t.elem, name))
        if is_z3(t):
            return z3.Const(self.name(name), t.sort())
        if isinstance(t, IterV):
            return IterV(t.path, self.fresh_int(name + '.it'), t.kind)
        if isinstance(t, PtrV):
            if t.path is not None and str(t.path.root).startswith('@'):
                i = self.fresh_int(name + '.ptr')
                return PtrV(Path(t.path.root, (('i', i),) + t.path.acc[1:]), i == 0)
            if t.path is not None and t.path.acc and t.path.acc[-1][0] == 'i':
                return PtrV(AT(Path(t.path.root, t.path.acc[:-1]), self.fresh_int(name + '.ptr')), t.null)
            raise Unsupported('havoc of pointer')
        if isinstance(t, (Closure, RefV, FnV, StrV)):
            return t
        if isinstance(t, Opq):
            return Opq(self.name(name))
        raise Unsupported('havoc of %r' % (t,))

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, cond=None):
        s = z3.Solver()
        s.set('timeout', 300)
        for f in self.axioms:
            pass
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        if cond is not None:
            s.add(cond)
        return s.check() != z3.unsat

    def split(self, st, cond):
        """[(state, truth value)] for both outcomes of cond."""
        if isinstance(cond, bool):
            return [(st, cond)]
        cond = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        r = []
        t = self.feasible(st, cond)
        f = self.feasible(st, z3.Not(cond))
        if t:
            a = st.fork() if f else st
            a.assume(cond)
            r.append((a, True))
        if f:
            st.assume(z3.Not(cond))
            r.append((st, False))
        self.paths += len(r) - 1
        if self.paths > self.cfg.max_paths:
            raise Unsupported('too many paths')
        return r

    # ------------------------------------------------------------ locals
    def find_local(self, st, names, ty=None, n=0, mods=()):
        """Local variable by name; if renamed, the n-th in scope of the type."""
        best = None
        for vid, p in st.env.items():
            nm, t, order = self.varinfo.get(vid, ('', '', 0))
            if nm in names and (best is None or order > best[1]):
                best = (p, order)
        if best is not None:
            return best[0]
        if ty is not None:
            c = sorted((self.varinfo[vid][2], p) for vid, p in st.env.items()
                       if vid in self.varinfo and ty(self.varinfo[vid][1]))
            if n < len(c):
                return c[n][1]
        # a renamed variable: one whose name was unknown, with a type the
        # names in question had (a wrong guess can only fail a proof)
        known = LOCALS.get(self.top, {})
        want = {t for nm in names for t in known.get(nm, ())}
        c = sorted((self.varinfo[vid][2], p) for vid, p in st.env.items()
                   if vid in self.varinfo and self.varinfo[vid][0] not in known and tykey(self.varinfo[vid][1]) in {tykey(t) for t in want})
        # the variable a loop invariant speaks of is likely one the loop changes
        c = [x for x in c if x[1].root in mods] or c
        if c:
            return c[0][1]
        return None

    # ------------------------------------------------------------ statements
    # outcomes: ('n'|'b'|'c'|'r'|'x', state, value)
    def stmt(self, s, st):
        if 'l' in s:
            self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s %s' % (s['k'], s.get('c', '')))
        return m(s, st)

    def s_null(self, s, st):
        return [('n', st, None)]

    def s_block(self, s, st):
        return self.seq(s['b'], st)

    def seq(self, stmts, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(x, c):
                    if o[0] == 'n':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = nxt
            if not cur:
                break
        return out + [('n', c, None) for c in cur]

    def outs(self, rs):
        """Outcomes of expression results whose value is dropped."""
        return [('x' if st.exc is not None else 'n', st, None) for st, _ in rs]

    def bind(self, rs, fn):
        out = []
        for st, v in rs:
            if st.exc is not None:
                out.append((st, None))
            else:
                out += fn(st, v)
        return out

    def sbind(self, rs, fn):
        out = []
        for st, v in rs:
            if st.exc is not None:
                out.append(('x', st, None))
            else:
                out += fn(st, v)
        return out

    def s_expr(self, s, st):
        return self.outs(self.eval_any(s['e'], st))

    def s_decl(self, s, st):
        cur = [st]
        out = []
        for d in s['d']:
            nxt = []
            for c in cur:
                for o in self.vardecl(d, c):
                    (nxt.append(o[1]) if o[0] == 'n' else out.append(o))
            cur = nxt
        return out + [('n', c, None) for c in cur]

    def reg_var(self, d):
        self.reg_name(d['id'], d['n'], str(self.p.ty(d['t'])))

    def reg_name(self, id, n, ty):
        if id not in self.varinfo:
            self.varinfo[id] = (n, ty, len(self.varinfo))
            if RECORD is not None and n:
                RECORD.setdefault(self.top, {}).setdefault(n, [])
                if ty not in RECORD[self.top][n]:
                    RECORD[self.top][n].append(ty)

    def vardecl(self, d, st):
        if d.get('k') == 'unk':
            raise Unsupported('declaration ' + d.get('c', ''))
        ty = self.p.ty(d['t'])
        self.reg_var(d)
        if d.get('static'):
            return self.static_var(d, st, ty)

        def done(st, v):
            if ty.isref:
                if not isinstance(v, Path):
                    v = self.new_root(st, d['n'] or 'tmp', v)
                st.env[d['id']] = v
            else:
                if isinstance(v, Path):
                    v = self.read(st, v)
                v = self.materialize(st, v, ty)
                st.env[d['id']] = self.new_root(st, d['n'] or 'tmp', v)
            return self.binds(d, st)
        if 'init' not in d:
            return done(st, self.fresh(self.shape(ty), d['n']))
        return self.sbind(self.eval_any(d['init'], st), done)

    def static_var(self, d, st, ty):
        # a constant initialized once: every call sees the initial value
        # (trusted: nothing changes it in between)
        if 'init' not in d:
            raise Unsupported('static local variable')

        def done(st, v):
            if isinstance(v, Path):
                v = self.read(st, v)
            st.env[d['id']] = self.new_root(st, d['n'], self.materialize(st, v, ty))
            return [('n', st, None)]
        return self.sbind(self.eval_any(d['init'], st), done)

    def materialize(self, st, v, ty):
        """Bring a value into the representation of its type."""
        sh = self.shape(ty)
        if isinstance(v, PtrV) and isinstance(sh, PtrS):
            return self.ptr_id(v)
        if isinstance(v, ListV) and isinstance(sh, Vec):
            return self.vec_from_list(v, sh)
        if is_z3(v) and isinstance(sh, Leaf) and v.sort() != sh.sort:
            return self.coerce(v, z3.Const('x', sh.sort))
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return v

    def vec_from_list(self, lv, sh):
        a = self.fresh(sh.elem, 'il', 1)
        for i, x in enumerate(lv.items):
            a = tstore(a, z3.IntVal(i), x)
        return VV(z3.IntVal(len(lv.items)), a)

    def binds(self, d, st):
        if 'binds' not in d:
            return [('n', st, None)]
        cur = [st]
        for b in d['binds']:
            nxt = []
            self.reg_var(b)
            for c in cur:
                if 'hold' in b:
                    for o in self.vardecl(b['hold'], c):
                        if o[0] != 'n':
                            raise Unsupported('structured binding throws')
                        o[1].env[b['id']] = o[1].env[b['hold']['id']]
                        nxt.append(o[1])
                else:
                    for c2, p in self.eval_any(b['e'], c):
                        c2.env[b['id']] = p if isinstance(p, Path) else self.new_root(c2, b['n'], p)
                        nxt.append(c2)
            cur = nxt
        return [('n', c, None) for c in cur]

    def s_if(self, s, st):
        def cont(st):
            def branch(st, v):
                out = []
                for st2, b in self.split(st, self.to_bool(v)):
                    if b:
                        out += self.stmt(s['a'], st2)
                    elif 'b' in s:
                        out += self.stmt(s['b'], st2)
                    else:
                        out.append(('n', st2, None))
                return out
            return self.sbind(self.eval_val(s['c'], st), branch)
        return self.with_init(s, st, cont)

    def with_init(self, s, st, cont):
        cur = [('n', st, None)]
        for key in ('init', 'cv'):
            if key in s:
                nxt = []
                for o in cur:
                    if o[0] != 'n':
                        nxt.append(o)
                    else:
                        nxt += self.stmt(s[key], o[1]) if key == 'init' else self.vardecl(s[key], o[1])
                cur = nxt
        out = []
        for o in cur:
            out += cont(o[1]) if o[0] == 'n' else [o]
        return out

    def to_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, PtrV):
            return (not v.null) if isinstance(v.null, bool) else z3.Not(v.null)
        if is_z3(v):
            if v.sort() == B:
                return v
            if v.sort() == I:
                return v != 0
        raise Unsupported('condition %r' % (v,))

    def s_ret(self, s, st):
        if 'e' not in s:
            return [('r', st, None)]

        def done(st, v):
            return [('r', st, v)]
        return self.sbind(self.eval_any(s['e'], st), done)

    def s_break(self, s, st):
        return [('b', st, None)]

    def s_continue(self, s, st):
        return [('c', st, None)]

    def s_switch(self, s, st):
        # flatten the body into (labels, statement) segments
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        segs = []

        def flat(x):
            labs = []
            while x['k'] in ('case', 'default'):
                labs.append(x['v'] if x['k'] == 'case' else None)
                if 'v2' in x:
                    raise Unsupported('case range')
                x = x['b']
            segs.append((labs, x))
        for x in body:
            flat(x)

        def cont(st):
            def run(st, v):
                out = []
                pend = [st]
                has_default = None
                for i, (labs, _) in enumerate(segs):
                    for l in labs:
                        if l is None:
                            has_default = i
                            continue
                        lv = self.const_val(l)
                        nxt = []
                        for c in pend:
                            for c2, b in self.split(c, v == lv):
                                if b:
                                    out += self.switch_from(segs, i, c2)
                                else:
                                    nxt.append(c2)
                        pend = nxt
                for c in pend:
                    out += self.switch_from(segs, has_default, c) if has_default is not None else [('n', c, None)]
                return out
            return self.sbind(self.eval_val(s['c'], st), run)
        return self.with_init(s, st, cont)

    def switch_from(self, segs, i, st):
        out = []
        for o in self.seq([x for _, x in segs[i:]], st):
            out.append(('n', o[1], None) if o[0] == 'b' else o)
        return out

    def const_val(self, e):
        while e['k'] in ('cast', 'load'):
            e = e['e']
        if e['k'] in ('int', 'enumc'):
            return z3.IntVal(int(e['v']))
        if e['k'] == 'un' and e['op'] == '-':
            return z3.IntVal(-int(e['a']['v']))
        raise Unsupported('case label')

    BASES = {'std::runtime_error': ('std::exception',), 'std::invalid_argument': ('std::logic_error', 'std::exception'),
             'std::logic_error': ('std::exception',), 'std::out_of_range': ('std::logic_error', 'std::exception')}

    def handler(self, hs, exc):
        """The handler that catches an exception of type exc."""
        for h in hs:
            if 'v' not in h:
                return h
            t = str(self.p.ty(h['v']['t']).strip()).replace('const ', '')
            if exc == t or t in self.BASES.get(exc, ()):
                return h
            if exc not in self.BASES:
                raise Unsupported('handler for ' + t)
        return None

    def s_try(self, s, st):
        out = []
        for o in self.stmt(s['b'], st):
            if o[0] != 'x':
                out.append(o)
                continue
            st2 = o[1]
            h = self.handler(s['h'], st2.exc)
            if h is None:
                out.append(o)
                continue
            if 'v' in h and 'id' in h['v']:
                st2.env[h['v']['id']] = self.new_root(st2, 'exc', Opq('exception'))
            st2.exc = None
            out += self.stmt(h['b'], st2)
        return out

    # ------------------------------------------------------------ loops
    def s_while(self, s, st):
        return self.loop(s, st, s.get('c'), None, s['b'])

    def s_for(self, s, st):
        if 'init' in s:
            out = []
            for o in self.stmt(s['init'], st):
                out += self.loop(s, o[1], s.get('c'), s.get('inc'), s['b']) if o[0] == 'n' else [o]
            return out
        return self.loop(s, st, s.get('c'), s.get('inc'), s['b'])

    def s_do(self, s, st):
        raise Unsupported('do loop')

    def s_forrange(self, s, st):
        def cont(st):
            def run(st, r):
                if not isinstance(r, Path):
                    r = self.new_root(st, 'range', self.materialize(st, r, self.p.ty(s['r']['t'])))
                return self.range_loop(s, st, r)
            return self.sbind(self.eval_any(s['r'], st), run)
        return self.with_init(s, st, cont)

    def range_loop(self, s, st, r):
        c = self.read(st, r)
        if isinstance(c, RefV):
            r = c.path
            c = self.read(st, r)
        if isinstance(c, ListV):
            cur, out = [st], []
            for it in c.items:
                nxt = []
                for x in cur:
                    self.reg_var(s['v'])
                    x.env[s['v']['id']] = self.new_root(x, s['v']['n'], it)
                    for b in self.binds(s['v'], x):
                        for o in self.stmt(s['b'], b[1]):
                            (nxt if o[0] in 'nc' else out).append(o[1] if o[0] in 'nc' else
                                                                  (('n', o[1], None) if o[0] == 'b' else o))
                cur = nxt
            return out + [('n', x, None) for x in cur]
        for m in self.cfg.models:
            h = getattr(m, 'range_loop', None)
            if h is not None:
                x = h(self, s, st, r, c)
                if x is not None:
                    return x
        if not isinstance(c, VV):
            raise Unsupported('range over %r' % (c,))
        kroot = self.new_root(st, '$pos', z3.IntVal(0))

        def cond(st):
            k = self.read(st, kroot)
            return [(st, k < self.read(st, r).len)]

        def body(st):
            k = self.read(st, kroot)
            self.reg_var(s['v'])
            vt = self.p.ty(s['v']['t'])
            el = AT(r, k)
            if vt.isref:
                st.env[s['v']['id']] = el
            else:
                st.env[s['v']['id']] = self.new_root(st, s['v']['n'] or 'elem', self.read(st, el))
            out = []
            for o in self.binds(s['v'], st):
                out += self.stmt(s['b'], o[1])
            return out

        def inc(st):
            self.write(st, kroot, self.read(st, kroot) + 1)
            return [(st, None)]
        return self.loop_core(s, st, cond, body, inc, lambda st: self.read(st, kroot),
                              auto=lambda st: [self.read(st, kroot) >= 0,
                                               self.read(st, kroot) <= self.read(st, r).len], over=r)

    def loop(self, s, st, c, inc, body):
        def fcond(st):
            if c is None or c['k'] == 'none':
                return [(st, z3.BoolVal(True))]
            if 'cv' in s:
                raise Unsupported('condition variable in loop')
            return [(a, (self.to_bool(v) if a.exc is None else None)) for a, v in self.eval_val(c, st)]

        def finc(st):
            if inc is None:
                return [(st, None)]
            return self.eval_any(inc, st)
        pv = self.pos_var(s, inc)

        def pos(st):
            p = st.env.get(pv)
            if p is None:
                raise Unsupported('no loop position')
            v = self.read(st, p)
            return v.idx if isinstance(v, IterV) else v
        pos.raw = lambda st: self.read(st, st.env[pv]) if pv in st.env else None
        over = self.ranges_over(st, pv, c, inc, body)
        auto = None
        if over is not None:
            first, n = pos(st), self.read(st, over).len
            st.assume(n >= 0)
            if not self.feasible(st, Or(first < 0, first > n)):
                auto = lambda st: [first <= pos(st), z3.Implies(self.read(st, over).len == n, pos(st) <= n)]
        return self.loop_core(s, st, fcond, lambda st: self.stmt(body, st), finc, pos, auto=auto, over=over)

    def ranges_over(self, st, pv, c, inc, body):
        """The container a counting loop with variable pv ranges over."""
        if pv not in st.env or inc is None or c is None or self.var_changed(inc) != pv or any(
                self.var_changed(x) == pv for x in nodes(body)):
            return None
        v = self.read(st, st.env[pv])
        if isinstance(v, IterV):
            over = v.path if v.kind == 'vec' else None
        else:
            ss = [x for x in nodes(c) if x.get('k') == 'mcall' and x['f']['n'].endswith('::size')]
            over = None
            if is_z3(v) and len(ss) == 1:
                self.quiet += 1
                saved, self.rec = self.rec, []
                try:
                    r = self.eval_any(ss[0]['o'], st.fork())
                    if len(r) == 1 and isinstance(r[0][1], Path) and r[0][1].root in st.store:
                        over = r[0][1]
                except Unsupported:
                    pass
                finally:
                    self.quiet -= 1
                    self.rec = saved
        try:
            return over if over is not None and isinstance(self.read(st, over), VV) else None
        except Unsupported:
            return None

    def var_changed(self, e):
        if e.get('k') == 'un' and e.get('op') in ('++', '--'):
            e = e['a']
        elif e.get('k') == 'mcall' and e.get('op') in ('++', '--', '=', '+=', '-='):
            e = e['o']
        elif e.get('k') in ('cassign', 'assign') or (e.get('k') == 'bin' and e.get('op') == '='):
            e = e['a']
        else:
            return None
        while isinstance(e, dict) and e.get('k') in ('load', 'cast', 'mat'):
            e = e['e']
        return e['id'] if e.get('k') == 'var' else None

    def pos_var(self, s, inc):
        def var_of(e):
            if e is None:
                return None
            if e['k'] == 'un' and e['op'] in ('++', '--'):
                e = e['a']
            elif e['k'] == 'mcall' and e.get('op') in ('++', '--'):
                e = e['o']
            elif e['k'] == 'cassign':
                e = e['a']
            elif e['k'] == 'bin' and e['op'] == ',':
                return var_of(e['a'])
            else:
                return None
            while e['k'] in ('load', 'cast', 'mat'):
                e = e['e']
            return e['id'] if e['k'] == 'var' else None
        v = var_of(inc)
        if v is None:
            b = s['b']
            bl = b['b'] if b['k'] == 'block' else [b]
            for x in reversed(bl):
                if x['k'] == 'expr':
                    v = var_of(x['e'])
                    if v is not None:
                        return v
        return v

    def loop_spec(self, s):
        key = id(s)
        no = self.loop_no.get(key)
        if no is None or self.cur_contract is None or no >= len(self.cur_contract.loops):
            return None
        return self.cur_contract.loops[no]

    def loop_core(self, s, st, cond, body, inc, pos, auto=None, over=None):
        self.loops.append((over, pos))
        try:
            return self.loop_core_(s, st, cond, body, inc, pos, auto, over)
        finally:
            self.loops.pop()

    def loop_core_(self, s, st, cond, body, inc, pos, auto=None, over=None):
        spec = self.loop_spec(s)
        no = self.loop_no.get(id(s), -1)
        lab = 'loop %s' % no
        line = s.get('l', 0)
        entry = st.fork()

        def L(x, bi=None):
            l = LoopCtx(self, x, self.cur_ctx, entry, pos, self.cur, s, bi, over)
            l.mods = roots
            return l

        def inv(x, bi=None):
            r = []
            if auto:
                r += [('%s position' % lab, And(auto(x)))]
            if spec:
                r += spec.inv(L(x, bi))
            return r

        # 1. find out what the loop changes
        mods = self.discover(st, cond, body, inc)
        roots = {p.root for p in mods}
        # 2. the invariant holds on entry
        self.line = line
        eh = spec.entry_hints(L(st)) if spec and spec.entry_hints else []
        for l, f, *h in inv(st):
            self.oblig(st, '%s: %s holds on entry' % (lab, l), f, 'loop-entry', (h[0] if h else []) + eh)

        # 3. arbitrary iteration
        for p in mods:
            self.havoc(st, p, name='loop%d' % no)
        for l, f, *_ in inv(st):
            st.assume(f)
        if spec and spec.head_hints:
            st.assume(spec.head_hints(L(st)))
        out = []
        for c, v in cond(st):
            if c.exc is not None:
                out.append(('x', c, None))
                continue
            for c2, b in self.split(c, v):
                if not b:
                    if spec and spec.exit_hints:
                        c2.assume(spec.exit_hints(L(c2)))
                    out.append(('n', c2, None))
                    continue
                bi = c2.fork()
                for o in body(c2):
                    if o[0] in 'nc':
                        for c3, _ in inc(o[1]):
                            if c3.exc is not None:
                                out.append(('x', c3, None))
                                continue
                            self.line = line
                            h = spec.hints(L(c3, bi)) if spec and spec.hints else []
                            for l, f, *h2 in inv(c3, bi):
                                self.oblig(c3, '%s: %s preserved' % (lab, l.replace('[cut] ', '')), f, 'loop-inv', h + (h2[0] if h2 else []))
                                if l.startswith('[cut] '):
                                    c3.assume(f)
                            if spec and spec.step:
                                for l, f, *h2 in spec.step(L(c3, bi)):
                                    self.oblig(c3, '%s: %s' % (lab, l), f, 'loop-step', h + (h2[0] if h2 else []))
                    elif o[0] == 'b':
                        out.append(('n', o[1], None))
                    else:
                        out.append(o)
        return out

    def discover(self, st, cond, body, inc):
        """Paths (without indices) a loop iteration may write to."""
        mods = {}
        roots = set(st.store)
        for _ in range(8):
            self.quiet += 1
            saved, self.rec = self.rec, []
            saved_paths = self.paths
            s2 = st.fork()
            s2.pc = [f for f in s2.pc if not has_quant(f)]
            try:
                for p in mods.values():
                    self.havoc(s2, p, name='disc')
                for c, v in cond(s2):
                    if c.exc is not None:
                        continue
                    for c2, b in self.split(c, v):
                        if not b:
                            continue
                        for o in body(c2):
                            if o[0] in 'nc':
                                inc(o[1])
            finally:
                self.quiet -= 1
                w = self.rec
                self.rec = saved
                self.paths = saved_paths
            new = False
            for p in w:
                if p.root not in roots:
                    continue
                acc = []
                for k, a in p.acc:
                    if k == 'i':
                        break
                    acc.append((k, a))
                q = Path(p.root, tuple(acc))
                # for writes below an index havoc only the touched component
                rest = [a for k, a in p.acc[len(acc):]]
                key = (q.root, tuple(a for _, a in acc), tuple(a if isinstance(a, str) else '[]' for a in rest))
                if key not in mods:
                    mods[key] = Path(p.root, tuple((k, a if k == 'f' else None) for k, a in p.acc))
                    new = True
            if not new:
                break
        # drop paths covered by prefixes
        ps = list(mods.values())
        res = []
        for p in ps:
            if not any(q is not p and q.root == p.root and len(q.acc) < len(p.acc) and
                       p.acc[:len(q.acc)] == q.acc for q in ps):
                if not any(q.root == p.root and q.acc == p.acc for q in res):
                    res.append(p)
        if self.rec is not None:
            self.rec.extend(res)
        return [_HP(*p) for p in res]

    # ------------------------------------------------------------ expressions
    def eval_any(self, e, st):
        """[(state, Path or value)]"""
        if 'l' in e:
            self.line = e['l']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (e['k'], e.get('c', '')))
        return m(e, st)

    def eval_val(self, e, st):
        """[(state, value)]"""
        ty = self.p.ty(e['t']) if 't' in e else None

        def done(st, v):
            if isinstance(v, Path):
                v = self.load(st, v, ty)
            return [(st, v)]
        return self.bind(self.eval_any(e, st), done)

    def eval_lv(self, e, st):
        """[(state, Path)]"""
        def done(st, v):
            if isinstance(v, RefV):
                v = v.path
            if not isinstance(v, Path):
                v = self.new_root(st, 'tmp', self.materialize(st, v, self.p.ty(e['t'])) if 't' in e else v)
            return [(st, v)]
        return self.bind(self.eval_any(e, st), done)

    def eval_list(self, es, st, how=None):
        """[(state, [results])] evaluating left to right."""
        how = how or self.eval_any
        cur = [(st, [])]
        for e in es:
            nxt = []
            for c, vs in cur:
                if c.exc is not None:
                    nxt.append((c, None))
                    continue
                for c2, v in how(e, c):
                    nxt.append((c2, None if c2.exc is not None else vs + [v]))
            cur = nxt
        return cur

    def rd(self, st, x, ty=None):
        if isinstance(x, Path):
            return self.load(st, x, ty)
        return x

    def e_none(self, e, st):
        return [(st, None)]

    def e_void(self, e, st):
        return [(st, None)]

    def e_int(self, e, st):
        return [(st, z3.IntVal(int(e['v'])))]

    def e_float(self, e, st):
        return [(st, Opq('float'))]

    def e_bool(self, e, st):
        return [(st, z3.BoolVal(bool(e['v'])))]

    def e_str(self, e, st):
        return [(st, StrV(e['v']))]

    def e_nullptr(self, e, st):
        return [(st, NULL)]

    def e_zero(self, e, st):
        return [(st, self.default(self.shape(self.p.ty(e['t']))))]

    def e_enumc(self, e, st):
        return [(st, z3.IntVal(int(e['v'])))]

    def e_fref(self, e, st):
        return [(st, FnV(e['f']))]

    def e_this(self, e, st):
        return [(st, PtrV(st.this, False))]

    def e_var(self, e, st):
        p = st.env.get(e['id'])
        if p is None:
            if 'glob' in e:
                g = self.cfg.globals.get(e['glob'])
                if g is not None:
                    return g(self, st, e)
                gi = self.p.globs().get(e['glob'])
                if gi is not None and self.p.ty(e['t']).const:
                    return self.eval_any(gi, st)
                if e['glob'].startswith('std::numeric_limits<') and e['glob'].endswith('>::is_signed'):
                    t = e['glob'][20:-12].split()
                    if t and t[0] in ('unsigned', 'signed', 'int', 'long', 'short'):
                        return [(st, z3.BoolVal(t[0] != 'unsigned'))]
                return [(st, Opq('global:' + e['glob']))]
            raise Unsupported('unknown variable %s' % e['n'])
        return [(st, p)]

    def e_load(self, e, st):
        ty = self.p.ty(e['t'])

        def done(st, v):
            if isinstance(v, Path):
                raw = self.leaf_tag(v, st)
                x = self.load(st, v, ty)
                return [(st, raw(x) if raw else x)]
            return [(st, v)]
        return self.bind(self.eval_any(e['e'], st), done)

    def leaf_tag(self, p, st):
        return None

    def e_mat(self, e, st):
        def done(st, v):
            if isinstance(v, Path):
                return [(st, v)]
            return [(st, self.new_root(st, 'tmp', self.materialize(st, v, self.p.ty(e['t']))))]
        return self.bind(self.eval_any(e['e'], st), done)

    def e_mem(self, e, st):
        def done(st, b):
            if e['arrow']:
                if isinstance(b, Path):
                    b = self.load(st, b, self.p.ty(e['b']['t']))
                b = self.deref(st, b)
            if isinstance(b, RefV):
                b = b.path
            if not isinstance(b, Path):
                if isinstance(b, SV):
                    return [(st, b.f[e['f']])]
                raise Unsupported('member of %r' % (b,))
            p = F(b, e['f'])
            v = self.read(st, p)
            if isinstance(v, RefV):
                return [(st, v.path)]
            return [(st, p)]
        return self.bind(self.eval_any(e['b'], st), done)

    def deref(self, st, v):
        if isinstance(v, IterV):
            return AT(v.path, v.idx)
        if isinstance(v, PtrV):
            if v.null is True:
                self.oblig(st, 'null pointer is not dereferenced', z3.BoolVal(False), 'safety')
                raise Unsupported('dereference of null')
            if v.null is not False:
                self.oblig(st, 'null pointer is not dereferenced', z3.Not(v.null), 'safety')
                st.assume(z3.Not(v.null))
            return v.path
        raise Unsupported('dereference of %r' % (v,))

    def e_cast(self, e, st):
        ck = e['ck']
        ty = self.p.ty(e['t'])

        def done(st, v):
            if ck in ('noop', 'UncheckedDerivedToBase', 'DerivedToBase', 'BitCast', 'AtomicToNonAtomic', 'BaseToDerived'):
                return [(st, v)]
            if ck == 'LValueBitCast':
                # reinterpret_cast between references: only to the representation type
                x = self.read(st, v) if isinstance(v, Path) else v
                if isinstance(v, Path) and isinstance(x, SV) and x.name == ty.strip().n:
                    return [(st, v)]
                raise Unsupported('reinterpret_cast to %s' % ty)
            if ck == 'ToVoid':
                return [(st, None)]
            if ck == 'NullToPointer':
                return [(st, NULL)]
            if ck == 'ArrayToPointerDecay':
                if isinstance(v, Path):
                    return [(st, PtrV(AT(v, z3.IntVal(0)), False))]
                return [(st, v)]
            v = self.rd(st, v, self.p.ty(e['e']['t']) if 't' in e['e'] else None)
            if ck == 'IntegralCast':
                if is_z3(v) and v.sort() == B:
                    return [(st, z3.If(v, z3.IntVal(1), z3.IntVal(0)))]
                return [(st, self.int_cast(st, v, self.p.ty(e['e']['t']), ty))]
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                return [(st, as_bool(self.to_bool(v)))]
            if ck == 'IntegralToFloating':
                return [(st, z3.ToReal(v) if is_z3(v) else Opq('float'))]
            if ck in ('FloatingCast',):
                return [(st, v)]
            raise Unsupported('cast ' + ck)
        return self.bind(self.eval_any(e['e'], st), done)

    def int_cast(self, st, v, frm, to):
        if not is_z3(v):
            return v
        if self.cfg.casts == 'wrap' and to.k == 'int' and frm.k == 'int':
            w, s = to.d['w'], to.d['s']
            if z3.is_int_value(v):
                x = v.as_long() % (1 << w)
                if s and x >= 1 << (w - 1):
                    x -= 1 << w
                return z3.IntVal(x)
            fw, fs = frm.d['w'], frm.d['s']
            if (not fs and (fw < w or (fw == w and not s))) or (fs and s and fw <= w):
                return v
            m = v % (1 << w)
            if s:
                m = z3.If(m >= (1 << (w - 1)), m - (1 << w), m)
            return m
        return v

    def e_un(self, e, st):
        op = e['op']
        if op == '&':
            def done(st, v):
                if isinstance(v, FnV):
                    return [(st, v)]
                if not isinstance(v, Path):
                    raise Unsupported('address of value')
                return [(st, PtrV(v, False))]
            return self.bind(self.eval_any(e['a'], st), done)
        if op == '*':
            def done(st, v):
                v = self.rd(st, v, self.p.ty(e['a']['t']))
                if isinstance(v, FnV) or isinstance(v, StrV):
                    return [(st, v)]
                return [(st, self.deref(st, v))]
            return self.bind(self.eval_any(e['a'], st), done)
        if op in ('++', '--'):
            def done(st, p):
                old = self.load(st, p, self.p.ty(e['a']['t']))
                d = 1 if op == '++' else -1
                new = self.ptr_add(st, old, d)
                if is_z3(new) and self.p.ty(e['a']['t']).k == 'int':
                    new = self.arith_check(st, new, self.p.ty(e['a']['t']), '-' if d < 0 else '+')
                self.write(st, p, new)
                return [(st, old if e['post'] else p)]
            return self.bind(self.eval_lv(e['a'], st), done)

        def done(st, v):
            if op == '!':
                return [(st, Not(as_bool(self.to_bool(v))))]
            if op == '-':
                if is_z3(v):
                    r = -v
                    ty = self.p.ty(e['t'])
                    if self.cfg.casts == 'wrap' and ty.k == 'int':
                        r = self.wrap(r, ty)
                    return [(st, z3.simplify(r) if z3.is_int_value(v) else r)]
                raise Unsupported('negation of %r' % (v,))
            if op == '+':
                return [(st, v)]
            raise Unsupported('unary ' + op)
        return self.bind(self.eval_val(e['a'], st), done)

    def ptr_add(self, st, v, d):
        if isinstance(v, IterV):
            return IterV(v.path, z3.simplify(v.idx + d), v.kind)
        if isinstance(v, PtrV):
            if v.path is None or not v.path.acc or v.path.acc[-1][0] != 'i':
                raise Unsupported('pointer arithmetic')
            return PtrV(AT(Path(v.path.root, v.path.acc[:-1]), z3.simplify(v.path.acc[-1][1] + d)), v.null)
        if is_z3(v):
            return v + d
        raise Unsupported('increment of %r' % (v,))

    def wrap(self, r, ty):
        w = ty.d['w']
        if z3.is_int_value(r):
            x = r.as_long() % (1 << w)
            if ty.d['s'] and x >= 1 << (w - 1):
                x -= 1 << w
            return z3.IntVal(x)
        if not ty.d['s']:
            return z3.simplify(r) if z3.is_int_value(z3.simplify(r)) else r % (1 << w)
        return r

    def arith_check(self, st, r, ty, op):
        """Machine arithmetic: unsigned results must not wrap below zero."""
        if ty.k != 'int' or not is_z3(r) or r.sort() != I:
            return r
        if self.cfg.casts == 'wrap':
            return self.wrap(r, ty)
        if not ty.d['s'] and op == '-' and self.cfg.check_wrap:
            g = r >= 0
            s = z3.simplify(g)
            if not z3.is_true(s):
                self.oblig(st, 'unsigned subtraction does not wrap', g, 'safety')
                st.assume(g)
        return r

    def e_bin(self, e, st):
        op = e['op']
        if op == ',':
            return self.bind(self.eval_any(e['a'], st), lambda st, _: self.eval_any(e['b'], st))
        if op == '=':
            def rhs(st, v):
                def lhs(st, p):
                    self.write(st, p, v)
                    return [(st, p)]
                return self.bind(self.eval_lv(e['a'], st), lhs)
            return self.bind(self.eval_val(e['b'], st), rhs)
        if op in ('&&', '||'):
            return self.logic(e, st, op)

        def a(st, x):
            return self.bind(self.eval_val(e['b'], st), lambda st, y: [(st, self.binop(st, op, x, y, e))])
        return self.bind(self.eval_val(e['a'], st), a)

    def logic(self, e, st, op):
        def done(st, x):
            x = as_bool(self.to_bool(x))
            guard = x if op == '&&' else Not(x)
            gs = z3.simplify(guard)
            if z3.is_false(gs):
                return [(st, z3.BoolVal(op == '||'))]
            # evaluate the second operand under the guard; keep one state if it is pure
            s2 = st.fork()
            s2.assume(gs if not z3.is_true(gs) else [])
            n = len(s2.pc)
            rs = self.eval_val(e['b'], s2)
            if len(rs) == 1 and rs[0][0].exc is None and self.same_store(rs[0][0], st):
                y = as_bool(self.to_bool(rs[0][1]))
                for f in rs[0][0].pc[n:]:
                    st.assume(z3.Implies(guard, f))
                return [(st, And(x, y) if op == '&&' else Or(x, y))]
            # not pure: split
            out = []
            for c, b in self.split(st, guard):
                if b:
                    out += self.bind(self.eval_val(e['b'], c), lambda c, y: [(c, as_bool(self.to_bool(y)))])
                else:
                    out.append((c, z3.BoolVal(op == '||')))
            return out
        return self.bind(self.eval_val(e['a'], st), done)

    def same_store(self, a, b):
        for k, v in b.store.items():
            if a.store.get(k) is not v:
                return False
        return a.env == b.env

    def binop(self, st, op, x, y, e):
        if isinstance(x, (PtrV, IterV)) or isinstance(y, (PtrV, IterV)):
            return self.ptr_op(st, op, x, y)
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if isinstance(y, bool):
            y = z3.BoolVal(y)
        if not is_z3(x) or not is_z3(y):
            raise Unsupported('operator %s on %r and %r' % (op, x, y))
        if x.sort() == B and y.sort() == B and op in ('==', '!='):
            return (x == y) if op == '==' else (x != y)
        x, y = self.num(x), self.num(y)
        if x.sort() != y.sort():
            if x.sort() == I and y.sort() == R:
                x = z3.ToReal(x)
            elif x.sort() == R and y.sort() == I:
                y = z3.ToReal(y)
            else:
                raise Unsupported('operands of different sorts')
        cmpo = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                '==': lambda: x == y, '!=': lambda: x != y}
        if op in cmpo:
            return cmpo[op]()
        ty = self.p.ty(e['t'])
        if op == '+':
            return self.arith_check(st, x + y, ty, '+')
        if op == '-':
            return self.arith_check(st, x - y, ty, '-')
        if op == '*':
            return self.arith_check(st, x * y, ty, '*')
        if op in ('/', '%') and ty.k == 'int':
            self.oblig(st, 'divisor is not zero', y != 0, 'safety')
            if ty.d['s']:
                # C++ truncates towards zero
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -(-x / y), (-x) / (-y)))
                return q if op == '/' else x - q * y
            return x / y if op == '/' else x % y
        if op == '&' and x.sort() == I and z3.is_int_value(x) and z3.is_int_value(y):
            return z3.IntVal(x.as_long() & y.as_long())
        if op in ('<<', '>>') and z3.is_int_value(y):
            k = 1 << y.as_long()
            return x * k if op == '<<' else x / k
        if op == '&' and (z3.is_int_value(y) and y.as_long() == 1):
            return x % 2
        raise Unsupported('operator ' + op)

    def num(self, x):
        if x.sort() == B:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x

    def ptr_op(self, st, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if x.path != y.path:
                if not (x.path.root == y.path.root and len(x.path.acc) == len(y.path.acc) and all(
                        k1 == k2 and (a1 is a2 or a1 == a2 if isinstance(a1, str) else a1.eq(a2))
                        for (k1, a1), (k2, a2) in zip(x.path.acc, y.path.acc))):
                    raise Unsupported('iterators of different containers')
            if op == '-':
                return x.idx - y.idx
            return {'==': x.idx == y.idx, '!=': x.idx != y.idx, '<': x.idx < y.idx, '<=': x.idx <= y.idx,
                    '>': x.idx > y.idx, '>=': x.idx >= y.idx}[op]
        if op in ('+', '-') and isinstance(x, (IterV, PtrV)) and is_z3(y):
            return self.ptr_add(st, x, y if op == '+' else -y)
        if op == '-' and isinstance(x, PtrV) and isinstance(y, PtrV):
            if x.path and y.path and x.path.acc and y.path.acc and x.path.acc[-1][0] == 'i' and y.path.acc[-1][0] == 'i' \
                    and x.path.root == y.path.root and x.path.acc[:-1] == y.path.acc[:-1]:
                return z3.simplify(x.path.acc[-1][1] - y.path.acc[-1][1])
            raise Unsupported('difference of pointers')
        if op in ('==', '!='):
            if isinstance(x, PtrV) and isinstance(y, PtrV):
                r = self.ptr_eq(x, y)
                return as_bool(r) if op == '==' else Not(as_bool(r))
        raise Unsupported('pointer operator %s' % op)

    def ptr_eq(self, x, y):
        if x.null is True:
            return y.null if not isinstance(y.null, bool) else z3.BoolVal(y.null)
        if y.null is True:
            return x.null if not isinstance(x.null, bool) else z3.BoolVal(x.null)
        if x.path.root.startswith('@') and x.path.root == y.path.root and len(x.path.acc) == len(y.path.acc):
            return self.ptr_id(x) == self.ptr_id(y)
        if x.path == y.path:
            return z3.BoolVal(True)
        if x.path.root != y.path.root:
            return z3.BoolVal(False)
        # same object, structurally compared
        if len(x.path.acc) == len(y.path.acc):
            cs = []
            for (k1, a1), (k2, a2) in zip(x.path.acc, y.path.acc):
                if k1 != k2:
                    return z3.BoolVal(False)
                if k1 == 'f':
                    if a1 != a2:
                        return z3.BoolVal(False)
                else:
                    cs.append(a1 == a2)
            return And(cs)
        return z3.BoolVal(False)

    def e_cassign(self, e, st):
        op = e['op']

        def rhs(st, y):
            def lhs(st, p):
                x = self.load(st, p, self.p.ty(e['a']['t']))
                if isinstance(x, (PtrV, IterV)):
                    v = self.ptr_op(st, op, x, y)
                else:
                    v = self.binop(st, op, x, y, {'t': e['ct']})
                    if op in '-+*':
                        v = self.arith_check(st, v, self.p.ty(e['a']['t']), op)
                self.write(st, p, v)
                return [(st, p)]
            return self.bind(self.eval_lv(e['a'], st), lhs)
        return self.bind(self.eval_val(e['b'], st), rhs)

    def e_cond(self, e, st):
        ty = self.p.ty(e['t'])

        def done(st, c):
            c = self.to_bool(c)
            cs = z3.simplify(as_bool(c))
            if z3.is_true(cs):
                return self.eval_any(e['a'], st)
            if z3.is_false(cs):
                return self.eval_any(e['b'], st)
            c = as_bool(c)
            # pure scalar branches: build an If
            sa, sb = st.fork(), st.fork()
            sa.assume(c)
            sb.assume(Not(c))
            na, nb = len(sa.pc), len(sb.pc)
            n_obl = len(self.obls)
            try:
                ra = self.eval_any(e['a'], sa)
                rb = self.eval_any(e['b'], sb)
                ok = len(ra) == 1 and len(rb) == 1 and ra[0][0].exc is None and rb[0][0].exc is None and \
                    self.same_store(ra[0][0], st) and self.same_store(rb[0][0], st)
                if ok:
                    x, y = ra[0][1], rb[0][1]
                    if not isinstance(x, Path) and not isinstance(y, Path) and is_z3(x) and is_z3(y) \
                            and x.sort() == y.sort():
                        for f in ra[0][0].pc[na:]:
                            st.assume(z3.Implies(c, f))
                        for f in rb[0][0].pc[nb:]:
                            st.assume(z3.Implies(Not(c), f))
                        return [(st, z3.If(c, x, y))]
            except Unsupported:
                pass
            del self.obls[n_obl:]
            out = []
            for s2, b in self.split(st, c):
                out += self.eval_any(e['a'] if b else e['b'], s2)
            return out
        return self.bind(self.eval_val(e['c'], st), done)

    def e_sub(self, e, st):
        def a(st, b):
            def done(st, i):
                x = self.rd(st, b, self.p.ty(e['a']['t']))
                if isinstance(x, PtrV):
                    return [(st, self.ptr_add(st, x, i).path)]
                raise Unsupported('subscript')
            return self.bind(self.eval_val(e['b'], st), done)
        return self.bind(self.eval_any(e['a'], st), a)

    def e_stdil(self, e, st):
        return self.eval_any(e['e'], st)

    def e_ilist(self, e, st):
        ty = self.p.ty(e['t'])

        def done(st, vs):
            if e.get('transp') and len(vs) == 1:
                return [(st, vs[0])]
            if ty.k == 'arr':
                return [(st, ListV([self.rd(st, v) for v in vs]))]
            if ty.k != 'rec':
                return [(st, self.rd(st, vs[0]) if vs else self.default(self.shape(ty)))]
            sh = self.shape(ty)
            fs = self.p.record_fields(ty.n)
            if isinstance(sh, OpaqueS):
                return [(st, ListV(vs))]
            if not isinstance(sh, Struct) or fs is None:
                raise Unsupported('initializer list for %s' % ty)
            f = {}
            for i, (n, t) in enumerate(fs):
                if i < len(vs):
                    if t.isref:
                        f[n] = RefV(vs[i]) if isinstance(vs[i], Path) else RefV(self.new_root(st, n, vs[i]))
                    else:
                        f[n] = self.materialize(st, self.rd(st, vs[i], t), t)
                else:
                    f[n] = self.default(sh.fields[n])
            return [(st, SV(sh.name, f))]
        return self.bind(self.eval_list(e['args'], st), done)

    def e_lambda(self, e, st):
        env = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = st.this
            elif c.get('unk'):
                raise Unsupported('lambda capture')
            elif 'init' in c and c['init'].get('k') != 'var' and not c['ref']:
                r = self.eval_any(c['init'], st)
                if len(r) != 1:
                    raise Unsupported('lambda capture')
                st, v = r[0]
                env[c['id']] = self.new_root(st, c['n'], self.rd(st, v))
            else:
                p = st.env.get(c['id'])
                if p is None:
                    raise Unsupported('capture of unknown variable ' + c['n'])
                env[c['id']] = p if c['ref'] else self.new_root(st, c['n'], self.read(st, p))
        fids = [e['fid']] if 'fid' in e else list(e['specs'])
        return [(st, Closure(fids, env, this))]

    def e_throw(self, e, st):
        if 'e' not in e:
            st.exc = 'rethrow'
            return [(st, None)]
        ty = str(self.p.ty(e['e']['t'])) if 't' in e['e'] else '?'
        st.exc = ty
        return [(st, None)]

    def e_new(self, e, st):
        raise Unsupported('new')

    def e_delete(self, e, st):
        raise Unsupported('delete')

    def e_mref(self, e, st):
        raise Unsupported('member function reference')

    # ------------------------------------------------------------ calls
    def e_ctor(self, e, st):
        f = e['f']
        h = self.find_model(e, f, 'ctor')
        if h is not None:
            return h(self, e, st)
        ty = self.p.ty(e['t'])
        ck = f.get('ck')
        if f.get('dflt') or 'id' not in f:
            if ck in ('copy', 'move'):
                def done(st, v):
                    x = self.rd(st, v)
                    if ck == 'move' and isinstance(v, Path):
                        self.moved(st, v, x, ty)
                    return [(st, x)]
                return self.bind(self.eval_any(e['args'][0], st), done)
            if ck == 'default' and not e['args']:
                fn = self.p.byid.get(f.get('id')) if 'id' in f else None
                if fn is not None:
                    return self.construct(st, fn, [], ty)
                return [(st, self.default(self.shape(ty)))]
        fn = self.p.byid.get(f.get('id'))
        if fn is not None:
            return self.bind(self.eval_list(e['args'], st), lambda st, vs: self.construct(st, fn, vs, ty))
        raise Unsupported('constructor %s(%s)' % (f['n'], ', '.join(str(self.p.ty(t)) for t in f['ps'])))

    def moved(self, st, path, val, ty):
        """State of an object that was moved from: any value of its type."""
        try:
            new = self.moved_value(st, path, val, ty)
        except Unsupported:
            return
        if new is not None:
            self.write(st, path, new)

    def moved_value(self, st, path, val, ty):
        if isinstance(val, (SV, VV)) or is_z3(val):
            if is_z3(val) and val.sort() in (I, B):
                return None
            if isinstance(val, VV):
                # a moved-from vector is empty
                return VV(z3.IntVal(0), val.elem) if is_z3(val.len) and val.len.sort() == I else None
            n = self.fresh_like(val, 'moved')
            h = getattr(self.cfg, 'moved_facts', None)
            if h is not None:
                st.assume(h(val, n))
            return n
        return None

    def construct(self, st, fn, args, ty):
        """Run a constructor of the repository: [(state, value)]."""
        sh = self.shape(ty)
        c = self.cfg.contracts.get(fn.id)
        v = self.fresh(sh, 'obj')
        # members with a body-less initialization keep arbitrary values
        p = self.new_root(st, 'obj', v)

        def done(st, _):
            return [(st, self.read(st, p))]
        return self.bind(self.call(st, fn, p, args), done)

    def find_model(self, e, f, kind):
        for m in self.cfg.models:
            h = m(self, e, f, kind)
            if h is not None:
                self.used_models.add(f['n'])
                return h
        return None

    def e_call(self, e, st):
        f = e['f']
        h = self.find_model(e, f, 'call')
        if h is not None:
            return h(self, e, st)
        fn = self.p.byid.get(f.get('id'))
        if fn is None:
            raise Unsupported('call of %s(%s)' % (f['n'], ', '.join(str(self.p.ty(t)) for t in f['ps'])))
        return self.bind(self.eval_args(e['args'], fn, st), lambda st, vs: self.call(st, fn, None, vs))

    def eval_args(self, args, fn, st):
        return self.eval_list(args, st)

    def e_mcall(self, e, st):
        f = e['f']
        h = self.find_model(e, f, 'mcall')
        if h is not None:
            return h(self, e, st)

        def obj(st, o):
            if e['arrow']:
                o = self.deref(st, self.rd(st, o, self.p.ty(e['o']['t'])))
            if not isinstance(o, Path):
                o = self.new_root(st, 'tmp', self.materialize(st, o, self.p.ty(e['o']['t'])))
            v = self.read(st, o)
            if isinstance(v, Closure):
                return self.bind(self.eval_list(e['args'], st), lambda st, vs: self.call_closure(st, v, vs, e))
            if f.get('dflt') and f.get('ck') in ('copyassign', 'moveassign'):
                def asg(st, vs):
                    x = self.rd(st, vs[0])
                    if f['ck'] == 'moveassign' and isinstance(vs[0], Path):
                        self.moved(st, vs[0], x, None)
                    self.write(st, o, x)
                    return [(st, o)]
                return self.bind(self.eval_list(e['args'], st), asg)
            fn = self.p.byid.get(f.get('id'))
            if fn is None:
                raise Unsupported('call of %s(%s)' % (f['n'], ', '.join(str(self.p.ty(t)) for t in f['ps'])))
            return self.bind(self.eval_list(e['args'], st), lambda st, vs: self.call(st, fn, o, vs))
        return self.bind(self.eval_any(e['o'], st), obj)

    def e_icall(self, e, st):
        def obj(st, o):
            v = self.rd(st, o)
            if isinstance(v, FnV):
                fn = self.p.byid.get(v.f.get('id'))
                if fn is not None:
                    return self.bind(self.eval_list(e['args'], st), lambda st, vs: self.call(st, fn, None, vs))
            raise Unsupported('indirect call')
        return self.bind(self.eval_any(e['c'], st), obj)

    def call_closure(self, st, clo, args, e=None):
        fns = [self.p.byid[i] for i in clo.fids if i in self.p.byid]
        if len(fns) > 1 and e is not None:
            fns = [x for x in fns if x.id == e['f'].get('id')] or fns
        if len(fns) != 1:
            raise Unsupported('generic lambda')
        fn = fns[0]
        saved = dict(st.env)
        this = st.this
        st.env.update(clo.env)
        st.this = clo.this
        out = []
        for s2, v in self.run_body(st, fn, args):
            s2.env = {**s2.env, **{k: p for k, p in saved.items()}}
            s2.this = this
            out.append((s2, v))
        return out

    def call(self, st, fn, this, args):
        c = self.cfg.contracts.get(fn.id)
        if c is not None:
            self.used_contracts.add(c.name)
            return self.apply_contract(st, fn, c, this, args)
        if fn.id in self.cfg.no_inline or st.depth > 12:
            raise Unsupported('recursion or missing contract: ' + fn.n)
        self.inlined.add(fn.sig())
        saved_this, saved_env = st.this, st.env
        st.this = this
        out = []
        for s2, v in self.run_body(st, fn, args):
            s2.this = saved_this
            e2 = dict(s2.env)
            e2.update(saved_env)
            s2.env = e2
            out.append((s2, v))
        return out

    def run_body(self, st, fn, args):
        st.depth += 1
        for (pid, pn, pt), a in zip(fn.ps, args):
            self.bind_param(st, pid, pn, pt, a)
        cur = [st]
        if fn.is_ctor:
            cur = self.run_inits(st, fn)
        out = []
        for c in cur:
            if c.exc is not None:
                out.append((c, None))
                continue
            for k, s2, v in self.stmt(fn.body, c):
                s2.depth -= 1
                if k == 'x':
                    out.append((s2, None))
                    continue
                if k == 'r' or k == 'n':
                    if v is not None and not fn.ret.isref:
                        if isinstance(v, Path):
                            v = self.load(s2, v, fn.ret)
                        v = self.materialize_ret(s2, v, fn.ret)
                    elif v is not None and not isinstance(v, Path) and not isinstance(v, (StrV,)):
                        if isinstance(v, RefV):
                            v = v.path
                        else:
                            v = self.new_root(s2, 'ret', v)
                    out.append((s2, v))
                else:
                    raise Unsupported('break outside of loop')
        return out

    def materialize_ret(self, st, v, ty):
        if isinstance(v, PtrV):
            return v
        return self.materialize(st, v, ty)

    def bind_param(self, st, pid, pn, pt, a):
        self.reg_name(pid, pn, str(pt))
        if pt.isref:
            if not isinstance(a, Path):
                a = a.path if isinstance(a, RefV) else self.new_root(st, pn or 'arg', self.materialize(st, a, pt.strip()))
            st.env[pid] = a
        else:
            v = self.load(st, a, pt) if isinstance(a, Path) else a
            st.env[pid] = self.new_root(st, pn or 'arg', self.materialize(st, v, pt))

    def run_inits(self, st, fn):
        cur = [st]
        for i in fn.d['inits']:
            nxt = []
            for c in cur:
                if c.exc is not None:
                    nxt.append(c)
                    continue
                if 'd' in i:
                    # delegating constructor
                    for c2, v in self.eval_any(i['e'], c):
                        if c2.exc is None:
                            self.write(c2, c2.this, self.rd(c2, v))
                        nxt.append(c2)
                    continue
                if 'b' in i:
                    for c2, v in self.eval_any(i['e'], c):
                        nxt.append(c2)
                    continue
                fs = dict(self.p.record_fields(fn.rec) or [])
                ft = fs.get(i['f'])
                for c2, v in self.eval_any(i['e'], c):
                    if c2.exc is None:
                        if ft is not None and ft.isref:
                            if not isinstance(v, Path):
                                v = self.new_root(c2, i['f'], v)
                            val = RefV(v)
                        else:
                            val = self.load(c2, v, ft) if isinstance(v, Path) else v
                            if ft is not None:
                                val = self.materialize(c2, val, ft)
                        p = c2.this
                        t = c2.store[p.root] if not p.acc else self.read(c2, p)
                        if isinstance(t, SV):
                            f = dict(t.f)
                            f[i['f']] = val
                            self.replace(c2, p, SV(t.name, f))
                        else:
                            raise Unsupported('constructor of %s' % fn.rec)
                    nxt.append(c2)
            cur = nxt
        return cur

    def replace(self, st, p, v):
        if not p.acc:
            if self.rec is not None:
                self.rec.append(p)
            st.store[p.root] = v
        else:
            self.write(st, p, v)

    # ------------------------------------------------------------ contracts
    def norm_args(self, st, fn, args):
        out = []
        for (pid, pn, pt), a in zip(fn.ps, args):
            if pt.isref:
                if isinstance(a, RefV):
                    a = a.path
                if not isinstance(a, Path):
                    a = self.new_root(st, pn or 'arg', self.materialize(st, a, pt.strip()))
            else:
                a = self.load(st, a, pt) if isinstance(a, Path) else a
                if not isinstance(a, PtrV):
                    a = self.materialize(st, a, pt)
            out.append(a)
        return out

    def apply_contract(self, st, fn, c, this, args):
        args = self.norm_args(st, fn, args)
        pre = st.fork()
        ctx = Ctx(self, fn, this, args, pre)
        for l, f, *h in c.pre(ctx):
            self.oblig(st, 'precondition of %s: %s' % (c.name, l), f, 'pre', h[0] if h else None)
            st.assume(f)
        out = []
        if c.throws is not None:
            cond = c.throws(ctx)
            if cond is not False:
                x = st.fork()
                if cond is not True:
                    x.assume(cond)
                x.exc = 'std::runtime_error'
                for p in c.modifies(ctx):
                    self.havoc(x, p, name=fn.s)
                if c.xpost is not None:
                    xctx = Ctx(self, fn, this, args, pre, x, None)
                    x.assume([f for l, f, *_ in c.xpost(xctx)])
                if self.feasible(x):
                    out.append((x, None))
        for p in c.modifies(ctx):
            self.havoc(st, p, name=fn.s)
        ctx = Ctx(self, fn, this, args, pre, st)
        if c.result is not None:
            ctx.ret = c.result(ctx)
        elif fn.ret.k == 'void':
            ctx.ret = None
        elif fn.ret.isref:
            raise Unsupported('contract of %s needs a result' % fn.n)
        else:
            sh = self.shape(fn.ret)
            v = self.fresh(sh, fn.s)
            st.assume(self.fresh_facts(sh, v))
            ctx.ret = v
        for l, f, *_ in c.post(ctx):
            st.assume(f)
        r = ctx.ret
        if isinstance(r, View):
            r = r.t
        if is_z3(r) and fn.ret.k == 'ptr':
            r = self.ptr_from_id(self.shape(fn.ret), r)
        out.append((st, r))
        return out

    def number_loops(self, fn):
        """Number the loops of fn in program order, through inlined helpers."""
        self.loop_no = {}
        seen = set()

        def walk(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('while', 'for', 'forrange', 'do'):
                    self.loop_no.setdefault(id(x), len(self.loop_no))
                if k in ('call', 'mcall', 'ctor'):
                    i = x['f'].get('id')
                    for kk in ('o', 'args'):
                        if kk in x:
                            walk(x[kk])
                    g = self.p.byid.get(i)
                    if self.is_foreach(x):
                        self.loop_no.setdefault(id(x), len(self.loop_no))
                    elif g is not None and i not in self.cfg.contracts and i not in seen and not self.modelled(x):
                        seen.add(i)
                        walk(g.d.get('inits'))
                        walk(g.body)
                    return
                if k == 'lambda':
                    for fid in ([x['fid']] if 'fid' in x else x['specs']):
                        g = self.p.byid.get(fid)
                        if g is not None and fid not in seen:
                            seen.add(fid)
                            walk(g.body)
                    return
                order = ['init', 'cv', 'r', 'v', 'c', 'e', 'o', 'a', 'args', 'b', 'inc', 'd', 'h', 'binds', 'hold', 'caps']
                for kk in order + [y for y in x if y not in order]:
                    if kk in x and isinstance(x[kk], (dict, list)) and kk != 'f':
                        walk(x[kk])
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(fn.d.get('inits'))
        walk(fn.body)

    def is_foreach(self, x):
        return False

    def modelled(self, x):
        for m in self.cfg.models:
            if m(self, x, x['f'], x['k']) is not None:
                return True
        return False

    def check(self, fn, c, setup=None, assume=None):
        """Generate the obligations of function fn for contract c."""
        self.cur, self.cur_contract = c.name, c
        self.paths = 0
        st = State()
        for r, sh in getattr(self.cfg, 'regions', {}).items():
            st.store['@' + r] = VV(z3.Int(self.name(r + '.n')), self.fresh(sh, r, 1))
        for r, sh in getattr(self.cfg, 'ghosts', {}).items():
            st.store[r] = self.fresh(sh, r) if isinstance(sh, Shape) else sh(self)
        if fn.is_method and fn.lam is None:
            sh = self.shape(self.p.ty(fn.d['thist']))
            v = self.fresh(sh, 'this')
            st.store['this'] = v
            st.this = Path('this', ())
            st.assume(self.fresh_facts(sh, v))
        args = []
        for i, (pid, pn, pt) in enumerate(fn.ps):
            sh = self.shape(pt)
            if pt.k == 'ptr' and not isinstance(sh, (PtrS, Leaf)):
                v = None
            else:
                v = self.fresh(sh, pn or 'arg%d' % i)
                st.assume(self.fresh_facts(sh, v))
            if pt.isref:
                a = Path('arg%d' % i, ())
                st.store['arg%d' % i] = v
            else:
                a = v
                if isinstance(sh, PtrS):
                    a = self.ptr_from_id(sh, v)
            args.append(a)
        if setup:
            args = setup(self, st, args) or args
        pre = st.fork()
        ctx = Ctx(self, fn, st.this, args, pre)
        for l, f, *_ in c.pre(ctx):
            st.assume(f)
        pre.pc = list(st.pc)
        self.cur_ctx = ctx
        self.number_loops(fn)
        # vacuity: the precondition must be satisfiable
        self.obls.append(Obl(c.name, 'precondition is satisfiable', list(st.pc), None, 'vacuity', fn.line))
        mods = [] if c.modifies is None else list(c.modifies(ctx))
        n_ret = 0
        roots = list(st.store)
        for s2, v in self.run_body(st, fn, args):
            self.line = fn.line
            if s2.exc is not None:
                if c.throws is None:
                    self.oblig(s2, 'does not throw', z3.BoolVal(False), 'throw')
                else:
                    cond = c.throws(ctx)
                    if cond is not True:
                        self.oblig(s2, 'throws only when allowed', as_bool(cond), 'throw')
                    if c.xpost is not None:
                        for l, f, *h in c.xpost(Ctx(self, fn, ctx.tpath, args, pre, s2, None)):
                            self.oblig(s2, 'when throwing: ' + l, f, 'post', h[0] if h else None)
                continue
            n_ret += 1
            rc = Ctx(self, fn, ctx.tpath, args, pre, s2, v)
            hints = c.lemmas(rc) if c.lemmas else []
            s2 = s2.fork()
            for l, f, *h in c.post(rc):
                self.oblig(s2, l.replace('[cut] ', ''), f, 'post', hints + (h[0] if h else []))
                if l.startswith('[cut] '):
                    s2.assume(f)
            if fn.ret.isref and c.result is not None:
                want = c.result(rc)
                if isinstance(want, Path) and isinstance(v, Path):
                    self.oblig(s2, 'returns the right object', self.ptr_eq(PtrV(v, False), PtrV(want, False)), 'post')
            self.frame(s2, pre, roots, mods, hints)
            self.obls.append(Obl(c.name, 'return is reachable', list(s2.pc), None, 'vacuity', fn.line))
        return n_ret

    def frame(self, st, pre, roots, mods, hints):
        for r in roots:
            a, b = pre.store[r], st.store.get(r)
            if a is b:
                continue
            for acc, x, y in self.diff(a, b, ()):
                # acc: tuple of field names / '[]'
                if any(m.root == r and self.covers(m.acc, acc) for m in mods):
                    continue
                lab = 'nothing but the allowed is changed: %s%s' % (r, ''.join('.' + str(z) for z in acc))
                # single indexed modification points
                idx = [m for m in mods if m.root == r and self.covers_idx(m.acc, acc)]
                if idx:
                    k = z3.Int(self.name('fr'))
                    conds = [k != next(i for kk, i in m.acc if kk == 'i') for m in idx]
                    self.oblig(st, lab, z3.Implies(And(conds), z3.Select(x, k) == z3.Select(y, k)), 'frame', hints)
                elif is_z3(x) and is_z3(y):
                    self.oblig(st, lab, x == y, 'frame', hints)
                elif isinstance(x, (Closure, Opq, IterV, PtrV)) or isinstance(y, (Closure, Opq, IterV, PtrV)):
                    self.oblig(st, lab, z3.BoolVal(False), 'frame', hints)

    def diff(self, a, b, acc):
        if a is b:
            return
        if isinstance(a, SV) and isinstance(b, SV):
            for k in a.f:
                yield from self.diff(a.f[k], b.f[k], acc + (k,))
        elif isinstance(a, VV) and isinstance(b, VV):
            if not a.len.eq(b.len):
                yield acc + ('#',), a.len, b.len
            yield from self.diff(a.elem, b.elem, acc + ('[]',))
        elif is_z3(a) and is_z3(b):
            if not a.eq(b):
                yield acc, a, b
        else:
            yield acc, a, b

    def covers(self, macc, acc):
        m = [a if k == 'f' else ('[]' if a is None else '[i]') for k, a in macc]
        return list(acc[:len(m)]) == m

    def covers_idx(self, macc, acc):
        m = ['[]' if k == 'i' else a for k, a in macc]
        return sum(1 for k, a in macc if k == 'i' and a is not None) == 1 and list(acc[:len(m)]) == m


class _HP(Path):
    """Path prefix with wildcard indices, to be havocked."""


def _havoc(self, st, p, shape=None, name='h'):
    acc = p.acc
    for n, (k, a) in enumerate(acc):
        if k == 'i' and a is None:
            # havoc the component `rest` of every element
            base = Path(p.root, acc[:n])
            v = self.read(st, base)
            new = self._havoc_below(v, acc[n:], name)
            if self.rec is not None:
                self.rec.append(p)
            saved, self.rec = self.rec, None
            self.write(st, base, new)
            self.rec = saved
            return
    _plain_havoc(self, st, p, shape, name)


def _havoc_below(self, v, acc, name):
    if not acc:
        return self.fresh_like(v, name)
    k, a = acc[0]
    if k == 'i':
        if isinstance(v, VV):
            return VV(v.len, self._havoc_below(v.elem, acc[1:], name))
        if is_z3(v):
            return self.fresh_like(v, name)
        raise Unsupported('havoc below %r' % (v,))
    if isinstance(v, SV):
        f = dict(v.f)
        f[a] = self._havoc_below(f[a], acc[1:], name + '.' + a)
        return SV(v.name, f)
    raise Unsupported('havoc below %r' % (v,))


_plain_havoc = Exec.havoc
Exec.havoc = _havoc
Exec._havoc_below = _havoc_below


class Gen:
    """Collects the obligations of one property."""

    def __init__(self, scratch, tier='quick', only=None):
        self.scratch, self.tier, self.only = scratch, tier, only
        self.obls, self.unsupported, self.inlined = [], [], set()
        self.assumptions, self.models, self.assumed = [], set(), set()
        self.done, self.proving = set(), set()
        self.progs = {}

    def program(self, unit):
        if unit not in self.progs:
            from . import prog
            self.progs[unit] = prog.extract(unit, self.scratch)
        return self.progs[unit]

    def verify(self, ex, fn, contract, setup=None, label=None):
        """Generate the obligations of fn; a function outside the subset is noted."""
        name = label or contract.name
        if self.only and self.only not in name:
            return
        n = len(ex.obls)
        old, contract.name = contract.name, name
        try:
            ex.quiet, ex.rec = 0, None
            ex.top = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', fn.n))
            ex.check(fn, contract, setup)
            self.obls += ex.obls[n:]
            self.done.add(name)
        except Unsupported as e:
            self.unsupported.append((name, str(e)))
        except (KeyError, AttributeError, z3.Z3Exception, IndexError, TypeError, AssertionError, RecursionError) as e:
            import traceback
            self.unsupported.append((name, 'internal: %r %s' % (e, traceback.format_exc(limit=-7).replace('\n', ' | '))))
        finally:
            contract.name = old
            del ex.obls[n:]
            self.inlined |= ex.inlined
            self.models |= ex.used_models
            self.assumed |= ex.used_contracts

    def lemma(self, name, label, hyps, goal):
        """A stand-alone obligation."""
        if self.only and self.only not in name:
            return
        self.obls.append(Obl(name, label, list(hyps), goal, 'lemma', 0))

    def prove(self, *lemmas):
        for l in lemmas:
            if l.name in self.proving:
                continue
            self.proving.add(l.name)
            ax = l.axioms() if callable(l.axioms) else list(l.axioms)
            self.lemma('lemma ' + l.name, l.name, ax + l.hyps, l.goal)

    def trusted_list(self):
        r = ['contract assumed at calls, not proved in this check: ' + n for n in sorted(self.assumed - self.done)]
        if self.models:
            r.append('library functions given by models: ' + ', '.join(sorted({strip_args(m) for m in self.models})))
        return r


def strip_args(n):
    out, d = '', 0
    for i, c in enumerate(n):
        if c == '<' and 'operator' not in n[max(0, i - 9):i]:
            d += 1
        elif c == '>' and d:
            d -= 1
            continue
        if d == 0:
            out += c
    return out
