"""Discharge of obligations, in parallel, by z3 and cvc5."""
import multiprocessing, os, signal, subprocess, sys, tempfile, time
import z3

_OBL = None
_OPT = None
_BEAT = None    # told about each solver call: its name and its time limit


def _solver(kind, ms):
    if kind == 'ematch':
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
        s.set('smt.arith.solver', 6)
        return s
    if kind == 'ematch2':
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
        s.set('smt.arith.solver', 2)
        s.set('smt.random_seed', 7)
        return s
    if kind == 'full':
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('smt.mbqi', False)
        return s
    if kind == 'nlsat':
        s = z3.Tactic('qfnra-nlsat').solver() if False else z3.Solver()
        s.set('timeout', ms)
        return s
    s = z3.Solver()
    s.set('timeout', ms)
    return s


_abs = {}
_mulf = {}


def abstract_products(e):
    """Replace products of unknowns by uninterpreted functions (sound for
    proving: everything valid afterwards is valid before)."""
    k = e.get_id()
    r = _abs.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(e):
        vs = [z3.Const('av!%d!%s!%s' % (e.get_id(), i, e.var_name(i)), e.var_sort(i)) for i in range(e.num_vars())]
        sub = list(reversed(vs))
        body = abstract_products(z3.substitute_vars(e.body(), *sub))
        pats = []
        for i in range(e.num_patterns()):
            p = e.pattern(i)
            ts = [abstract_products(z3.substitute_vars(t, *sub)) for t in p.children()]
            pats.append(z3.MultiPattern(*ts))
        if e.is_forall():
            r = z3.ForAll(vs, body, patterns=pats)
        elif e.is_exists():
            r = z3.Exists(vs, body, patterns=pats)
        else:
            r = e
    elif z3.is_app(e) and e.num_args():
        ch = [abstract_products(c) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_MUL:
            nums, fs = [], []

            def flat(c):
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                    for d in c.children():
                        flat(d)
                elif z3.is_int_value(c) or z3.is_rational_value(c):
                    nums.append(c)
                elif c.decl().kind() == z3.Z3_OP_UMINUS:
                    nums.append(z3.IntVal(-1) if c.sort() == z3.IntSort() else z3.RealVal(-1))
                    flat(c.arg(0))
                elif c.decl().name() == 'mul$':
                    fs.extend(c.children())
                elif c.decl().kind() == z3.Z3_OP_TO_REAL and c.arg(0).decl().kind() == z3.Z3_OP_MUL:
                    for d in c.arg(0).children():
                        flat(z3.ToReal(d))
                else:
                    fs.append(c)
            for c in ch:
                flat(c)
            if len(fs) >= 2:
                fs.sort(key=lambda c: c.get_id())
                s = fs[0].sort()
                g = z3.Function('mul$', *([s] * (len(fs) + 1)))
                _mulf[str(s), len(fs)] = g
                r = g(*fs)
            else:
                r = fs[0] if fs else None
            for n in nums:
                r = n if r is None else n * r
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            k2 = e.decl().kind()
            if k2 == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif k2 in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = z3.And(ch) if k2 == z3.Z3_OP_AND else z3.Or(ch)
            elif k2 == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(ch)
            elif k2 == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            else:
                r = e.decl()(*ch)
    else:
        r = e
    _abs[k] = (e, r)
    return r


def product_axioms():
    r = []
    for (s, n), g in _mulf.items():
        S = g.domain(0)
        vs = [z3.Const('m!%d' % i, S) for i in range(n)]
        t = g(*vs)
        one = z3.IntVal(1) if s == 'Int' else z3.RealVal(1)
        r.append(z3.ForAll(vs, (t == 0) == z3.Or([v == 0 for v in vs]), patterns=[t]))
        if n == 2:
            x, y = vs
            r.append(z3.ForAll(vs, t == g(y, x), patterns=[t]))
            r.append(z3.ForAll(vs, z3.And(z3.Implies(x == 1, t == y), z3.Implies(x == -1, t == -y)), patterns=[t]))
            if s == 'Int':
                pass
    return r


def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return '(set-logic ALL)\n' + s.to_smt2()


def _cvc5(text, ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-ext-tplanes', f.name], capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return out
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)


def _model_text(m, limit=3000):
    try:
        return '\n'.join('%s = %s' % (d, m[d]) for d in sorted(m.decls(), key=str) if d.arity() == 0)[:limit]
    except Exception:
        return ''


def has_q(fs):
    from .core import has_quant
    return any(has_quant(f) for f in fs)


def solve_one(o, opt, skip=()):
    """('proved'|'failed'|'unknown', backend, info); solver calls in skip are left out"""
    def beat(kind, ms):
        if _BEAT is not None:
            _BEAT(kind, ms)
    hyps = list(o.hyps) + list(o.hints)
    if o.kind == 'vacuity':
        s = _solver('ematch', opt.get('vac_ms', 1500))
        s.add(hyps)
        beat('vacuity', opt.get('vac_ms', 1500))
        r = z3.unknown if 'vacuity' in skip else s.check()
        return ('failed', 'z3', 'contradictory') if r == z3.unsat else ('proved', 'z3', str(r))
    goal = o.goal
    if z3.is_false(z3.simplify(goal)):
        goal = z3.BoolVal(False)
    ms = opt.get('ms', 20000)
    q = has_q(hyps + [goal])
    info = []
    plan = [('ematch', ms // 4), ('full', ms // 4), ('default', ms // 4), ('cvc5', ms // 2), ('ematch2', ms // 2), ('ematch', ms)] if q else \
        [('default', ms // 2), ('cvc5', ms), ('default', ms)]
    cand = None
    ah = [abstract_products(h) for h in hyps]
    ag = abstract_products(goal)
    if 'products' not in skip and (not ag.eq(goal) or any(not a.eq(b) for a, b in zip(ah, hyps))):
        beat('products', ms // 4)
        s = _solver('ematch', ms // 4)
        s.add(ah)
        s.add(product_axioms())
        s.add(z3.Not(ag))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3 %s' % z3.get_version_string(), ''
    for n, (kind, t) in enumerate(plan):
        if '%s%d' % (kind, n) in skip:
            continue
        beat('%s%d' % (kind, n), t)
        if kind == 'cvc5':
            r = _cvc5(to_smt2(hyps, goal), t)
            if r == 'unsat':
                return 'proved', 'cvc5 1.1.2', ''
            info.append('cvc5: ' + r)
            if r == 'sat':
                return 'failed', 'cvc5 1.1.2', cand or 'sat'
            continue
        s = _solver(kind, t)
        s.add(hyps)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3 %s' % z3.get_version_string(), ''
        if r == z3.sat:
            return 'failed', 'z3 %s' % z3.get_version_string(), 'counterexample:\n' + _model_text(s.model())
        why = s.reason_unknown()
        info.append('z3(%s): %s' % (kind, why))
        try:
            cand = 'candidate counterexample:\n' + _model_text(s.model())
        except Exception:
            pass
    return 'unknown', '', '; '.join(info) + ('\n' + cand if cand else '')


def _worker(conn):
    """Solve the obligations asked for until told to stop."""
    global _BEAT
    _BEAT = lambda kind, ms: conn.send(('beat', kind, ms))
    while True:
        m = conn.recv()
        if m is None:
            return
        i, skip = m
        t = time.time()
        try:
            st, be, info = solve_one(_OBL[i], _OPT, skip)
        except Exception as ex:
            st, be, info = 'unknown', '', 'error: %r' % (ex,)
        conn.send(('done', i, st, be, info, time.time() - t))


class _Pool:
    """Worker processes; one that dies or does not respect its time limits is
    replaced and its obligation tried again, the third time without the solver
    call that hung."""

    def __init__(self, n, todo, limit):
        self.ctx = multiprocessing.get_context('fork')
        self.todo, self.limit = list(reversed(todo)), limit
        self.n, self.ws, self.hung = n, [], {}

    def start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        w = {'p': p, 'c': a, 'i': None, 'until': None, 'stage': None}
        self.ws.append(w)
        return w

    def give(self, w):
        if not self.todo:
            w['i'] = None
            return
        w['i'] = i = self.todo.pop()
        h = self.hung.get(i, [])
        w['stage'], w['until'] = None, time.time() + 60
        w['c'].send((i, tuple(k for k in h if h.count(k) >= 2)))

    def lost(self, w):
        """The worker died or hangs."""
        i, h = w['i'], self.hung.setdefault(w['i'], [])
        h.append(w['stage'])
        w['p'].kill()
        w['p'].join()
        w['c'].close()
        self.ws.remove(w)
        if len(h) < 6:
            self.todo.append(i)
            r = None
        else:
            r = ('done', i, 'unknown', '', 'the solver hangs or dies', 0.0)
        self.give(self.start())
        return r

    def run(self):
        from multiprocessing.connection import wait
        t0 = time.time()
        for _ in range(min(self.n, len(self.todo))):
            self.give(self.start())
        try:
            while True:
                busy = [w for w in self.ws if w['i'] is not None]
                if not busy:
                    return
                now = time.time()
                if self.limit is not None and now - t0 > self.limit:
                    return
                ready = wait([w['c'] for w in busy], 1.0)
                for w in busy:
                    if w['c'] in ready:
                        try:
                            m = w['c'].recv()
                        except (EOFError, OSError):
                            r = self.lost(w)
                            if r:
                                yield r[1:]
                            continue
                        if m[0] == 'beat':
                            w['stage'], w['until'] = m[1], time.time() + 2 * m[2] / 1000 + 15
                        else:
                            self.give(w)
                            yield m[1:]
                    elif time.time() > w['until']:
                        r = self.lost(w)
                        if r:
                            yield r[1:]
        finally:
            for w in self.ws:
                w['p'].kill()
            for w in self.ws:
                w['p'].join()


def discharge(obls, opt=None, jobs=8):
    """Solve all obligations; fills in status/backend/time/info."""
    global _OBL, _OPT
    opt = dict(opt or {})
    todo = []
    for i, o in enumerate(obls):
        if o.kind != 'vacuity':
            g = o.goal
            if z3.is_true(g) or z3.is_true(z3.simplify(g)):
                o.status, o.backend, o.time = 'proved', 'trivial', 0.0
                continue
            if any(g.eq(h) for h in o.hyps):
                o.status, o.backend, o.time = 'proved', 'trivial', 0.0
                continue
        todo.append(i)
    _OBL, _OPT = obls, opt
    # obligations of several instances of one template are often identical
    seen, dup = {}, {}
    uniq = []
    for i in todo:
        o = obls[i]
        k = (o.kind == 'vacuity', tuple(sorted(h.get_id() for h in list(o.hyps) + list(o.hints))),
             None if o.goal is None else o.goal.get_id())
        if k in seen:
            dup[i] = seen[k]
        else:
            seen[k] = i
            uniq.append(i)
    todo = uniq
    if not todo:
        return
    t0 = time.time()
    limit = opt.get('total_s')
    left = set(todo)
    for i, st, be, info, dt in _Pool(jobs, todo, limit).run():
        left.discard(i)
        o = obls[i]
        o.status, o.backend, o.info, o.time = st, be, info, dt
    for i in left:
        obls[i].status, obls[i].info = 'unknown', 'overall time limit reached'
    for i, j in dup.items():
        a, b = obls[i], obls[j]
        a.status, a.backend, a.info = b.status, b.backend, b.info
    # a function whose every return is contradictory says nothing; single dead paths are fine
    rets = {}
    for o in obls:
        if o.kind == 'vacuity' and o.label == 'return is reachable':
            rets.setdefault(o.fn, []).append(o)
    for os_ in rets.values():
        if any(o.status == 'proved' for o in os_):
            for o in os_:
                if o.status != 'proved':
                    o.status, o.info = 'proved', 'dead path'
