"""Loading of the extracted program (JSON written by tools/cxxdump)."""
import json, os, subprocess, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLINGO_INC = '/opt/clingo-venv/lib/python3.12/site-packages/clingo'
FLAGS = ['-DCLINGOLPX_USE_FLINT', '-DCLINGOLPX_BUILD_LIBRARY', '-I' + REPO + '/libclingo-lpx',
         '-isystem', CLINGO_INC, '-std=gnu++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wno-everything']


class ExtractionError(Exception):
    pass


class Ty:
    __slots__ = ('p', 'id')

    def __init__(self, p, id):
        self.p, self.id = p, id

    @property
    def d(self):
        return self.p.types[self.id]

    @property
    def k(self):
        return self.d.get('k')

    @property
    def n(self):
        return self.d.get('n', '')

    @property
    def q(self):
        return self.d.get('q', '')

    @property
    def const(self):
        return bool(self.d.get('c'))

    @property
    def to(self):
        return Ty(self.p, self.d['t'])

    @property
    def args(self):
        r = []
        for a in self.d.get('args', []):
            if 't' in a:
                r.append(Ty(self.p, a['t']))
            elif 'v' in a:
                r.append(int(a['v']))
            else:
                r.append(None)
        return r

    def strip(self):
        t = self
        while t.k == 'ref':
            t = t.to
        return t

    @property
    def isref(self):
        return self.k == 'ref'

    def __str__(self):
        k = self.k
        if k == 'ref':
            return str(self.to) + ('&&' if self.d.get('rv') else '&')
        if k == 'ptr':
            return str(self.to) + '*'
        if k == 'fn':
            return 'fn'
        return ('const ' if self.const else '') + (self.n or k or '?')

    __repr__ = __str__


class Func:
    def __init__(self, p, d):
        self.p, self.d = p, d
        self.id = d['id']
        self.n = d['n']
        self.s = d['s']
        self.ps = [(x['id'], x['n'], Ty(p, x['t'])) for x in d['ps']]
        self.ret = Ty(p, d['ret'])
        self.rec = d.get('rec')
        self.static = d.get('static', False)
        self.dflt = d.get('dflt', False)
        self.body = d['body']
        self.file = d['loc']['f']
        self.line = d['loc']['l']
        self.is_ctor = d.get('ctor', False)
        self.is_method = self.rec is not None and not self.static
        self.isconst = d.get('const', False)
        self.lam = d.get('lambda')

    def sig(self):
        return '%s(%s)%s' % (self.n, ', '.join(str(t) for _, _, t in self.ps), ' const' if self.isconst else '')

    def __repr__(self):
        return self.sig()


class Program:
    def __init__(self, data, name=''):
        self.name = name
        self._globs = None
        self.types = data['types']
        self.records = data['records']
        self.enums = data['enums']
        self.funcs = [Func(self, d) for d in data['funcs']]
        self.byid = {f.id: f for f in self.funcs}
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.n, []).append(f)
        self.lambdas = {}
        for f in self.funcs:
            if f.lam is not None:
                self.lambdas.setdefault(f.lam, []).append(f)

    def ty(self, id):
        return Ty(self, id)

    def globs(self):
        """The initializers of global variables (given at one of their uses)."""
        if self._globs is None:
            self._globs = {}
            todo = [f.d for f in self.funcs]
            while todo:
                x = todo.pop()
                if isinstance(x, dict):
                    if 'ginit' in x:
                        self._globs[x['glob']] = x['ginit']
                    todo.extend(x.values())
                elif isinstance(x, list):
                    todo.extend(x)
        return self._globs

    def find(self, n, ps=None, allow_none=False, const=None):
        """The function with qualified name n (and parameter types ps)."""
        c = [f for f in self.byname.get(n, []) if not f.dflt]
        if ps is not None:
            c = [f for f in c if [str(t) for _, _, t in f.ps] == list(ps)]
        if const is not None:
            c = [f for f in c if f.isconst == const]
        if not c and allow_none:
            return None
        if len(c) == 0:
            raise ExtractionError('function not found: %s%s' % (n, ps or ''))
        return c[0] if len(c) == 1 else c

    def record_fields(self, n):
        r = self.records.get(n)
        if r is None:
            return None
        fs = []
        for b in r['bases']:
            bf = self.record_fields(self.ty(b).n)
            fs += bf or []
        return fs + [(f['n'], self.ty(f['t'])) for f in r['fields']]


def build_dir():
    d = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
    os.makedirs(d, exist_ok=True)
    return d


def ensure_tool():
    b = os.path.join(VERIF, 'build', 'cxxdump')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(os.path.join(VERIF, 'tools', 'cxxdump.cc')):
        r = subprocess.run(['make', '-C', os.path.join(VERIF, 'tools')], capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractionError('cannot build the extractor: ' + r.stderr[-2000:])
    return b


def extract(unit, scratch):
    """Extract one translation unit of the current working tree of /repo."""
    tool = ensure_tool()
    out = os.path.join(scratch, unit.replace('/', '_') + '.json')
    src = os.path.join(REPO, 'libclingo-lpx', 'src', unit)
    r = subprocess.run([tool, REPO + '/libclingo-lpx/', out, src, '--'] + FLAGS, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise ExtractionError('extraction of %s failed:\n%s' % (unit, (r.stdout + r.stderr)[-3000:]))
    with open(out) as f:
        data = json.load(f)
    os.unlink(out)
    return Program(data, unit)
