"""Concrete replay harnesses: programs built from /repo's current sources."""
import json, os, subprocess, time
from . import prog

VERIF = prog.VERIF
SITE = '/opt/clingo-venv/lib/python3.12/site-packages/clingo'
LIBCLINGO = SITE + '/_clingo.cpython-312-x86_64-linux-gnu.so'


def build(scratch, name, mains, repo_srcs, libs=(), opt='-O1', extra=()):
    repo = prog.REPO
    out = os.path.join(scratch, name)
    procs = []
    objs = []
    flags = ['-DCLINGOLPX_USE_FLINT', '-DCLINGOLPX_BUILD_LIBRARY', '-I' + repo + '/libclingo-lpx',
             '-I' + repo + '/libclingo-lpx/src', '-isystem', SITE, '-std=gnu++17', '-w', opt] + list(extra)
    for s in [os.path.join(VERIF, 'harness', m) for m in mains] + \
            [os.path.join(repo, 'libclingo-lpx', 'src', r) for r in repo_srcs]:
        o = os.path.join(scratch, '%s.%s.%d.o' % (name, os.path.basename(s), len(objs)))
        objs.append(o)
        procs.append((s, subprocess.Popen(['g++', '-c', s, '-o', o] + flags, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        txt, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            raise RuntimeError('cannot compile %s: %s' % (s, txt[:700]))
    r = subprocess.run(['g++', '-o', out] + objs + list(libs), capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('cannot link %s: %s' % (name, r.stderr[:700]))
    return out


CLINGO_LIBS = [LIBCLINGO, '-lpython3.12', '-Wl,-rpath,' + SITE, '-lflint', '-lgmp']


def run_cpp(scratch, name, mains, repo_srcs, args, libs=(), timeout=300, opt='-O1', extra=(), env=None):
    """Run a harness. It prints one JSON object per failing input and a final
    {"cases": n, "bound": "...", "samples": [...]} line."""
    t = time.time()
    exe = build(scratch, name, mains, repo_srcs, libs, opt, extra)
    tb = time.time() - t
    return run_exe([exe] + list(args), timeout, tb, env)


def run_par(exe, argss, timeout, tb=0):
    """Run several instances side by side and merge what they report."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(argss)) as p:
        rs = list(p.map(lambda a: run_exe([exe] + a, timeout, tb), argss))
    r = dict(rs[0])
    r['cases'] = sum(x.get('cases', 0) for x in rs)
    r['failures'] = [f for x in rs for f in x['failures']]
    r['instances'] = len(rs)
    r['run_s'] = max(x['run_s'] for x in rs)
    return r


def solver_histories(scratch, prop, seed, tier):
    """harness/solver.cc: histories of the constraint solver for one property."""
    t = time.time()
    exe = build(scratch, 'solver', ['solver.cc'], ['tableau.cc', 'problem.cc', 'parsing.cc'],
                CLINGO_LIBS + ['-Wl,--wrap=_ZN7Tableau5pivotEjjR7IntegerS1_'], '-O1', ['-D_GLIBCXX_ASSERTIONS'])
    n = '60000' if tier == 'thorough' else '3000'
    limit = 3000 if tier == 'thorough' else 300
    return run_par(exe, [[prop, str(seed * 100 + k), n, '-1', str(limit)] for k in range(8)], limit + 60, time.time() - t)


def end_to_end(scratch, prop, seed, tier):
    """harness/e2e.cc: generated programs run through clingo and the whole system."""
    t = time.time()
    exe = build(scratch, 'e2e', ['e2e.cc'], ['solving.cc', 'tableau.cc', 'problem.cc', 'parsing.cc'],
                CLINGO_LIBS + ['-Wl,--wrap=_ZN7Tableau5pivotEjjR7IntegerS1_'], '-O1', ['-D_GLIBCXX_ASSERTIONS'])
    limit = 1200 if tier == 'thorough' else 35
    args = [[prop, str(seed * 100 + k), '100000000', '-1', str(limit)] for k in range(8)]
    return run_par(exe, args, limit + 130, time.time() - t)


def both(*runs):
    """Run several bounded stand-ins one after another; one that cannot be
    built from this tree is left out if another one answers."""
    rs, errs = [], []
    for r in runs:
        try:
            rs.append(r())
        except Exception as e:
            errs.append(str(e))
            continue
        if rs[-1]['failures']:
            break
    if not rs:
        raise RuntimeError('; '.join(errs))
    r = {'cases': sum(x.get('cases', 0) for x in rs), 'failures': [f for x in rs for f in x['failures']],
         'bound': '; '.join(str(x.get('bound', '')) for x in rs), 'runs': [
             {k: v for k, v in x.items() if k != 'failures'} for x in rs],
         'build_s': sum(x['build_s'] for x in rs), 'run_s': sum(x['run_s'] for x in rs)}
    if errs:
        r['not_built'] = errs
    return r


def system(scratch, prop, seed, tier):
    """Solver histories, then whole programs."""
    return both(lambda: solver_histories(scratch, prop, seed, tier), lambda: end_to_end(scratch, prop, seed, tier))


def run_exe(cmd, timeout, tb=0, env=None):
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    timed_out = False
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors='replace')
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        err, rc, timed_out = '', None, True
    fails, final = [], None
    last = None
    for l in out.split('\n'):
        l = l.strip()
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if 'cases' in d:
            final = d
        elif 'at' in d:
            last = d
        else:
            fails.append(d)
    res = dict(final or {'cases': 0})
    if final is None and not fails:
        if timed_out:
            fails.append({'what': 'the real code does not terminate within %d s' % timeout, 'input': last})
        elif rc not in (0, None):
            fails.append({'what': 'the real code crashes (exit status %s)' % rc, 'input': last, 'stderr': err[-500:]})
    res['failures'] = fails
    res['build_s'], res['run_s'] = round(tb, 1), round(time.time() - t, 1)
    return res
