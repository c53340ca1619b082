#!/usr/bin/env python3-vt
"""Decides one property: check.py <property> [--tier quick|thorough].

Extracts the functions from /repo's current source, generates the obligations
of their contracts, discharges them, and replays failures on the real code.
"""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vc import prog, core, discharge, known  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--fn')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    mod = importlib.import_module('vc.' + a.prop.lower())
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % a.prop)
    try:
        return run(a, mod, scratch, seed, tier, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, mod, scratch, seed, tier, t0):
    prop = a.prop
    gen = core.Gen(scratch, tier, only=a.fn)
    broken = []
    if not a.no_proof:
        try:
            mod.generate(gen)
        except prog.ExtractionError as e:
            broken.append(('extraction', str(e)))
        except Exception as e:
            broken.append(('generation', '%s\n%s' % (e, traceback.format_exc(limit=8))))
    obls = gen.obls
    opt = {'ms': 20000 if tier == 'quick' else 120000, 'total_s': 420 if tier == 'quick' else 6000}
    opt.update(getattr(mod, 'OPT', {}))
    if tier == 'thorough':
        opt['ms'] = max(opt['ms'], 120000)
    if not a.no_proof and not broken and len(obls) == 0:
        broken.append(('generation', 'no obligations were generated'))
    # the concrete harness runs beside the solvers
    hres = None
    discharge.discharge(obls, opt)
    if a.v:
        for o in sorted(obls, key=lambda o: -o.time)[:15]:
            print('%7.2fs %-8s %s | %s' % (o.time, o.status, o.fn, o.label))
    failed = [o for o in obls if o.status != 'proved']
    if not a.no_harness and hasattr(mod, 'harness'):
        try:
            hres = mod.harness(scratch, seed, tier, failed, bool(broken or gen.unsupported))
        except Exception as e:
            hres = {'error': '%s\n%s' % (e, traceback.format_exc(limit=6)), 'cases': 0, 'failures': []}
    # -- verdict
    kf = known.load(prop)
    lines, viol = [], []
    hf = (hres or {}).get('failures', [])
    for f in hf:
        k = known.match(kf, f)
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            viol.append(f)
    lines = list(dict.fromkeys(lines))
    rdir = os.path.join(HERE, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.json' % prop)
    nviol = 0
    obl_txt = [{'function': o.fn, 'obligation': o.label, 'kind': o.kind, 'line': o.line, 'status': o.status,
                'solver_output': o.info} for o in failed]
    if viol or failed:
        rep = {'property': prop, 'seed': seed, 'tier': tier, 'failed_obligations': obl_txt,
               'failing_inputs': viol[:20], 'rerun': 'VERIF_SEED=%d python3-vt %s %s --tier %s' % (
                   seed, os.path.join(HERE, 'check.py'), prop, tier)}
        with open(rpath, 'w') as f:
            json.dump(rep, f, indent=1)
    for o in failed[:20]:
        print('failed obligation: %s: %s (%s, line %s): %s' % (o.fn, o.label, o.kind, o.line,
                                                             (o.info or '').split('\n')[0][:200]))
    for v in viol[:10]:
        print('failing input: %s' % json.dumps(v)[:600])
    for l in lines:
        print(l)
    if viol:
        nviol = len(viol)
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif failed:
        nviol = len(failed)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    for k, t in broken:
        print('note: %s: %s' % (k, t.split('\n')[0] if not a.v else t))
    for f, w in gen.unsupported:
        print('note: %s is outside the verifier\'s reach (%s)' % (f, w))
    if hres and hres.get('error'):
        print('note: harness: %s' % hres['error'].split('\n')[0][:600])
    # -- evidence
    vac = [o for o in obls if o.kind == 'vacuity']
    obls = [o for o in obls if o.kind != 'vacuity']
    by = {}
    for o in obls:
        if o.status == 'proved':
            by[o.backend] = by.get(o.backend, 0) + 1
    proved = [o for o in obls if o.status == 'proved']
    fns = {}
    for o in obls:
        d = fns.setdefault(o.fn, [0, 0])
        d[0] += 1
        d[1] += o.status == 'proved'
    cov = {
        'obligations': len(obls), 'discharged': len(proved),
        'checker_cmd': 'python3-vt %s %s --tier %s --no-harness' % (os.path.join(HERE, 'check.py'), prop, tier),
        'trusted_base': sorted(set(TRUSTED + list(getattr(mod, 'TRUSTED', [])) + gen.trusted_list())),
        'vacuity_checks': '%d of %d preconditions and returns not refutable' % (
            sum(o.status == 'proved' for o in vac), len(vac)),
        'by_backend': by, 'solver_time_s': round(sum(o.time for o in obls), 2),
        'obligations_by_kind': count(o.kind for o in obls),
        'functions_under_contract': {k: '%d/%d discharged' % (v[1], v[0]) for k, v in sorted(fns.items())},
        'functions_inlined_into_callers': sorted(gen.inlined),
        'outside_reach_on_this_tree': ['%s: %s' % x for x in gen.unsupported] + ['%s: %s' % (k, t.split('\n')[0]) for k, t in broken],
    }
    if hres is not None:
        cov['bounded_stand_in'] = {k: v for k, v in hres.items() if k != 'failures'}
        cov['bounded_stand_in']['label'] = 'bounded, not counted as proved'
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'proof' if obls else 'other',
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + gen.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if not obls:
        cov['explanation'] = 'no obligations could be generated from this tree; only the bounded stand-in ran'
    if not a.fn:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %.1f s solver time, %.1f s%s' % (
        prop, len(obls), len(proved), len(fns), sum(o.time for o in obls), time.time() - t0,
        '' if hres is None else '; stand-in: %s cases' % hres.get('cases')))
    if not nviol and not obls and (hres is None or hres.get('error')):
        print('no answer: neither the proof nor the stand-in could be run')
        return 2
    return 1 if nviol else 0


def count(xs):
    r = {}
    for x in xs:
        r[x] = r.get(x, 0) + 1
    return r


TRUSTED = [
    'clang 18 front end and tools/cxxdump.cc (extraction of the syntax trees)',
    'vc/core.py (obligation generator: C++ subset semantics, memory model without aliasing between distinct '
    'parameters unless stated)',
    'vc/stdmodels.py (meaning of the C++ standard library pieces used)',
    'z3 and cvc5',
]

if __name__ == '__main__':
    sys.exit(main())
