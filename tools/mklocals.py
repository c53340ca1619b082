"""Record names and types of the local variables of the verified functions.

The contracts name local variables in loop invariants; vc/locals.json lets the
verifier recognise a variable that has been renamed since.  Run this when the
contracts change:  python3-vt tools/mklocals.py [CXX ...]
"""
import importlib, json, os, sys, tempfile
os.environ['VERIF_LOCALS'] = '1'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import core  # noqa: E402
for m in sys.argv[1:] or ['C%02d' % i for i in range(1, 17)]:
    with tempfile.TemporaryDirectory() as d:
        gen = core.Gen(d, 'quick', only=None)
        importlib.import_module('vc.' + m.lower()).generate(gen)
        assert not gen.unsupported, gen.unsupported
if sys.argv[1:]:
    for k, v in core.LOCALS.items():
        for n, t in v.items():
            core.RECORD.setdefault(k, {}).setdefault(n, t)
with open(os.path.join(HERE, 'vc', 'locals.json'), 'w') as f:
    json.dump(core.RECORD, f, indent=0, sort_keys=True)
    f.write('\n')
