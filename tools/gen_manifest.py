"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']; f = os.path.join(H, 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')}); continue
    src = open(f).read()
    ir = 'vlib import ir' in src or 'vlib.ir' in src or 'vlib import cdrv' in src or 'vlib.cdrv' in src or 'uvlib' in src or 'declib' in src or 'gridlib' in src or 'vlib import mir' in src
    tech = ('symbolic execution of the LLVM IR of the current C/C++ sources' + (' and of the Python layer' if 'SymPackage' in src or 'Scenario(' in src else '') if ir else 'symbolic execution of the current Python sources') + ', obligations decided by SMT (z3), models replayed on the real build'
    checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python run.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python run.py %s' % i,
        'technique': tech, 'level': 'other',
        'level_note': 'Bounded: decided for all values of the symbolic inputs within the sizes stated in the evidence; trusts the encoder (validated by replaying models on the real code), the numpy/libc/ephem/healpy contracts named in DESIGN.md and z3; floating point as exact reals unless stated otherwise.'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks, 'not_applicable': na,
    'notes': 'run.py Cxx rebuilds a scratch copy of /repo, executes the current sources symbolically and replays solver models on the build; VERIF_TIER and VERIF_SEED are honoured.'},
    open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
