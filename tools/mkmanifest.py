#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
from registry import CHECKS, INFO
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
BASE = ('Decided from the type-checked syntax tree of /repo (all sources, the build variants named in the evidence), nothing is executed. ')
TR = (' Trusts the clang 18 front end, the exporter and the interpreter in lib/, the models of FFTW/SHTns/the standard library in lib/models.py, and reads floating point as real arithmetic; '
      'equalities of normal forms are tested modulo a 90-bit prime at random valuations (randomised global value numbering). Constructs the analysis cannot resolve are listed as undecided in the evidence and raise no alarm.')
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python tools/setup.py', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        tech, level, note = INFO[p]
        m['checks'].append(dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='VERIF_TIER=thorough ./check.py %s' % p,
                                technique=tech, level=level, level_note=BASE + note + TR))
NA = {'C40': 'stability and convergence quantify over the spectrum of the discretised operator and over run-time solutions; no sound static argument in reach bounds them'}
for p in props:
    if p not in CHECKS: m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check under construction')))
m['notes'] = 'No hooks: the checks need no instrumentation of /repo. VERIF_VERBOSE=1 prints undecided obligations.'
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
