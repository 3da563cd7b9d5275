#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R + '/bin')
from props import PROPS
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd='python3 bin/check.py %s' % pid,
        thorough_cmd='python3 bin/check.py %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='symbolic execution of the LLVM IR of the real crate, branches and assertions decided by Z3, counterexamples replayed natively',
        level='model_checking',
        level_note='Holds for every input within these bounds: %s. Outside: %s. Trusts rustc/LLVM, the engine in /verif/engine (checked by re-running sampled paths natively) and Z3.'
                   % (p['bounds'], p['outside'])))
m = dict(version=1, setup_cmd='python3 bin/build.py', checks=checks, not_applicable=[],
         notes='No hooks: the checks use the public API of the crate only. Repairs of genuine defects are listed in known-findings.json.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
