#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
import config
checks = []
for p in config.PROPS:
    if p in config.NOT_CLAIMED: continue
    checks.append(dict(property=p, quick_cmd='python3 tool/driver.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 tool/driver.py %s' % p,
        evidence_file='evidence/%s.json' % p, technique=config.TECHNIQUE.get(p, config.TECHNIQUE['default']), level=config.LEVEL[p], level_note=config.NOTE[p]))
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='none', enable='no hooks: the checks use the public API and the expanded source', source_commits=[]),
    checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in config.NOT_CLAIMED.items()],
    notes='Known findings: known-findings.txt. Replay of a reported violation: python3 tool/replay.py <path>.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
