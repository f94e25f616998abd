"""Writes MANIFEST.json from vc/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/vc', V + '/l2']
import spec
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in sorted(spec.SPEC):
    s = spec.SPEC[p]
    checks.append(dict(property=p, quick_cmd='python3-vt -B check.py %s --tier quick' % p, thorough_cmd='python3-vt -B check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=s.technique, level=s.level, level_note=s.note))
na = [dict(property=p, reason=spec.NA.get(p, 'check under construction')) for p in allp if p not in spec.SPEC]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
               notes='Every check rebuilds dredd and the extractor from /repo into /verif/.build (git-ignored). No hooks are needed in /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
