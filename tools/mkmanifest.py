"""Writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
claimed = set(plan.UNTYPED) | set(getattr(plan, 'OTHERS', {}))
NA = {}
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='no hooks are needed: everything is observed through the public API', source_commits=[]),
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by replaying generated behaviours and validating recorded ones.')
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append(dict(
            property=i, quick_cmd='VERIF_TIER=quick python3 tools/check.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
            evidence_file='evidence/%s.json' % i,
            technique=plan.TECHNIQUE.get(i, plan.TECHNIQUE['']), level='model_checking',
            level_note=plan.NOTE.get(i, plan.NOTE[''])))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
