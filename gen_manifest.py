import json, os
# property -> (level, technique, note)
PROOF = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vf', 'levels.py')).read())
checks = []
for line in open('/verif/properties.jsonl'):
    d = json.loads(line)
    i = d['id']
    level, tech, note = LEVELS[i]
    checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
                       evidence_file=f'evidence/{i}.json', technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA,
               notes='Checks rebuild /repo in a scratch directory; no hooks in /repo are needed.'), open('/verif/MANIFEST.json', 'w'), indent=1)
