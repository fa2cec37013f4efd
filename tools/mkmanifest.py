"""(Re)generates MANIFEST.json: every property with a check module in checks/ is claimed."""
import json, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES = json.load(open('/verif/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('/verif/checks/%s.py' % i.lower()):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
