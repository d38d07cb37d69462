#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the binaries that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    id = p['id']
    if os.path.exists('%s/harness/src/bin/%s.rs' % (root, id.lower())):
        t, n = notes[id]
        checks.append(dict(property=id, quick_cmd='bash check.sh ' + id, thorough_cmd='VERIF_TIER=thorough bash check.sh ' + id,
            technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=id, reason='The check for this property is not built yet.'))
m = dict(version=1, setup_cmd='bash check.sh --setup', checks=checks, not_applicable=na,
    notes='All checks are generated-input search (property-based testing) with an integrated shrinker; no hooks in /repo are needed.')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks')
