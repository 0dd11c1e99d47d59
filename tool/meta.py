"""Generates properties.jsonl and MANIFEST.json. Run by hand after editing; both outputs are committed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, A = 'libs/MeshKernel/', 'libs/MeshKernelApi/'
PROPS = []
CLAIMED = {}
NA = {}


def P(id, title, statement, over, text, why, files, mech, observe=()):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


def claim(id, technique, note, level='proof'):
    CLAIMED[id] = (technique, level, note)


exec(open(os.path.join(V, 'tool', 'meta_props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': CLAIMED[p['id']][0], 'level': CLAIMED[p['id']][1], 'level_note': CLAIMED[p['id']][2]} for p in PROPS if p['id'] in CLAIMED],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no contract built for it yet')} for p in PROPS if p['id'] not in CLAIMED],
     'notes': 'Contracts in props/*.py on functions extracted mechanically from /repo on every run (tool/cxxdump.cpp); VC generator mkv/; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in PROPS: jsonschema.validate(p, s)
print(len(PROPS), 'properties', len(CLAIMED), 'claimed')
