#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'engine/src/algo/'
D = 'engine/src/datastr/'
CCHD = A + 'customizable_contraction_hierarchy/'
P = []          # properties
CLAIMED = {}    # id -> (technique, level_note)


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None, check=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if check:
        CLAIMED[id] = check


TECH = 'stateless exhaustive exploration of the real code over all inputs/histories in bounds, against a reference model'
NOTE = 'Exhaustive within the bounds printed per scenario in the evidence file; nothing is claimed for graphs, weights or histories outside of them. Trusted: the explorer, the reference model, rustc. Parallel code runs on a deterministic stand-in for rayon-core (real rayon iterators on top).'
W = (TECH, NOTE)

exec(open(os.path.join(HERE, 'tools', 'props_list.py')).read())

MISSING = {}
if os.path.exists(os.path.join(HERE, 'tools', 'missing.json')):
    MISSING = json.load(open(os.path.join(HERE, 'tools', 'missing.json')))

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
try:
    hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if ' hook' in l]
except Exception:
    hooks = []
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'cfg(verif_hooks)', 'enable': 'RUSTFLAGS="--cfg verif_hooks" (set by run.sh)', 'source_commits': hooks},
    'checks': [
        {
            'property': i,
            'quick_cmd': 'bash run.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + i,
            'technique': CLAIMED[i][0],
            'level': 'model_checking',
            'level_note': CLAIMED[i][1],
        }
        for i in [p['id'] for p in P]
        if i in CLAIMED
    ],
    'not_applicable': [{'property': p['id'], 'reason': MISSING.get(p['id'], 'check not built yet')} for p in P if p['id'] not in CLAIMED],
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(CLAIMED), 'claimed')
