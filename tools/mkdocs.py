#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note='', bounded='', claimed=True, na=''):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                              'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': ['values returned to a Dyon program or to the embedding Rust program'],
                              'hook_needed': 'cfg(dyon_verif) include of the contracts'},
                  '_note': note, '_bounded': bounded, '_claimed': claimed, '_na': na})


exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
BASE = ('Every obligation of every contract is generated from the MIR that rustc builds from /repo on this run and discharged by z3 (fallback cvc5), for all inputs; loops are cut at inferred inductive invariants. '
        'Trusted: rustc MIR, mirex, mirver, z3, the std models and the assumptions listed in the evidence file. ')
m = {'version': 1,
     'setup_cmd': 'python3 mirver/build.py setup',
     'hooks': {'guard': '--cfg dyon_verif', 'enable': 'RUSTFLAGS="--cfg dyon_verif" with DYON_VERIF_DIR naming the assembled contract directory (mirver/build.py does both)', 'source_commits': ['3d9d4f6', '7df2703']},
     'checks': [], 'not_applicable': [],
     'notes': 'Contract-based deductive verification of the real code: see DESIGN.md. A contract whose obligations cannot be decided on a changed tree falls back to its labelled bounded companion.'}
for p in PROPS:
    if p['_claimed']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': 'contracts on the real functions, verification conditions generated from MIR, discharged by SMT', 'level': 'proof',
                            'level_note': BASE + p['_note'] + (' Bounded only (never counted as proved): ' + p['_bounded'] if p['_bounded'] else '')})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in PROPS:
        jsonschema.validate({k: v for k, v in p.items() if not k.startswith('_')}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(PROPS))
except ImportError:
    pass
