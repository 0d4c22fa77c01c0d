"""Writes MANIFEST.json from the registered checks and the not-applicable list."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
props = {}
for f in sorted(os.listdir(os.path.join(V, 'sa'))):
    if f.startswith('p_') and f.endswith('.py'):
        props.update(importlib.import_module(f[:-3]).PROPS)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'static value-graph (gated SSA normal form) equivalence over rustc MIR'
NOTE = ('Every obligation is decided on the MIR of the working tree, for all inputs of the stated types, by normal-form equality; real arithmetic is '
        'used for floats (rounding is not modelled), and std/rayon/image calls are trusted to their modelled semantics. Obligations whose normal forms '
        'neither coincide nor are separated are listed in the evidence as open and never alarm.')
m = {'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props:
        p = props[i]
        tech = p[3] if len(p) > 3 else TECH
        note = p[4] if len(p) > 4 else NOTE
        m['checks'].append({'property': i, 'quick_cmd': 'python3 sa/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 sa/run.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': tech, 'level': p[1], 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Not claimed yet: its static decision procedure is not finished.')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
