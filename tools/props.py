"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'arm-wt-22k/lib_src/'
H = 'arm-wt-22k/host_src/'
P = []


def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q},
              'why_tests_cant': why, 'anchors': a})


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

import importlib.util
spec = importlib.util.spec_from_file_location('driver', os.path.join(V, 'lib', 'driver.py'))
drv = importlib.util.module_from_spec(spec)
spec.loader.exec_module(drv)
units = drv.load_units()
claimed = {}
for u in units.values():
    for p in u.props:
        claimed.setdefault(p, []).append(u)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    pid = p['id']
    if pid in claimed and pid not in NOT_CLAIMED:
        us = claimed[pid]
        nb = [u for u in us if u.kind != 'proof']
        fn = sorted({u.enforce for u in us if u.enforce} | {c for u in us for c in u.covers})
        checks.append({'property': pid, 'quick_cmd': 'python3 /verif/lib/driver.py check %s --tier quick' % pid,
                       'thorough_cmd': 'python3 /verif/lib/driver.py check %s --tier thorough' % pid,
                       'technique': 'contract-based deductive verification (CBMC 6.11 code contracts, goto-instrument --dfcc, bit-precise back end) of the real functions, compiled from /repo on every run',
                       'level': 'proof' if len(nb) < len(us) else 'other',
                       'level_note': LEVEL_NOTES.get(pid, '') or ('functions under contract: ' + ', '.join(fn) + ('; bounded units (not counted as proof): ' + ', '.join(u.name for u in nb) if nb else ''))})
    else:
        na.append({'property': pid, 'reason': NOT_CLAIMED.get(pid, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks,
           'hooks': HOOKS, 'not_applicable': na,
           'notes': 'One driver (lib/driver.py) decides every property; units/*.c hold the contracts. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('properties %d claimed %d' % (len(P), len(checks)))
