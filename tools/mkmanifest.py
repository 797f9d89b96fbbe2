"""Writes /verif/MANIFEST.json from properties.jsonl and the modules in kymon/props (run by hand)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {'X01': 'needs a CUDA device and the scikit-cuda/cupy stack, neither of which exists in this sandbox: the code cannot be executed, so there is no execution to monitor'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(ROOT, 'kymon', 'props', i + '.py')):
        m = importlib.import_module('kymon.props.' + i)
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': 'runtime monitoring: ' + m.TECHNIQUE, 'level': 'exploration', 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: monitors attach through the public API (backend objects, audit hooks, framework tracing).'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
