"""Writes MANIFEST.json from the checks that exist."""
import importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        t = TECH[i]
        checks.append(dict(property=i,
            quick_cmd='/opt/venv/bin/python -B bin/check.py %s quick' % i,
            thorough_cmd='/opt/venv/bin/python -B bin/check.py %s thorough' % i,
            technique=t['technique'], level='model_checking', level_note=t['note']))
    else:
        na.append(dict(property=i, reason='check not written yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, ast; print(numpy.__version__)"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
