"""writes MANIFEST.json from the check modules (run by hand after adding a check)"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        m = importlib.import_module('checks.' + pid.lower())
    except ModuleNotFoundError as e:
        if not e.name.startswith('checks'):
            raise       # run with the wrong interpreter
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    checks.append(dict(property=pid, quick_cmd='/opt/venv/bin/python run.py %s quick' % pid, thorough_cmd='/opt/venv/bin/python run.py %s thorough' % pid,
                       technique=getattr(m, 'TECHNIQUE', 'runtime monitoring: the real dump/load run under a seeded hostile workload, an online oracle compares every result'),
                       level=m.LEVEL, level_note=getattr(m, 'LEVEL_NOTE', m.RULE)[:600]))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
