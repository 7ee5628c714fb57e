"""Regenerate MANIFEST.json from properties.jsonl and checks/*.py (run by hand)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
nap = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(nap):
    NA = json.load(open(nap))


def const(pid, name, default):
    tree = ast.parse(open(os.path.join(HERE, 'checks', f'{pid}.py')).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
    return default


checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', f'{pid}.py')) and pid not in NA:
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 check.py {pid} --tier quick',
            'thorough_cmd': f'python3 check.py {pid} --tier thorough',
            'technique': const(pid, 'TECHNIQUE', 'symbolic execution of the compiler IR and Python source, z3'),
            'level': const(pid, 'LEVEL', 'model_checking'),
            'level_note': const(pid, 'NOTE', 'Bounded: holds for every value within the stated sizes; real arithmetic '
                                'instead of rounding; trusts gcc\'s GIMPLE dump, the executor and z3.'),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
out = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
