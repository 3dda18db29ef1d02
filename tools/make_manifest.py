"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
checks, missing = [], []
for line in (root / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    pid = p['id']
    f = root / 'checks' / f'{pid.lower()}.py'
    if not f.exists():
        missing.append({'property': pid, 'reason': 'check not built yet'})
        continue
    consts = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        'property': pid,
        'quick_cmd': f'./check.sh {pid} quick',
        'thorough_cmd': f'./check.sh {pid} thorough',
        'technique': consts.get('TECHNIQUE', 'property-based testing (Hypothesis) against a reference model'),
        'level': consts.get('LEVEL', 'exploration'),
        'level_note': consts.get('NOTE', 'Randomised search over generated cases: ' + consts['RULE']
                                 + '. No guarantee beyond the explored cases.'),
    })
(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': missing,
}, indent=1) + '\n')
print(len(checks), 'checks', len(missing), 'missing')
