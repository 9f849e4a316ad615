"""Writes MANIFEST.json from the check modules present in mc/checks."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f"{V}/mc/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(
        property=p['id'], quick_cmd=f"./check {p['id']}",
        thorough_cmd=f"./check {p['id']} --thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=c['TECHNIQUE'], level=c.get('LEVEL', 'model_checking'),
        level_note=c['NOTE']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=na,
               notes='Every check compiles /repo/c as it stands into '
               '/verif/.build and imports /repo/euphonic as it stands. '
               'No hooks were added to /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na], 'not claimed')
