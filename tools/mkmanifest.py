"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    path = os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    consts = {}
    for node in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    checks.append(dict(
        property=p['id'],
        quick_cmd='VERIF_TIER=quick ./run.sh ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=consts['TECHNIQUE'],
        level=consts['LEVEL'],
        level_note=consts['NOTE']))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hook is needed in /repo: the library is instrumented from '
               'outside (tracing, recording callbacks, child interpreters).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
