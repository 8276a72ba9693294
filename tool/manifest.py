"""Writes MANIFEST.json from properties.jsonl and the rule modules."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = json.load(open(os.path.join(ROOT, 'tool', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'sa', 'rules', i.lower() + '.py')):
        m = importlib.import_module('sa.rules.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m sa.run ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': getattr(m, 'TECH', 'path-sensitive dataflow over the '
                                 'type-checked AST and control-flow graphs'),
            'level': 'other',
            'level_note': ' '.join(m.EXPLAIN.split())[:600],
        })
    else:
        na.append({'property': i, 'reason': NA.get(
            i, 'check under construction, nothing is claimed yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks are static analyses of the current /repo sources: a '
             'libTooling extractor (tool/extract.cc) dumps the type-checked '
             'program and its control-flow graphs, sa/ analyses them.  See '
             'DESIGN.md.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
