"""Writes DESIGN.md from the text below, properties.jsonl, the check modules, and seeded/*/meta.json."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent

HEAD = open(V / 'tools' / 'design_head.md').read()
NOTES = {}
key = None
for line in open(V / 'tools' / 'design_notes.md'):
    if line.startswith('## '):
        key = line[3:].strip()
        NOTES[key] = ''
    elif key:
        NOTES[key] += line


def consts(pid):
    out = {}
    for n in ast.parse((V / 'checks' / f'{pid.lower()}.py').read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUME', 'NEED'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


props = [json.loads(l) for l in open(V / 'properties.jsonl')]
man = {c['property']: c for c in json.load(open(V / 'MANIFEST.json'))['checks']} if 'checks' in json.load(open(V / 'MANIFEST.json')) else {}
s = HEAD.rstrip() + '\n\n# Properties\n'
for p in props:
    c = consts(p['id'])
    s += f"\n## {p['id']} {p['title']}\n\n"
    s += f"**Workload.** {c['RULE']}\n\n"
    s += NOTES.get(p['id'], '').strip() + '\n\n'
    s += '**Trusted.** ' + '; '.join(c['ASSUME']) + '.\n\n'
    s += '**Must have been seen for the run to count:** ' + ', '.join(c['NEED']) + '.\n'
s += '\n# Planted bugs\n\nEach is in `seeded/<id>/` (patch, demonstration, meta.json); all pass the stable tests and fail their demonstration only with the patch.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for f in sorted((V / 'seeded').glob('*/meta.json')):
    m = json.loads(f.read_text())
    s += f"| {f.parent.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '')} |\n"
tail = V / 'tools' / 'design_tail.md'
if tail.exists():
    s += '\n' + tail.read_text()
(V / 'DESIGN.md').write_text(s)
