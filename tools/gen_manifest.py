"""Write MANIFEST.json from properties.jsonl, the registered rules and tools/notes.json."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'static'))
import check  # noqa: E402
check.load_rules()
RULES = check.X.RULES
notes = json.loads((V / 'tools' / 'notes.json').read_text())
TECH = 'path-partitioned abstract interpretation of the Python source with typestate/ordering rules per path'
NOTE = ('Static: every abstract path of the anchored functions is checked in the current source. Loops are summarised as zero, one and '
        'many iterations; calls into the standard library and third parties are opaque events that may raise; aliasing is by path term. '
        'Decides the structural clauses listed in DESIGN.md, trusts the documented behaviour of pathlib, os, git and xattr.')
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    d = json.loads(line)
    p = d['id']
    if p in RULES:
        n = notes.get(p, {})
        checks.append(dict(property=p, quick_cmd=f'python3 static/check.py {p} --tier quick',
                           thorough_cmd=f'python3 static/check.py {p} --tier thorough',
                           technique=n.get('technique', TECH), level='other', level_note=n.get('level_note', NOTE)))
    else:
        na.append(dict(property=p, reason=notes.get(p, {}).get('na', 'rule not built yet')))
m = dict(version=1, setup_cmd='python3 -c "import ast"', checks=checks, not_applicable=na,
         notes='Checks read /repo/augpathlib/*.py on every run; no hooks are added to /repo.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not')
