#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md, the bounds stated in props/*.py, known_findings.jsonl and the planted bugs."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(p):
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '') in ('ID', 'BOUNDS', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


text = open(os.path.join(V, 'tools/design.md')).read()
props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}


def fill(m):
    i = m.group(1)
    c = consts(os.path.join(V, 'props', i.lower() + '.py'))
    out = '### %s %s\n%s\n\n- **Bounds (quick):** %s.\n- **Bounds (thorough):** %s.\n' % (
        i, props[i]['title'], m.group(2).strip(), c['BOUNDS']['quick'], c['BOUNDS']['thorough'])
    if c['ASSUMPTIONS']:
        out += '- **Assumed / outside:** %s.\n' % '; '.join(c['ASSUMPTIONS'])
    return out + '\n'


text = re.sub(r'@(C\d\d)\n((?:[^@\n].*\n)+)', fill, text)
text = text.replace('@FIXED', '\n'.join('- %s' % json.loads(l)['line'] for l in open(os.path.join(V, 'known_findings.jsonl'))))
missed = [s.split(' ', 1) for s in re.findall(r'^@missed (.+)$', text, re.M)]
text = re.sub(r'^@missed .+\n', '', text, flags=re.M)
missed = {a: b for a, b in missed}
rows = ['| planted bug | caught by | needs | first missed |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), missed.get(d, '')))
text = text.replace('@SEEDS', '\n'.join(rows))
assert not re.search(r'^@', text, re.M), re.search(r'^@.*', text, re.M).group()
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
