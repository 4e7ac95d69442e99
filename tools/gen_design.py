#!/usr/bin/env python3
"""assemble DESIGN.md"""
import importlib, json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def text(n):
    return open(os.path.join(HERE, n), encoding='utf-8').read()


out = [text('doc/head.md'), '## Properties and how they are decided\n']
for l in text('properties.jsonl').splitlines():
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append((p.get('statement') or '') + '\n')
    if not os.path.exists(os.path.join(HERE, 'sa/checks', i + '.py')):
        na = [x['reason'] for x in json.loads(text('MANIFEST.json'))[
            'not_applicable'] if x['property'] == i]
        out.append('*Not claimed:* %s\n' % (na[0] if na else ''))
        continue
    m = importlib.import_module('sa.checks.' + i)
    t = m.TECHNIQUE
    out.append('*Method:* %s.\n' % t.rstrip('.'))
    out.append(m.EXPLANATION.strip() + '\n')
    src = text('sa/checks/%s.py' % i)
    rules = []
    for a, b in re.findall(
            r"ctx\.rule\(\s*(R\w*|'[^']+')\s*,\s*((?:'[^']*'\s*|\"[^\"]*\"\s*)+)",
            src):
        rules.append(''.join(x or y for x, y in re.findall(
            r"'([^']*)'|\"([^\"]*)\"", b)))
    if rules:
        out.append('Rules: ' + '; '.join(rules) + '.\n')
    out.append('*Limits:* %s\n' % m.LEVEL_NOTE)
    ws = getattr(m, 'witnesses', [])
    bs = getattr(m, 'benign', [])
    out.append('Self-test: %d witnesses, %d benign edits.\n' % (
        len(ws), len(bs)))
out.append('## Defects found\n')
fixed, opened = [], []
for l in text('known_findings.txt').splitlines():
    if l.startswith('fixed:'):
        k = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        fixed.append('- %s `%s` %s' % k.groups())
    elif l.startswith('property='):
        k = re.match(r'property=(\S+) key=(.*?) :: (.*)', l)
        opened.append('- %s: %s (`%s`)' % (k.group(1), k.group(3),
                                           k.group(2)))
out.append('Repaired in /repo:\n\n' + '\n'.join(fixed) + '\n')
out.append('Recorded, not repaired:\n\n' + '\n'.join(opened) + '\n')
out.append('## Planted bugs\n')
rows = ['| id | property | what it breaks | needs | caught by |',
        '|---|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
caught = json.loads(text('doc/caught.json')) if os.path.exists(
    os.path.join(HERE, 'doc/caught.json')) else {}
for b in sorted(os.listdir(sd)):
    m = json.loads(text('seeded/%s/meta.json' % b))
    rows.append('| %s | %s | %s | %s | %s |' % (
        b, m['property'], m['what_it_breaks'].replace('|', '/'),
        m['needs'].replace('|', '/'), ', '.join(caught.get(b, []))))
out.append('\n'.join(rows) + '\n')
out.append(text('doc/tail.md'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out).splitlines()), 'lines')
