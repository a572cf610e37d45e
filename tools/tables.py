#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, the harness directives and seeded/."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
h = {}
for f in sorted(glob.glob(root + '/harness/**/zz_verif_c*.go', recursive=True)):
    src = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)*)func (Verif_(C\d\d)_\w+)', src):
        d = re.search(r'//verif:(.*)', m.group(1))
        b = re.search(r'bound=(\S+)', d.group(1)) if d else None
        dirs = [x for x in (d.group(1).split() if d else []) if re.match(r'(race|preempt|tpreempt|maporders|tier)=', x)]
        h.setdefault(m.group(3), []).append((m.group(2)[10:], b.group(1).replace('_', ' ').replace('|', '\\|') if b else 'see harness', ', '.join(dirs)))
t = ['| property | harness | bounds |', '|---|---|---|']
for p in props:
    for i, (n, b, d) in enumerate(h.get(p['id'], [])):
        t.append('| %s | %s | %s%s |' % ('**%s** %s' % (p['id'], p['title']) if i == 0 else '', n, b, ' (%s)' % d if d else ''))
s = ['| change | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    s.append('| %s | %s%s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], ' (first missed)' if m.get('first_missed') else '', m['needs']))
x = open(root + '/DESIGN.md').read()
for tag, rows in (('table', t), ('seeds', s)):
    x = re.sub(r'(<!-- %s:begin -->\n).*?(<!-- %s:end -->)' % (tag, tag), lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), x, flags=re.S)
open(root + '/DESIGN.md', 'w').write(x)
