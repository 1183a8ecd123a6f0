#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/design_head.md, the checks' own RULE/BOUNDS/ASSUMPTIONS, tools/design_notes.json and
tools/design_tail.md (run with the PyPy of /opt/vp/env.sh: the checks import the library)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, '/repo')
props = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); props[p['id']] = p
notes = json.load(open(V + '/tools/design_notes.json'))
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
for f in sorted(glob.glob(V + '/checks/c[0-9][0-9]*.py')):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    p = props[m.PID]; n = notes.get(m.PID, {})
    out += ['### %s — %s' % (m.PID, p['title']), '']
    out += ['* **Enumerated:** ' + m.RULE + '.']
    out += ['* **Oracle:** ' + n.get('oracle', '')]
    out += ['* **Bounds:** quick: ' + m.BOUNDS['quick'] + '. Thorough: ' + m.BOUNDS['thorough'] + '.']
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['* **Assumptions:** ' + '; '.join(m.ASSUMPTIONS) + '.']
    if n.get('note'):
        out += ['* **Decisions:** ' + n['note']]
    out += ['* **Cost (quick):** about %s s on 8 cores. **Beyond tests:** %s' % (n.get('cost', '?'), p['why_tests_cant']), '']
fixed = '\n'.join('* ' + f[len('fixed: property='):] for f in json.load(open(V + '/known_findings.json'))['fixed'])
res = json.load(open(V + '/tools/seed_results.json'))
rows = ['| bug | property | needs | breaks | outcome |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    r = res.get(n, '')
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
                                              'missed' if r == 'missed' else 'caught by %s%s' % (m['property'], ' (%s)' % r if r else '')))
tail = open(V + '/tools/design_tail.md').read().rstrip()
out += [tail.replace('@FIXED@', fixed).replace('@SEEDED@', '\n'.join(rows)), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
