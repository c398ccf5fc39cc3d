"""DESIGN.md from DESIGN.in.md, the check modules' bounds, the planted bugs and the findings: python3-vt tools/mkdesign.py"""
import sys, os, json, glob, importlib, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
HOW = {}
for l in open(V + '/tools/how.txt'):
    if l.strip(): k, t = l.split(' ', 1); HOW[k] = t.strip()
out = ['## Properties', '',
       'Each is decided within its bounds by symbolic execution as above. *Oracle*: what the assertions compare with.', '']
w = lambda t, p='': out.append(textwrap.fill(t, 118, initial_indent=p, subsequent_indent=' ' * len(p), break_long_words=False, break_on_hyphens=False))
fixes = {}
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed: '):
        _, p, c, t = l.rstrip('\n').split(' ', 3); fixes.setdefault(p.split('=')[1], []).append((c, t))
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    m = importlib.import_module('checks.' + i.lower())
    out.append('### %s %s' % (i, d['title'])); out.append('')
    w(HOW[i])
    w('*Bounds*: ' + m.BOUNDS['quick'] + '. *Thorough*: ' + m.BOUNDS['thorough'] + '.' if m.BOUNDS['thorough'] != m.BOUNDS['quick'] else '*Bounds*: ' + m.BOUNDS['quick'] + '.')
    w('*Outside*: ' + m.OUTSIDE + '.')
    if i in fixes: w('*Repaired*: ' + '; '.join('%s (%s)' % (t, c) for c, t in fixes[i]) + '.')
    out.append('')
out += ['## Planted bugs', '', 'Each is caught by the check of its own property (`tools/seed.py` makes them, with the tests and the demonstration run '
        'both ways).', '', '| bug | property | needs |', '|---|---|---|']
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(p)); out.append('| %s | %s | %s |' % (p.split('/')[-2], d['property'], d['needs'].replace('|', '/')))
s = open(V + '/DESIGN.in.md').read().replace('@@@', '\n'.join(out))
open(V + '/DESIGN.md', 'w').write(s)
