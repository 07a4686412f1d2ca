#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.md, table.py, the harnesses, known_findings.json and seeds.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, why, files, mech, bounds):
    P.append((id, title, statement, over, why, files, mech, bounds))


g = {'prop': prop}
exec(open(os.path.join(V, 'tools', 'table.py')).read(), g)
text = open(os.path.join(V, 'tools', 'design_text.md')).read()
out = []
cost = json.load(open(os.path.join(V, 'tools', 'cost.json')))
for id, title, st, over, why, files, mech, bounds in P:
    n = 0
    th = 0
    fp = 0
    fs = sorted(glob.glob(V + '/harness/%s.cpp' % id) + glob.glob(V + '/harness/%s_*.cpp' % id))
    names = []
    for f in fs:
        hs = re.findall(r'HARNESS\w*\((\w+),\s*"((?:[^"\\]|\\.)*)"(?:\s*,\s*"([^"]*)")?', open(f).read())
        th += sum('tier=thorough' in h[2] for h in hs)
        fp += sum('mode=fp' in h[2] for h in hs)
        n += len(hs)
    out.append('### %s — %s\n' % (id, title))
    out.append('*Specified*: %s\n' % st)
    out.append('*Symbolic*: %s. *Bounds*: %s\n' % (over.rstrip('.'), bounds))
    out.append('*Why not by tests*: %s\n' % why)
    c = cost.get(id)
    out.append('*Machinery*: %s; oracle: the definition written in the harness in exact arithmetic, compared on every path%s; anchors: %s.%s\n' % (
        ', '.join('`harness/%s`' % os.path.basename(f) for f in fs), ' (%d bit-precise obligations)' % fp if fp else '',
        ', '.join('`%s`' % f for f in files),
        ' Cost of a quick run: %d obligations, %d queries, about %d s.' % (c[0], c[1], c[2]) if c else ''))
k = json.load(open(V + '/known_findings.json'))['findings']
by = {}
for f in k:
    by.setdefault(f['property'], []).append(f)
fx = ['%d defects were found by the checks on the original tree; each is a minimal `fix:` commit in /repo, recorded in `known_findings.json` (a fixed entry suppresses nothing). %d findings are open (recorded, not repaired).\n' % (
    sum(f['status'] == 'fixed' for f in k), sum(f['status'] != 'fixed' for f in k))]
for p in sorted(by):
    fx.append('* **%s**: %s' % (p, '; '.join(f['what'] + ' (`%s`)' % f['commit'][:7] if f['status'] == 'fixed' else 'OPEN: ' + f['what'] for f in by[p])))
sd = json.load(open(V + '/tools/seeds.json')) if os.path.exists(V + '/tools/seeds.json') else []
s = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for x in sd:
    s.append('| %s | %s | %s | %s |' % (x['id'], x['property'], x['needs'].replace('|', '/'), x['caught']))
text = text.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join(fx)).replace('@@SEEDS@@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(text)
