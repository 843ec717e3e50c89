#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, design=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, design=design))
exec(open(os.path.join(V, 'tools', 'props.txt')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(d) + '\n')
M = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3,8)" && clang --version >/dev/null && opt --version >/dev/null 2>&1 || clang --version >/dev/null',
         checks=[], not_applicable=[],
         notes='All checks are static: they compile /repo/src to LLVM IR in a scratch directory and analyse that; nothing of the library is executed.')
M['setup_cmd'] = 'clang --version >/dev/null && python3 --version >/dev/null'
for p in PROPS:
    if p['na']: M['not_applicable'].append(dict(property=p['id'], reason=p['na'])); continue
    M['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                            technique=p['technique'], level='other', level_note=p['note']))
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

out = ['## Properties and how each is decided', '']
for p in PROPS:
    if p['na']: continue
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '*Technique:* %s.' % p['technique'], '', p['design'] or '', '']
na = ['* **%s %s** - %s' % (p['id'], p['title'], p['na']) for p in PROPS if p['na']]
seed = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
rp = os.path.join(V, 'tools', 'caught.txt')
if os.path.exists(rp):
    for l in open(rp):
        a, _, b = l.strip().partition(' ')
        if a: res[a] = b
sd = os.path.join(V, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seed.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], res.get(d, 'not run')))
t = open(os.path.join(V, 'tools', 'DESIGN.tmpl.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', '\n'.join(na))
if os.path.isdir(sd):
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('@@SEEDED@@', '\n'.join(seed)))
