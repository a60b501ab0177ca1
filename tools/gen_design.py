#!/usr/bin/env /opt/venv/bin/python
"""rewrites the generated part of DESIGN.md from the INFO of each check, properties.jsonl, evidence (cost) and seeded/"""
import importlib, json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get('OMG_REPO', '/repo')]
import matplotlib
matplotlib.use('Agg')
matplotlib.use = lambda *a, **k: None
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = ['## Properties', '']


def say(label, v):
    if v:
        out.append('* *%s*: %s' % (label, v if isinstance(v, str) else '; '.join(str(x) for x in v)))


for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p.get('title', '')), '', p.get('statement', ''), '']
    f = os.path.join(ROOT, 'omgv', 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        out += ['* *not applicable*: ' + [n['reason'] for n in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['not_applicable'] if n['property'] == i][0], '']
        continue
    info = importlib.import_module('omgv.checks.' + i.lower()).INFO
    say('decided by', info.get('explanation'))
    say('bounds', info.get('bounds'))
    say('outside', info.get('outside'))
    say('stand-ins', info.get('stubs'))
    say('assumptions', info.get('assumptions'))
    say('why tests cannot', p.get('why_tests_cant'))
    cost = os.path.join(ROOT, 'tools', 'cost.json')
    if os.path.exists(cost):
        c = json.load(open(cost)).get(i)
        say('cost (8 cores)', c)
    out.append('')
out += ['## Planted bugs', '', 'Each was confirmed in a scratch copy (demo passes without, fails with the change; quick check of its property reports it).', '', '| id | property | needs | what it breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'], j['what_it_breaks']))
out.append('')
d = os.path.join(ROOT, 'DESIGN.md')
s = open(d).read()
B, E = '<!-- generated by tools/gen_design.py -->\n', '<!-- end of generated part -->\n'
head = s.split(B)[0] if B in s else s + '\n'
tail = s.split(E)[1] if E in s else ''
open(d, 'w').write(head + B + '\n'.join(out) + E + tail)
print(len(out), 'lines')
