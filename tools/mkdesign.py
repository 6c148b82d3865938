"""Writes DESIGN.md: the fixed text below, plus per property its statement's title, oracle, reach,
the harness's own BOUNDS and ASSUMES, and the catch table (tools/catches.json)."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symx.run import bounds
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()
HOW = {}
cur = None
for l in open(os.path.join(V, 'tools', 'design_props.md')):
    if l.startswith('# C'):
        cur = l[2:].strip()
        HOW[cur] = ''
    elif cur:
        HOW[cur] += l
out = [HEAD.rstrip(), '', '## The properties', '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    H = importlib.import_module('harness.' + p['id'].lower())
    out += ['### %s %s' % (p['id'], p['title']), '', HOW.get(p['id'], '').strip(), '']
    out += ['Bounds:', ''] + ['* ' + b for b in bounds(H)] + ['']
    if H.ASSUMES:
        out += ['Assumed / outside: ' + ' '.join(a if a.endswith('.') else a + '.' for a in H.ASSUMES), '']
cf = os.path.join(V, 'tools', 'catches.json')
out += ['## Planted bugs and which checks catch them', '',
        'Every change in `seeded/` was written from the property text and the code; each builds, passes the '
        'tests, and has a demonstration. Result of the quick tier of the named check:', '',
        '| change | property | what it breaks | caught by |', '|---|---|---|---|']
C = json.load(open(cf)) if os.path.exists(cf) else {}
for sid in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (sid, m['property'], m['what_it_breaks'], C.get(sid, 'not tried')))
out += ['', TAIL.rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
