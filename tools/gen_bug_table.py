#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.abspath(__file__)) + '/..'
d = open(V + '/DESIGN.md').read()
mark = '| bug | needs | what it breaks | caught by |\n|---|---|---|---|\n'
d = d[:d.index(mark)] if mark in d else d
missed = {}
if os.path.exists(V + '/tools/missed.json'):
    missed = json.load(open(V + '/tools/missed.json'))
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    c = lambda s: s.replace('|', '/').replace('\n', ' ').strip()
    mark += '| %s | %s | %s | %s |\n' % (b, c(m['needs']), c(m['what_it_breaks']), missed.get(b, m['property'] + ' quick'))
open(V + '/DESIGN.md', 'w').write(d + mark)
