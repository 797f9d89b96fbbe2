"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and a sweep log (lines 'ID PROP rc=N ...')."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rc = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (\S+) rc=(\d+) \S+ *(.*)', l)
        if m:
            rc[m[1]] = (m[3], re.match(r'\[[^]]*\]', m[4]).group(0) if m[4].startswith('[') else '')
rows = ['## Planted bugs', '', '`seeded/<id>/` (patch, demonstration, meta). Each passes the 201 stable tests. Caught = the quick check of its property exits 1 with a VIOLATION line; the monitor that fired is named.', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = rc.get(i, ('?', ''))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), {'1': '%s %s' % (m['property'], r[1]), '0': 'missed', '2': 'inconclusive'}.get(r[0], '?')))
d = open(V + '/DESIGN.md').read()
d = re.sub(r'(@@CATCH@@|## Planted bugs).*', lambda _: '\n'.join(rows) + '\n', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
