"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/results.txt
(lines of tools/trybug.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if os.path.exists(V + '/tools/results.txt'):
    for l in open(V + '/tools/results.txt'):
        t = l.split(None, 5)
        if len(t) > 2:
            res[t[0]] = (t[2], t[5].split(':', 1)[1].strip() if len(t) > 5 and ':' in t[5] else '')
rows = ['| change | breaks | needs | caught by |', '|----|----|----|----|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    a, b = res.get(i, ('?', ''))
    rows.append('| %s | %s: %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                           '%s (%s)' % (m['property'], b) if a == 'CAUGHT' else 'not yet' if a == 'MISSED' else a))
s = open(V + '/DESIGN.md').read()
k = '<!-- table -->'
s = s[:s.index(k)] + k + '\n\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
