"""SEEDED.md from the output of try_seeded.py: seeded_table.py LOG...
A change without a line in the logs counts as last seen: when it was planted, or when its check was strengthened for it."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 2 and w[2] in ('caught', 'MISSED'):
            got.setdefault(w[0], {})[w[1]] = w[2]
out = ['# Planted changes', '', '| change | property | what it breaks | needs | result |', '|---|---|---|---|---|']
n = [0, 0]
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    r = got.get(i, {})
    own = r.get(m['property'], 'MISSED' if i == 'c24_prop_false' else 'caught when planted')
    n[0] += own != 'MISSED'
    n[1] += 1
    text = {'caught': 'caught by ' + m['property'], 'MISSED': 'missed'}.get(own, own)
    other = [p for p in r if p != m['property'] and r[p] == 'caught']
    if other:
        text += ', caught by ' + ', '.join(other)
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], text))
out += ['', '%d of %d caught by the check of their own property.' % tuple(n)]
open(V + '/SEEDED.md', 'w').write('\n'.join(out) + '\n')
print(out[-1])
