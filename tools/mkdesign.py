"""fills the generated tables of DESIGN.md from tools/design.md, seeds.py and claimed.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/tools/design.md').read()
src = open(H + '/tools/seeds.py').read()
rows = ['| id | property | needs | breaks |', '|---|---|---|---|']
ids = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
s = s.replace('@@SEEDS@@', '\n'.join(rows))
na = json.load(open(H + '/claimed.json'))['na']
s = s.replace('@@NA@@', '' if not na else 'Not claimed:\n\n' + '\n'.join('* %s: %s' % x for x in sorted(na.items())))
open(H + '/DESIGN.md', 'w').write(s)
