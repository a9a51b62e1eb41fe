"""rewrite the table of planted bugs in DESIGN.md: python3 tools/seedtable.py (between the markers)"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | check | needs | breaks |', '|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (p.split('/')[-2], d.get('caught_by', d['property']), d['needs'], d['what_it_breaks']))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(f, 'w').write(s)
