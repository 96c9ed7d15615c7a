"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    d = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), d['property'], d['what_it_breaks'].replace('|', '/'),
                                        d['needs'].replace('|', '/')))
t = '<!-- bugs -->\n| id | caught by | the change | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /bugs -->'
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
s = s.replace('BUGTABLE', t, 1) if 'BUGTABLE' in s else re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda m: t, s, flags=re.S)
open(f, 'w').write(s)
print(len(rows), 'bugs')
