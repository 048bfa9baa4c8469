"""Fills the lists of repairs and planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + '/known_findings.json'))
fixes = ['| %s | %s | %s |' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in k['fixed']]
fixes = ['| property | commit | what failed / repair |', '|---|---|---|'] + sorted(fixes)
caught = json.load(open(V + '/tools/caught.json'))
bugs = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
ms = sorted(((json.load(open(f)), f.split('/')[-2]) for f in glob.glob(V + '/seeded/*/meta.json')), key=lambda x: (x[0]['property'], x[1]))
for m, i in ms:
    bugs.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '?')))
s = open(V + '/DESIGN.md').read()
for name, rows in (('fixes', fixes), ('bugs', bugs)):
    s = re.sub(r'<!-- %s -->.*?<!-- end -->' % name, lambda _: '<!-- %s -->\n%s\n<!-- end -->' % (name, '\n'.join(rows)), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
print(len(fixes) - 2, 'fixes', len(bugs) - 2, 'bugs')
