"""Fills the generated parts of DESIGN.md: fixed findings, planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()


def fill(s, mark, text):
    a, b = '<!-- %s -->' % mark, '<!-- /%s -->' % mark
    return s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(b):]


F = [f for f in json.load(open(V + '/known_findings.json')) if f['status'] == 'fixed']
s = fill(s, 'fixed', '\n'.join('* `%s` %s: %s' % (f['commit'], f['property'], f['what']) for f in F))
rows = ['| planted change | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m.get('caught_by', m['property']), m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
s = fill(s, 'seeded', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
