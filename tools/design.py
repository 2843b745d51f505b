# Fills the generated sections of DESIGN.md (between BEGIN/END marks).
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = [p for p in properties.P if p.get('na')]
sec = {'NA': '\n'.join('* **%s** %s: %s' % (p['id'], p['title'], p['na']) for p in na) or 'None.'}
k = json.load(open(R + '/known-findings.json'))
sec['FIXED'] = '\n'.join('* ' + x for x in k['fixed'])
rows = ['| bug | property (caught by) | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
sec['SEEDS'] = '\n'.join(rows)
s = open(R + '/DESIGN.md').read()
for n, t in sec.items():
    b = '<!-- BEGIN %s -->\n%s\n<!-- END %s -->' % (n, t, n)
    if '@%s@' % n in s:
        s = s.replace('@%s@' % n, b)
    else:
        s = re.sub('<!-- BEGIN %s -->.*?<!-- END %s -->' % (n, n), lambda _: b, s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)
