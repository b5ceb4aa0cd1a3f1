"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), d['what_it_breaks'], d['needs'], d.get('caught_by', d['property'])))
f = V + '/DESIGN.md'
s = open(f).read()
i = s.index('<!-- seeds -->')
open(f, 'w').write(s[:i] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n')
