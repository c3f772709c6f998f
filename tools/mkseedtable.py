"""Rewrite the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what breaks | what it needs |', '|---|---|---|---|']
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    esc = lambda t: t.replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'],
                                          esc(d['what_it_breaks']), esc(d['needs'])))
p = here + '/DESIGN.md'
t = open(p).read()
b, e = '<!-- seeds -->', '<!-- /seeds -->'
i, j = t.index(b) + len(b), t.index(e)
open(p, 'w').write(t[:i] + '\n' + '\n'.join(rows) + '\n' + t[j:])
