#!/usr/bin/env python3
# tools/note.py ID technique note: sets the manifest texts of a check.
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'manifest_notes.json')
d = json.load(open(p)); d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
d = dict(sorted(d.items()))
open(p, 'w').write('{\n' + ',\n'.join('%s: [\n%s,\n%s\n]' % (json.dumps(k), json.dumps(v[0]), json.dumps(v[1])) for k, v in d.items()) + '\n}\n')
