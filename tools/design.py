#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md (between the marks).
import glob, json, re
caught = json.load(open('tools/caught.json'))
rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], caught.get(i, '?')))
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
