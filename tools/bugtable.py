#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(R + '/seeded/*/meta.json'):
    d = json.load(open(m)); rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs'], d.get('missed', '')))
t = '| caught by | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % ('MISSED (%s)' % p if x else p, i, n) for p, i, n, x in sorted(rows))
p = R + '/DESIGN.md'; s = open(p).read()
open(p, 'w').write(re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S))
print(len(rows))
