#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (planted bugs, findings); run after adding seeds or findings"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
rows = ['<!-- seeds -->', '| id | caught by | what it breaks |', '|----|----|----|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks']))
rows.append('<!-- /seeds -->')
fix = ['<!-- fixes -->'] + ['* ' + f.replace('fixed: property=', '', 1) for f in json.load(open(V + '/known-findings.json'))['fixed']] + ['<!-- /fixes -->']
for tag, t in (('seeds', rows), ('fixes', fix)):
    s = s.replace('@%s@' % {'seeds': 'SEEDS', 'fixes': 'FIX'}[tag], '<!-- %s --><!-- /%s -->' % (tag, tag))
    s = re.sub('<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '\n'.join(t), s, flags=re.S)
open(p, 'w').write(s)
