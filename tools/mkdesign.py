#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md (maintenance helper, no check uses it)"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); out.append("| %s | %s | %s | %s quick |" % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['property']))
p = R + '/DESIGN.md'; s = open(p).read(); t = '\n'.join(out)
if '@SEEDS@' in s: s = s.replace('@SEEDS@', '<!--seeds-->\n' + t + '\n<!--/seeds-->')
else: s = s[:s.index('<!--seeds-->')] + '<!--seeds-->\n' + t + '\n' + s[s.index('<!--/seeds-->'):]
open(p, 'w').write(s)
