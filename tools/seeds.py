#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(R + '/seeded')):
    by.setdefault(json.load(open(R + '/seeded/%s/meta.json' % d))['property'], []).append(d)
t = '<!-- seeds -->\n' + '\n'.join('* %s: %s' % (p, ', '.join('`%s`' % d for d in by[p])) for p in sorted(by)) + '\n<!-- /seeds -->'
f = R + '/DESIGN.md'
s = open(f).read()
s = re.sub(r'`seeded/`: %SEEDS%|<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(f, 'w').write(s)
