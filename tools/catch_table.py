#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
t = open('DESIGN.md').read(); a = t.index('| property | planted bug |'); b = t.index('\nBugs that were missed at first')
rows = sorted((json.load(open(d))['property'], os.path.basename(os.path.dirname(d))) for d in glob.glob('seeded/*/meta.json'))
open('DESIGN.md', 'w').write(t[:a] + '| property | planted bug |\n|---|---|\n' + ''.join('| %s | `%s` |\n' % r for r in rows) + t[b:])
