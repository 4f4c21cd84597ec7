#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {'S07': 'after strengthening: type unions with several schemas at any position', 'S14': 'yes', 'S15': 'after strengthening: dependencies added in portions',
        'S24': 'after strengthening: references and remote documents in every configuration', 'S25': 'after strengthening: callbacks that throw objects that are no std::exception',
        'S27': 'after strengthening: instances wrapped in documents'}
print('| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|')
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(p)); m = json.load(open(p))
    x = late.get(n.split('-')[0], '')
    print('| %s | %s | %s | %s%s |' % (n, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m['property'], ' (%s)' % x if x and x != 'yes' else ''))
