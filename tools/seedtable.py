#!/usr/bin/env python3
"""Prints the table of section 8 of DESIGN.md: seeded/*/meta.json and the results of tools/runseeded.sh (RESULTS file)."""
import json, os, sys, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1], errors='replace'):
    m = re.match(r'(\S+) (C\d+) rc=(\d+) (\d+)s (.*)', l)
    if m:
        k = re.search(r'class=(\S+)', m[5])
        if not k:
            k = re.search(r'-([a-z][\w.:-]*?)-\d+\.json', m[5])
        res[m[1]] = (m[3], m[4], k[1] if k else '')
print('| change | what it breaks | check | seconds incl. build | class of the violation |\n|---|---|---|---|---|')
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rc, s, k = res.get(d, ('?', '?', ''))
    what = m['what_it_breaks'].replace('|', '\\|').replace('\n', ' ')
    if len(what) > 150:
        what = what[:147].rsplit(' ', 1)[0] + ' …'
    print(f"| {d} | {what} | {'caught' if rc == '1' else 'missed' if rc == '0' else 'rc ' + rc} | {s} | {k} |")
