#!/usr/bin/python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Seeded bugs'


def main():
    path = os.path.join(V, 'DESIGN.md')
    head = open(path).read().split(MARK)[0]
    rows = []
    for p in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(p))
        n = os.path.basename(os.path.dirname(p))
        also = m.get('caught_by', [m['property']])
        rows.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {', '.join(also) or 'missed'} |")
    with open(path, 'w') as fo:
        fo.write(head + MARK + '\n\nIn `seeded/`; each was written from a property and the code and is confirmed by its '
                 'demonstration.  The last column: the checks that were seen to catch it.\n\n'
                 '| bug | needs | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')


main()
