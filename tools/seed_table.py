#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json;
notes about how a change came to be caught are kept (they are in NOTES)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'c01-narrow-index': 'missed at first: schemes (11,4), (13,4), (16,5) added',
 'c05-narrow-table': 'missed at first: as c01',
 'c17-exact-chunks': 'missed at first: sizes around powers of two added (`RoundSize`)',
 'c02-opposite-components': 'missed at first: linear independence of the components over several deals (`Rank`)',
 'c04-constant-equals-component': 'missed at first: constants equal to a held component added',
 'c10-shared-coefficient': 'missed at first: longer transcripts with neighbouring live multiplications added',
 'c14-long-update': 'missed at first: one update of more than 2^16 words added',
 'c16-tall-vandermonde': 'missed at first: 300 rows and 300 columns added',
 'c24-narrow-length': 'missed at first: more than 2^16 bytes added',
 'c28-new-object-counter': 'C28 was written for it: the phases on their own (C09, C10) see one object only',
}
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s quick%s |' % (d, m['what_it_breaks'].replace('|', '/'), m['property'], '; ' + NOTES[d] if d in NOTES else ''))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = '| id | change | caught by |\n| --- | --- | --- |\n'
a = s.index(head) + len(head)
b = a
while s[b:b + 1] == '|':
    b = s.find('\n', b) + 1 or len(s)
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
