#!/usr/bin/env python3
"""Regenerates the frozen specification snapshot from the TI-Toolkit token sheet (8X.xml) and the definition
table. It was run once on the pinned commit; the checks never run it, they only read its committed output.
The sheet's XML is an independent source: ti-tools itself reads 8X.json."""
import sys, json, xml.etree.ElementTree as ET
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
base = repo + '/src/calculator/tokens/'
def esc(s): return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r')
rows = []
def ver(e): return (e.findtext('model') or '', e.findtext('os-version') or '') if e is not None else ('', '-')
def tok(e, prefix):
    key = prefix + e.get('value')[1:]
    if e.tag == 'two-byte':
        for c in e: tok(c, key)
        return
    for v in e.findall('version'):
        s, u = v.find('since'), v.find('until')
        for l in v.findall('lang'):
            if l.get('code') != 'en': continue
            a = l.find('accessible')
            rows.append((key, *ver(s), *(ver(u) if u is not None else ('-', '-')), l.get('display'), a.text, l.get('ti-ascii')))
for e in ET.parse(base + 'standard_tokens/8X.xml').getroot():
    if e.tag in ('token', 'two-byte'): tok(e, '')
rows.sort()
with open('tokens.tsv', 'w') as f:
    for r in rows: f.write('\t'.join(esc(x) for x in r) + '\n')
d = json.load(open(base + 'token_definitions.json'))
with open('definitions.tsv', 'w') as f:
    for k in sorted(d):
        for i, x in enumerate(d[k]): f.write('\t'.join([k, str(i), esc(x['syntax']), esc(x['description'])]) + '\n')
print(len(rows))
