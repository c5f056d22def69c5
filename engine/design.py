#!/opt/veriftools/pyvenv/bin/python3
"""Appends the per-property section of DESIGN.md from the texts (between the markers)."""
import meta, os
p = os.path.join(meta.V, 'DESIGN.md')
s = open(p).read()
B, E = '<!-- properties -->\n', '<!-- /properties -->\n'
out = [B]
for q in sorted(meta.PROPS, key=lambda x: x['id']):
    i = q['id']
    out.append(f"### {i} {q['title']}\n\n")
    if i in meta.NA:
        out.append(f'Not applicable: {meta.NA[i]}.\n\n')
    else:
        out.append(q['_'][2] + '\n\n' + meta.HOW.get(i, '').strip() + '\n\n')
out.append(E)
if B in s:
    s = s[:s.index(B)] + ''.join(out) + s[s.index(E) + len(E):]
else:
    s += ''.join(out)
open(p, 'w').write(s)
