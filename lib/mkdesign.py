"""Writes the tables of DESIGN.md that follow from other files (findings, planted bugs)."""
import json, pathlib, re
V = pathlib.Path('/verif')
k = json.loads((V / 'known-findings.json').read_text())
find = '\n'.join('* **%s** %s' % (f['property'], f['what']) for f in k['findings'])
find += '\n\n%d defects were repaired:\n\n' % len(k['fixed']) + '\n'.join('* ' + x.replace('fixed: property=', '') for x in k['fixed'])
rows = ['| bug | caught by | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append('| %s | %s | %s | %s |' % (d.name, m['property'], *(m[x].replace('|', '\\|').replace('\n', ' ') for x in ('what_it_breaks', 'needs'))))
s = (V / 'DESIGN.md').read_text()
for name, text in (('findings', find), ('planted', '\n'.join(rows))):
    s = re.sub(r'(<!-- %s -->\n).*?(\n<!-- end -->)' % name, lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
(V / 'DESIGN.md').write_text(s)
