# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, glob, os, re
rows = []
for f in glob.glob('/verif/seeded/*/meta.json'):
    m = json.load(open(f)); rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
rows.sort()
t = '| check that catches it | planted bug | what it needs | what it breaks |\n|---|---|---|---|\n'
t += ''.join(f'| {p} | {i} | {n} | {w} |\n' for p, i, n, w in rows)
p = '/verif/DESIGN.md'; s = open(p).read()
s = re.sub(r'(<!-- matrix \(tools/matrix.py\) -->\n).*?(<!-- end -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
