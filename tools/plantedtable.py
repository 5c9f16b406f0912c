"""Rewrites the table of planted bugs in DESIGN.md."""
import os, re, json
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = {}
for n in sorted(os.listdir('seeded')):
    d.setdefault(json.load(open(f'seeded/{n}/meta.json'))['property'], []).append(re.sub(r'^c\d+-', '', n))
t = open('DESIGN.md').read()
i = t.index('| property | caught |'); j = t.index('\nNot caught:')
t = t[:i] + '| property | caught |\n|---|---|\n' + ''.join(f'| {p} | {", ".join(sorted(v))} |\n' for p, v in sorted(d.items())) + t[j:]
open('DESIGN.md', 'w').write(t)
print(sum(map(len, d.values())))
