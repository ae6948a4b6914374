# table.py: rewrites the list of planted bugs at the end of DESIGN.md from seeded/.
import json, os, re
root = '/verif'
by = {}
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    by.setdefault(m['property'], []).append((d, m['needs']))
out = ['## Planted bugs\n\n'
       'Each is found by the quick tier (seed 1) of the check of its own property; a bug a check\n'
       'missed when it was planted stayed and the check was strengthened until it was\n'
       'found. `tools/seedkit/phunt.sh` runs them again, `phunt.sh N -a` with every check.\n']
for p in sorted(by):
    out.append(f'* {p} finds ' + '; '.join(f'`{d}` ({n})' for d, n in by[p]) + '.')
p = f'{root}/DESIGN.md'
s = open(p).read()
s = re.sub(r'\n## Planted bugs\n.*\Z', '\n', s, flags=re.S).rstrip('\n')
open(p, 'w').write(s + '\n\n' + out[0] + '\n' + '\n'.join(out[1:]) + '\n')
