#!/usr/bin/env python3
"""mk.py BUGS.py...: writes the folders of /verif/seeded from bug descriptions."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'

def bug(id, prop, edits, main, needs, breaks):
    if ONLY and id not in ONLY:
        return
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedmk.')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r'])
        for f, old, new in edits:
            p = f'{w}/r/{f}'
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                sys.exit(f'{id}: {f}: {n} matches of {old!r}')
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        os.rmdir(w)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/main.rs', 'w').write('mod kit;\nuse kit::*;\n' + main.lstrip('\n'))
    for f in ('kit.rs', 'demo.sh'):
        shutil.copy(os.path.join(HERE, f), d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

args = sys.argv[1:]
files = [a for a in args if a.endswith('.py')]
ONLY = set(a for a in args if not a.endswith('.py'))
for f in files:
    exec(compile(open(f).read(), f, 'exec'))
