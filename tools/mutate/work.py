#!/usr/bin/env python3
"""work.py TODO LOCK OUT: takes mutants from TODO, tries the checks on each, appends verdicts to OUT.

Runs inside private mounts of /repo and /verif (see run.sh).
"""
import fcntl, json, os, re, subprocess, sys, time

todo, lock, out = sys.argv[1:4]
ORDER = (os.environ.get('CHECKS') or 'C08 C09 C02 C03 C10 C11 C15 C04 C06 C14 C07 C19 C13 C18 C12 C05 C20 C21 C16 C17 C01').split()
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')


def take():
    with open(lock, 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        ls = open(todo).read().split('\n')
        ls = [x for x in ls if x]
        if not ls:
            return None
        open(todo, 'w').write('\n'.join(ls[1:]) + '\n')
        return json.loads(ls[0])


def put(m):
    with open(lock, 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        open(out, 'a').write(json.dumps(m) + '\n')


def sh(cmd, t):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, text=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ''


while True:
    m = take()
    if m is None:
        break
    path = '/repo/src/' + m['file']
    text = open(path).read()
    ls = text.split('\n')
    k = len(m['old'].split('\n'))
    assert '\n'.join(ls[m['line'] - 1:m['line'] - 1 + k]) == m['old'], m
    ls[m['line'] - 1:m['line'] - 1 + k] = m['new'].split('\n')
    open(path, 'w').write('\n'.join(ls))
    t0 = time.time()
    try:
        # the plain build only (run with VERIF_GUIDED=0)
        rc, o = sh(['bash', '-c', '. /opt/vp/env.sh; cd /verif/harness && CARGO_TARGET_DIR=$PWD/target cargo build --offline --release --locked'], 300)
        if rc != 0:
            m['verdict'] = 'nobuild'
        else:
            m['verdict'] = 'missed'
            for c in ORDER:
                rc, o = sh(['/verif/harness/target/release/vp', 'run', c], 200)
                v = re.search(r'VIOLATION property=(\S+)', o or '')
                if rc == 1 and v:
                    m['verdict'] = 'caught ' + c
                    break
                if rc != 0:
                    m['verdict'] = f'exit {rc} {c}'
                    break
    finally:
        open(path, 'w').write(text)
    m['secs'] = round(time.time() - t0)
    put(m)
