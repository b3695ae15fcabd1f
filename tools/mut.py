#!/usr/bin/env python3
"""mut.py LIST.txt [name-prefix…]: a mutation campaign. Each entry of the list is one small hand-written change of the
implementation and the property it should break; the quick check of that property is run on a scratch copy with the change.
Entry format (blocks separated by a line '=='):   name PROP[,PROP…] file[#n]    then the old text, a line '--', the new text."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = int(os.environ.get('J', '2'))


def parse(p):
    out = []
    for b in open(p).read().split('\n==\n'):
        b = b.strip('\n')
        if not b:
            continue
        head, body = b.split('\n', 1)
        name, props, f = head.split()
        old, new = body.split('\n--\n') if '\n--\n' in body else (body[:-3], '')
        n = 0
        if '#' in f:
            f, n = f.split('#')
        out.append((name, props.split(','), f, int(n), old, new))
    return out


def full(f):
    r = subprocess.run(['git', '-C', '/repo', 'ls-files', '*' + f], stdout=subprocess.PIPE, text=True).stdout.split()
    r = [x for x in r if x == f or x.endswith('/' + f)]
    assert len(r) == 1, (f, r)
    return r[0]


def run(m):
    name, props, f, n, old, new = m
    f = full(f)
    s = open('/repo/' + f).read()
    if s.count(old) < 1 or (s.count(old) > 1 and not n) or s.count(old) < n:
        return '%s: BAD PATTERN (%d occurrences)' % (name, s.count(old))
    i = -1
    for _ in range(max(n, 1)):
        i = s.index(old, i + 1)
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d])
    open(d + '/' + f, 'w').write(s[:i] + new + s[i + len(old):])
    res = []
    for p in props:
        t = time.time()
        r = subprocess.run([V + '/run_check.py', p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/mut'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        res.append('%s %s rc=%d %ds' % (p, 'caught' if r.returncode == 1 and v else '*MISSED*', r.returncode, time.time() - t))
        if r.returncode not in (0, 1) or (r.returncode == 1 and not v):
            res[-1] += ' ' + r.stdout.strip().split('\n')[-1][:200]
        if 'caught' in res[-1]:
            break
    shutil.rmtree(d)
    return name + ': ' + '; '.join(res)


if __name__ == '__main__':
    ms = parse(sys.argv[1])
    if len(sys.argv) > 2:
        ms = [m for m in ms if any(m[0].startswith(a) for a in sys.argv[2:])]
    with ThreadPoolExecutor(J) as ex:
        for x in ex.map(run, ms):
            print(x, flush=True)
