#!/usr/bin/env python3
"""mkseed.py [IDs]: builds /verif/seeded/<id> from tools/seeds/<id>.py and confirms the demonstration in a scratch copy of /repo.
A seed file defines: prop, edits = [(file, old, new)], needs, breaks, flags, demo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def kit(out):
    t = W + '/kit-%d' % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    shutil.copytree(V + '/stubs', t + '/stubs')
    for f in ('demo_core.h', 'demo_app.h'):
        shutil.copy(V + '/tools/kit/' + f, t)
    shutil.copy(V + '/tools/gen_cfg.py', t)
    sh(['tar', '--sort=name', '--owner=0', '--group=0', '--mtime=2020-01-01', '-czf', out, '-C', t, '.'], env=dict(os.environ, GZIP='-n'))


def make(i):
    s = {}
    exec(compile(open('%s/tools/seeds/%s.py' % (V, i)).read(), i, 'exec'), s)
    r = '%s/%s' % (W, i)
    shutil.rmtree(r, ignore_errors=True)
    sh(['git', 'clone', '-q', '/repo', r])
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(('// flags: %s\n' % s['flags'] if s.get('flags') else '') + s['demo'].lstrip('\n'))
    shutil.copy(V + '/tools/kit/demo.sh', d)
    if not os.path.exists(d + '/kit.tgz') or '--kit' in sys.argv:
        shutil.copy(W + '/kit.tgz', d)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a = sh([d + '/demo.sh'], cwd=r)
    for f, old, new in s['edits']:
        t = open(r + '/' + f).read()
        if t.count(old) != 1:
            return '%s: %d matches in %s for %r' % (i, t.count(old), f, old[:60])
        open(r + '/' + f, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=r).stdout)
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=r).stdout.strip()
    n = orig = 0
    for f in set(e[0] for e in s['edits']):
        bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], cwd=r).stdout.split('\n')
        ln = 0
        for l in sh(['git', 'diff', '-U0', '--', f], cwd=r).stdout.split('\n'):
            if l.startswith('@@'):
                ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                n += 1
                orig += base[:39] in bl[ln - 1].split(' ')[0] or bl[ln - 1].startswith('^')
                ln += 1
    if n != orig:
        print('%s: only %d of %d removed lines are original' % (i, orig, n))
    b = sh([d + '/demo.sh'], cwd=r)
    shutil.rmtree(r)
    ok = a.returncode == 0 and b.returncode == 1
    return '%s: %s (clean %d %s, patched %d %s)' % (i, 'ok' if ok else 'BAD', a.returncode, a.stdout.strip()[-200:], b.returncode, b.stdout.strip()[-200:])


os.makedirs(W, exist_ok=True)
ids = [x for x in sys.argv[1:] if not x.startswith('-')] or sorted(f[:-3] for f in os.listdir(V + '/tools/seeds'))
from concurrent.futures import ThreadPoolExecutor
kit(W + '/kit.tgz')
with ThreadPoolExecutor(6) as ex:
    for x in ex.map(make, ids):
        print(x, flush=True)
shutil.rmtree(W, ignore_errors=True)
