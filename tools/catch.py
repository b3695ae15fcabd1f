#!/usr/bin/env python3
"""catch.py [IDs] [--also P,Q]: runs the quick check of each planted bug's property against a scratch copy with the bug and says what was caught."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    if '--prop' in sys.argv:
        prop = sys.argv[sys.argv.index('--prop') + 1]
    r = '/tmp/catch/%s' % i
    shutil.rmtree(r, ignore_errors=True)
    os.makedirs('/tmp/catch', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', r])
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, check=True)
    t = time.time()
    p = subprocess.run([V + '/run_check.py', prop], env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE='/tmp/catch'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(r)
    v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    return '%s: %s rc=%d %d s %s' % (i, 'caught' if p.returncode == 1 and any('property=%s ' % prop in x for x in v) else 'MISSED', p.returncode, time.time() - t, p.stdout.strip().split('\n')[-1][:200])


ids = [x for x in sys.argv[1:] if x in os.listdir(V + '/seeded')] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(run, ids):
        print(x, flush=True)
