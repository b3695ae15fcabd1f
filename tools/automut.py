#!/usr/bin/env python3
"""automut.py SEED N FILE…: random one-line changes of the filter core, each judged by one mixed run of the core conformance
check. Prints, per change, which properties' predicates accept the mismatches (or SURVIVED)."""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
LOG = re.compile(r'^\s*(//|\*|/\*|#|MSF_|ROS_|<<|")|STREAM|UNUSED|typedef|template|static_assert|CheckForNumeric|^\s*[})]|^\s*$|#include|using |namespace|timer|Timer')


def ops(line, rnd):
    o = []
    def sub(pat, rep):
        for m in re.finditer(pat, line):
            o.append(line[:m.start()] + rep(m) + line[m.end():])
    sub(r'(?<![<\-=!>])<(?=[ =])(?!<)=?', lambda m: '<=' if m.group() == '<' else '<')
    sub(r'(?<=[ ])>=?(?=[ ])', lambda m: '>=' if m.group() == '>' else '>')
    sub(r'==', lambda m: '!=')
    sub(r'!=', lambda m: '==')
    sub(r'&&', lambda m: '||')
    sub(r'\|\|', lambda m: '&&')
    sub(r'(?<=[\w\)] )\+(?= )', lambda m: '-')
    sub(r'(?<=[\w\)] )-(?= )', lambda m: '+')
    sub(r'\btrue\b', lambda m: 'false')
    sub(r'\bfalse\b', lambda m: 'true')
    sub(r'\+\+(?=\w)', lambda m: '--')
    sub(r'--(?=\w)', lambda m: '++')
    sub(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1))
    sub(r'(?<![\w.])(\d+\.\d+)', lambda m: repr(float(m.group(1)) * 2 + (1 if float(m.group(1)) == 0 else 0)))
    if re.match(r'^\s+[\w\->.\(\)\[\]:<>*]+.*;\s*(//.*)?$', line) and not re.match(r'^\s+(const |double |int |bool |auto |typename |Eigen::|enum|return [^;]|static )', line):
        o.append('')
        o.append('')
    return o


def main():
    seed, n, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rnd = random.Random(seed)
    work = '/tmp/am/%d' % seed
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', work])
    os.environ['VERIF_REPO'] = work
    from vf import base, core, gen_core
    base.V_EV = '/tmp/am'
    cands = []
    for f in files:
        L = open('/repo/' + f).read().split('\n')
        for i, l in enumerate(L):
            if LOG.search(l):
                continue
            for x in ops(l, rnd):
                cands.append((f, i, l, x))
    rnd.shuffle(cands)
    print('%d candidates' % len(cands), flush=True)
    seen = 0
    for f, i, l, x in cands:
        if seen >= n:
            break
        L = open('/repo/' + f).read().split('\n')
        L[i] = x
        open(work + '/' + f, 'w').write('\n'.join(L))
        t = time.time()
        c = base.Ctx('C03', 'quick', seed)
        try:
            try:
                b = c.build('core')
            except base.NoAnswer:
                continue
            seen += 1
            gs, prof, bid = {}, {}, 0
            for p in gen_core.PROFILES:
                for k in range({'retention': 4, 'fuzzymodes': 6}.get(p, 14)):
                    bid += 1
                    gs[bid], prof[bid] = gen_core.make(c.seed, p, k + 1), p
            try:
                crash, mis, ends, r = core.judge(c, b, gs, timeout=4)
            except base.NoAnswer as e:
                print('%s:%d NOANSWER %s | %s -> %s' % (f, i + 1, str(e)[:80], l.strip(), x.strip()), flush=True)
                continue
            props = {}
            for k, m in mis.items():
                for P, (pred, plan, _) in core.PLANS.items():
                    if any(q == prof[k] for q, _ in plan) and pred(core.M(m), prof[k]):
                        props[P] = props.get(P, 0) + 1
            lab = {}
            for m in mis.values():
                for q in m['labels']:
                    lab[q] = lab.get(q, 0) + 1
            print('%s:%d %s crash=%d mis=%d %s labels=%s | %s -> %s (%ds)' % (os.path.basename(f), i + 1, 'SURVIVED' if not crash and not mis else 'killed' if props or crash else 'UNCLAIMED', len(crash), len(mis),
                  ' '.join('%s:%d' % a for a in sorted(props.items())), sorted(lab, key=lambda q: -lab[q])[:4], l.strip(), x.strip() or '(deleted)', time.time() - t), flush=True)
        finally:
            c.close()
            subprocess.run(['cp', '/repo/' + f, work + '/' + f])


main()
