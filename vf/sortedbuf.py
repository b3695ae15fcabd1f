"""C15: the time-ordered buffer."""
import itertools, random
from .simple import Beh, explore


def add(b, r, line, times, **f):
    probes = sorted(times)
    b.add(line + ''.join(' @%d' % t for t in probes), **f)


def exhaustive(seed, maxn):
    """every content (subset of five times), built in some order, every probe time; then one re-dating or clean-up"""
    r = random.Random('sorted-exh-%d' % seed)
    T = [2, 4, 6, 9, 10]
    out = []
    for n in range(0, maxn + 1):
        for sub in itertools.combinations(T, n):
            order = list(sub)
            r.shuffle(order)
            b = Beh()
            allp = range(0, 13)
            if not order:
                add(b, r, 'clr', allp, op='clr')
            for k, t in enumerate(order):
                add(b, r, 'ins %d %d' % (t, k + 1), allp if k == n - 1 else [], op='ins', t=t, id=k + 1)
            a = r.choice(T)
            z = r.choice(range(0, 12))
            add(b, r, 'upd %d %d' % (a, z), allp, op='upd', a=a, z=z)
            if n:
                age = r.randrange(0, 10)
                add(b, r, 'old %d' % age, allp, op='old', age=age)
            out.append(b)
    return out


def rand(seed, k, big):
    r = random.Random('sorted-%d-%d' % (seed, k))
    b = Beh()
    span = r.choice([8, 30, 1000, 200000])
    nid, content = 0, 0
    used = [r.randrange(span)]
    for _ in range(r.randrange(8, 40 if not big else 120)):
        c = r.choices(['ins', 'upd', 'clr', 'old'], [12, 5, 0.4, 2])[0]
        pr = {r.randrange(-2, span + 3) for _ in range(2)} | {r.choice(used) + r.choice([-1, 0, 0, 1]) for _ in range(4)}
        if len(used) > 1:
            x, y = r.sample(used, 2)
            pr.add((x + y) // 2)
        if c == 'ins':
            nid += 1
            t = r.choice(used) if r.random() < 0.2 else r.randrange(span)
            used.append(t)
            content += 1
            add(b, r, 'ins %d %d' % (t, nid), pr, op='ins', t=t, id=nid)
        elif c == 'upd':
            a = r.choice(used) if r.random() < 0.8 else r.randrange(span)
            z = r.choice(used) if r.random() < 0.3 else r.randrange(span)
            used.append(z)
            add(b, r, 'upd %d %d' % (a, z), pr, op='upd', a=a, z=z)
        elif c == 'clr':
            content = 0
            add(b, r, 'clr', pr, op='clr')
        elif content:
            age = r.choice([0, 1, span // 3, span // 2, span, span * 2])
            add(b, r, 'old %d' % age, pr, op='old', age=age)
    return b


def run(c):
    c.model('SortedBufferMC', what='the buffer algorithms of MsfCore refine the declarative buffer, all histories of a small buffer')
    behs = exhaustive(c.seed, 5)
    n = 5000 if c.thorough else 300
    behs += [rand(c.seed, k, c.thorough) for k in range(n)]
    explore(c, 'sorted', 'SortedBufferTrace', {i + 1: b for i, b in enumerate(behs)}, 'sorted')
