"""C33: simulated drift of pose readings, and the node that lets messages through."""
import random
from .base import REPO
from .simple import Beh, explore
FLAGS = ('-fno-access-control', '-I%s/msf_updates/src' % REPO, REPO + '/msf_updates/src/msf_distort/PoseDistorter.cc', '-DDISTORT_NODE="%s/msf_distort/src/msf_distort.cc"' % REPO)
QUATS = [(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (1, 0, -1, 0), (1, 1, 1, 1), (1, -1, 1, 0), (2, 1, 0, 0), (1, 2, 2, 0)]


def J(*parts):
    return ' '.join(str(x) for p in parts for x in (p if isinstance(p, (list, tuple)) else [p]))


def vec(r, m):
    return [r.randrange(-m, m + 1) for _ in range(3)]


def direct(r, b):
    for _ in range(r.choice([1, 1, 2])):
        u = r.choice([1, 2, 4, 8, 16])       # the time in which a used turn is completed
        kind = r.randrange(3)
        k = [0, 64, 128][kind]
        att = [r.choice([1, -1]) * k // u for _ in range(3)]
        pos, sc = r.choice([[0, 0, 0], vec(r, 6), vec(r, 6)]), r.choice([0, 0, 1, -1, 2])
        b.add(J('make', pos, att, sc), op='make', pos=pos, att=att, scale=sc)
        for _ in range(r.randrange(2, 14)):
            e = r.choice(['dpos', 'datt', 'dboth', 'dboth'])
            p, q = vec(r, 20), list(r.choice(QUATS))
            dt = r.choice([u, u, u, 0, -u]) if e != 'dpos' and kind else r.choice([0, 1, 3, 8, 20, -4])
            if e == 'dpos':
                b.add(J(e, p, dt), op=e, p=p, dt=dt)
            elif e == 'datt':
                b.add(J(e, q, dt), op=e, q=q, dt=dt)
            else:
                b.add(J(e, p, q, dt), op=e, p=p, q=q, dt=dt)


def handler(r, b):
    if r.random() < 0.3:
        for _ in range(2):
            v = [r.randrange(0, 3000) for _ in range(3)] + [r.randrange(1, 3000) for _ in range(3)]
            b.add(J('inspect', v), op='inspect', pos=v[0], att=v[1], scale=v[2], spos=v[3], satt=v[4], sscale=v[5])
    u = r.choice([1, 2, 4, 8])
    a = r.choice([0, 0, 64 // u, -64 // u, 128 // u])
    pos, sc = r.randrange(-6, 7), r.choice([0, 0, 1, -1])
    b.add(J('handler', pos, a, sc), op='handler', pos=[pos] * 3, att=[a] * 3, scale=sc)
    t = r.randrange(1, 9)
    tp = 0
    for k in range(r.randrange(3, 14)):
        p, q = vec(r, 20), list(r.choice(QUATS))
        if r.random() < 0.25:
            tp = max(tp + 1, t)
            b.add(J('plain', tp, p, q), op='plain', t=tp, p=p, q=q)
        else:
            b.add(J('hpose', t, p, q), op='hpose', t=t, p=p, q=q)
            t += u if a else r.choice([1, 2, 7, 30])


def node(r, b):
    for k in range(r.randrange(5, 25)):
        if r.random() < 0.2:
            x, y = r.randrange(2), r.randrange(2)
            b.add(J('conf', x, y), op='conf', pose=x, place=y)
        else:
            e = r.choice(['cov', 'tf', 'ps', 'nav', 'pt'])
            x = r.randrange(1, 500)
            b.add(J('send', e, x), op='send', kind=e, x=x)


def behaviour(seed, k):
    r = random.Random('distort-%d-%d' % (seed, k))
    f = r.choice([direct, handler, node])
    b = Beh(('node' if f == node else 'lib',))
    f(r, b)
    return b


def run(c):
    def relevant(m):
        assert 'BADINPUT' not in m['labels'], 'generator error: %s' % m
        return True
    n = 15000 if c.thorough else 1500
    c.model('DistortMC', 'DistortMC', 'the drift is the rate times the elapsed time however readings are spaced; the first reading is undistorted; the gate lets exactly the enabled kinds through')
    explore(c, 'distort', 'DistortTrace', {k + 1: behaviour(c.seed, k) for k in range(n)}, 'distort', relevant, flags=FLAGS)
