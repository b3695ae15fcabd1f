"""C29: geographic and frame conversions."""
import random
from .base import REPO
from .simple import Beh, explore
FLAGS = (REPO + '/msf_core/src/lib/gps_conversion.cc', REPO + '/msf_core/src/similaritytransform.cc')
QUATS = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, -1, 0), (0, 1, 0, 1), (1, 0, 0, 1), (1, 1, 1, 0), (1, -1, 0, 1), (0, 1, 1, -1),
         (-1, 0, 1, 1)]


def n2(q):
    return sum(x * x for x in q)


def qmul(x, y):
    a, b, c, d = x
    e, f, g, h = y
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def conj(q):
    return (q[0], -q[1], -q[2], -q[3])


def rot(q, v):
    """N(q) times the rotated vector"""
    return [int(x) for x in qmul(qmul(q, (0,) + tuple(v)), conj(q))[1:]]


def J(*parts):
    return ' '.join(str(x) for p in parts for x in (p if isinstance(p, (list, tuple)) else [p]))


def geo(r, b):
    def lat():
        q = r.choice([1, 2, 3, 7, 60, 101, r.randrange(1, 140)])
        return [r.randrange(-q, q + 1), q]

    def lon():
        x = [r.randrange(-100, 101), r.randrange(-100, 101)]
        return r.choice([[0, 1], [1, 0], [1, 1], [-1, 1], [2, -1]]) if x == [0, 0] or r.random() < 0.2 else x

    def h():
        return r.choice([0, 0, -5000, r.randrange(0, 1000000), r.randrange(0, 50000)])
    places = []

    def place():
        if places and r.random() < 0.5:
            la, lo, z = r.choice(places)
            return list(la), list(lo), (z if r.random() < 0.3 else h())
        if places and r.random() < 0.4:     # not far from a known place
            la, lo, z = r.choice(places)
            la = [max(-la[1], min(la[1], la[0] + r.choice([-1, 0, 1]))), la[1]]
            lo = [lo[0] + r.choice([-1, 0, 1]), lo[1]]
            if lo == [0, 0]:
                lo = [1, 0]
            p = la, lo, h()
        else:
            p = lat(), lon(), h()
        places.append(p)
        return list(p[0]), list(p[1]), p[2]
    for _ in range(r.randrange(6, 30)):
        e = r.choices(['ref', 'ecef', 'enu', 'local', 'fresh', 'copy'], [2, 4, 10, 2, 0.3, 0.5])[0]
        if e in ('ref', 'ecef', 'enu'):
            la, lo, z = place()
            turns = r.choice([0, 0, 0, 1, -1]) if e != 'ref' else 0
            b.add(J(e, la, 0, lo, turns, z), op=e, lat=la, lon=lo, h=z)
        elif e == 'local':
            x = [r.randrange(-500000000, 500000000) for _ in range(3)]
            b.add(J(e, x), op=e, x=x)
        else:
            b.add(e, op=e)


def sim(r, b):
    style = r.choice(['exact', 'exact', 'free', 'average', 'degenerate'])
    q, p, k = r.choice(QUATS), [r.randrange(-5, 6) for _ in range(3)], r.choice([1, 2, 3, -1])
    const = [r.randrange(-3, 4) for _ in range(3)]
    npairs = 0

    def vec(m):
        return [r.randrange(-m, m + 1) for _ in range(3)]
    done = []

    def pair():
        q1 = r.choice([x for x in QUATS if n2(x) <= 2]) if r.random() < 0.6 else r.choice(QUATS)
        if style == 'average':
            dq = r.choice([q, q, r.choice(QUATS)])
        elif style == 'free':
            dq = r.choice(QUATS)
        else:
            dq = q
        q2 = qmul(q1, dq)
        g = n2(q2)
        # reduce: keep q2 primitive, a divisor condition on N(q1) N(q2)
        d = 1
        for t in (2, 3):
            while all(x % t == 0 for x in q2):
                q2 = tuple(x // t for x in q2)
        n = n2(q1)
        if 36 % (n * n2(q2)):
            return
        if r.random() < 0.5:
            q2 = tuple(-x for x in q2)
        if r.random() < 0.4:
            q1 = tuple(-x for x in q1)
        # positions seen from the first pose's attitude: u for the second, w for the first
        m = 3 if n > 2 else 5
        if style == 'degenerate':
            u, w = const, (vec(m) if r.random() < 0.5 else [k * a - b for a, b in zip(const, p)])
        elif style == 'free':
            u, w = vec(m), vec(m)
        else:
            u = vec(m)
            w = [k * a - b for a, b in zip(u, p)]
        t1, t2 = rot(q1, w), rot(q1, u)   # n times the rotated vectors
        if any(x % n for x in t1 + t2) or r.random() < 0.5:   # use n * u and n * w instead of u and w
            if style in ('degenerate', 'exact', 'average') and n != 1:
                return
        else:
            t1, t2 = [x // n for x in t1], [x // n for x in t2]
        if any(x % n for x in t1 + t2):
            return
        done.append((list(q1), t1, list(q2), t2))

    for _ in range(r.randrange(1, 5)):
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            if len(done) >= 12:
                break
            before = len(done)
            if done and r.random() < 0.08:
                done.append(r.choice(done))
            else:
                pair()
            if len(done) > before:
                x = done[-1]
                b.add(J('pair', x[0], x[1], x[2], x[3], r.randrange(2)), op='pair', q1=x[0], t1=x[1], q2=x[2], t2=x[3])
        us = [tuple(v // n2(x[0]) for v in rot(conj(x[0]), x[3])) for x in done]
        weps = 1 if len(set(us)) < 2 else r.choice([0, 0, 1])
        sp, cp = r.choice([1, 1, 1, 0]), r.choice([1, 1, 0])
        b.add(J('compute', sp, cp, weps), op='compute', scaleptr=sp, condptr=cp)
        if r.random() < 0.2:
            b.add('clear', op='clear')
            del done[:]
            const = [r.randrange(-3, 4) for _ in range(3)]


def messages(r, b):
    for _ in range(r.randrange(3, 12)):
        e = r.choice(['setcov', 'setcov', 'getcov', 'msg', 'quat', 'quat'])
        i, j = r.choice([0, 3]), r.choice([0, 3])
        if e == 'setcov':
            m = [r.randrange(-99, 100) for _ in range(9)]
            if i == j:
                m[3], m[6], m[7] = m[1], m[2], m[5]
            b.add(J(e, i, j, m), op=e, r=i, c=j, m=m)
        elif e == 'getcov':
            b.add(J(e, i, j), op=e, r=i, c=j)
        else:
            k = r.choice([2, 9, 40])
            p, w, q = ([r.randrange(-k, k + 1) for _ in range(n)] for n in (3, 3, 4))
            if e == 'msg':
                b.add(J(e, p, q), op=e, p=p, q=q)
            else:
                b.add(J(e, p, w, q), op=e, v=p, w=w, q=q)


def behaviour(seed, k):
    r = random.Random('frames-%d-%d' % (seed, k))
    b = Beh()
    for _ in range(3):
        r.choice([geo, geo, sim, sim, sim, messages])(r, b)
    return b


def run(c):
    def relevant(m):
        assert 'BADINPUT' not in m['labels'], 'generator error: %s' % m
        return True
    c.model('FramesMC', 'FramesMCdeep' if c.thorough else 'FramesMC', 'references map to the origin and their vertical to up, local frames keep lengths, the poles and the equator lie at the ellipsoid radii, the similarity that made pose pairs is recovered whenever they determine it, covariance blocks stay symmetric')
    n = 12000 if c.thorough else 800
    explore(c, 'frames', 'FramesTrace', {k + 1: behaviour(c.seed, k) for k in range(n)}, 'frames', relevant, flags=FLAGS)
