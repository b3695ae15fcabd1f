"""Measurement models of the real sensors (Jacobian, residual, noise) against MeasModels.tla."""
import random
from .simple import Beh, explore
from .apps import flags

ROT = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 0, 0), (0, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1),
       (1, -1, 0, 0), (1, 0, -1, 0), (1, 0, 0, -1), (1, 1, -1, -1), (-1, 1, 0, 0)]
TILT = [(1, 1, 1, 0), (1, 0, 1, -1), (2, 1, 0, 0), (2, 2, 1, 0), (0, 2, 2, 1), (2, 0, 0, 1), (1, 2, 0, 0), (2, -1, 1, 0), (1, 1, 2, -2), (3, 1, 0, 1)]
FIX = ['L', 'pic', 'qic', 'pwv', 'qwv', 'pip']
KINDS = {1: ['pose', 'pose', 'relpose'], 2: ['position'], 3: ['angle', 'angle', 'distance'], 4: ['pose', 'relpose', 'pressure'], 5: ['pose', 'relpose', 'position', 'position']}
# (rho, rad) triples: x^2+y^2=rho^2, rho^2+z^2=rad^2
QUADS = [(3, 4, 5, 12, 13), (4, 3, 5, 0, 5), (5, 12, 13, 0, 13), (5, 0, 5, 12, 13), (0, 5, 5, 12, 13), (8, 0, 8, 15, 17), (0, 8, 8, 6, 10), (8, 6, 10, 0, 10), (6, 0, 6, 8, 10),
         (0, 3, 3, 4, 5), (12, 9, 15, 8, 17), (9, 12, 15, 20, 25), (16, 12, 20, 15, 25), (12, 16, 20, 21, 29), (7, 24, 25, 0, 25), (0, 20, 20, 21, 29), (24, 0, 24, 7, 25),
         (12, 5, 13, 0, 13), (0, 12, 12, 5, 13), (15, 0, 15, 8, 17)]


def n2(q):
    return sum(x * x for x in q)


def mat(q):
    a, b, c, d = q
    return [[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]


def mv(m, v):
    return [sum(x * y for x, y in zip(r, v)) for r in m]


def qm(x, y):
    return (x[0]*y[0]-x[1]*y[1]-x[2]*y[2]-x[3]*y[3], x[0]*y[1]+x[1]*y[0]+x[2]*y[3]-x[3]*y[2],
            x[0]*y[2]-x[1]*y[3]+x[2]*y[0]+x[3]*y[1], x[0]*y[3]+x[1]*y[2]-x[2]*y[1]+x[3]*y[0])


def conj(q):
    return (q[0], -q[1], -q[2], -q[3])


def js(*vs):
    return ' '.join(str(x) for v in vs for x in (v if isinstance(v, (list, tuple)) else [v]))


def vec(r, k=24):
    return [r.choice([0, 8, -8, r.randrange(-k, k + 1), r.randrange(-k, k + 1)]) for _ in range(3)]


def rand_state(r, pool, pu=8):
    return dict(pu=pu, p=vec(r), q=r.choice(pool), qwv=r.choice(pool), qic=r.choice(pool), pwv=vec(r), pic=vec(r, 10),
                L=r.choice([8, 8, 4, 16, 12, 5, r.randrange(1, 25)]), bp=r.randrange(-30, 31), pip=vec(r, 10), seed=r.randrange(1000))


def swords(s):
    return js(s['pu'], s['p'], s['q'], s['qwv'], s['qic'], s['pwv'], s['pic'], s['L'], s['bp'], s['pip'], s['seed'])


def cam(s):
    return qm(qm(s['qwv'], s['q']), s['qic'])


def fields(s):
    return {k: (list(v) if isinstance(v, tuple) else v) for k, v in s.items()}


def one(r, kind, app):
    ab = 1
    if kind == 'relpose':
        kind, ab = 'pose', 0
    elif r.random() < 0.05 and kind != 'pose':
        ab = 0
    names = ['L', 'pic', 'qic', 'pwv', 'qwv'] if kind == 'pose' else ['pip']
    fx = [x for x in names if r.random() < 0.3]
    fc, n1, n2_, cs, sensor = r.randrange(2), r.randrange(1, 12), r.randrange(1, 12), r.randrange(100), r.randrange(5)
    t = r.randrange(100, 10000)
    f = dict(op=kind, abs=ab, sensor=sensor, fx=fx, fc=fc, n1=n1, n2=n2_, cs=cs, t=t)
    head = '%s %d %d %s %d %d %d %d' % (kind, ab, sensor, js([int(x in fx) for x in FIX]), fc, n1, n2_, cs)
    if kind == 'pose' and ab:
        while True:
            s, zq = rand_state(r, ROT + TILT * 3), r.choice(ROT + TILT * 3)
            if r.random() < 0.5:   # a reading close to the prediction
                zq = qm(cam(s), r.choice([(1, 0, 0, 0), (3, 1, 0, 0), (5, 0, -1, 1), (4, 0, 1, 0)]))
            w = qm(conj(cam(s)), zq)[0]
            if w and max(map(abs, zq)) < 2000:
                break
        z = vec(r, 60)
        kp, ka = 64 * n2(s['q']) * n2(s['qwv']), n2(s['q']) * n2(s['qic'])
        f.update(s=fields(s), z=z, zq=list(zq), kp=kp, ka=ka, kw=w)
        sc = [(kp, kp)] * 3 + [(ka, w)] * 3 + [(kp, 1000)]
        return '%s %d %s %d %s %s' % (head, 7, js(*sc), t, swords(s), js(z, zq)), f
    if kind == 'pose':
        while True:
            s, so = rand_state(r, ROT * 2 + TILT), rand_state(r, ROT * 2 + TILT)
            if r.random() < 0.5:
                for k in ('qwv', 'qic', 'pwv', 'pic', 'L'):
                    so[k] = s[k]
            zq, zqo = r.choice(ROT + TILT), r.choice(ROT + TILT)
            if r.random() < 0.4:
                zqo, zq = cam(so), qm(cam(s), r.choice([(1, 0, 0, 0), (3, 1, 0, 0), (5, 0, -1, 1), (4, 0, 1, 0)]))
            e = qm(qm(conj(cam(s)), cam(so)), qm(conj(zqo), zq))
            m = n2(s['q']) * n2(s['qwv']) * n2(so['q']) * n2(so['qwv'])
            a = n2(s['q']) * n2(s['qic']) * n2(so['q']) * n2(so['qic'])
            if e[0] and max(map(abs, e)) < 10 ** 8 and m <= 400 and a < 10 ** 5:
                break
        z, zo = vec(r, 60), vec(r, 60)
        kp, ka = 64 * m, a
        to = t - r.randrange(1, 90)
        prev, oldok = r.choice([2] * 12 + [0, 1]), int(r.random() < 0.93)
        f.update(s=fields(s), so=fields(so), z=z, zo=zo, zq=list(zq), zqo=list(zqo), kp=kp, ka=ka, kw=e[0], prev=prev, oldok=oldok, to=to)
        sc = [(kp, kp)] * 3 + [(ka, e[0])] * 3 + [(kp, 1000)]
        return '%s %d %s %d %s %s %d %d %d %s %s' % (head, 7, js(*sc), t, swords(s), js(z, zq), prev, oldok, to, swords(so), js(zo, zqo)), f
    s = rand_state(r, ROT + TILT * 2)
    n = n2(s['q'])
    if kind == 'position':
        z = vec(r, 60)
        f.update(s=fields(s), z=z)
        return '%s 3 %s %d %s %s' % (head, js(*[(8 * n, 8 * n)] * 3), t, swords(s), js(z)), f
    if kind == 'pressure':
        z = vec(r, 60)
        f.update(s=fields(s), z=z)
        return '%s 1 1 8 %d %s %s' % (head, t, swords(s), js(z)), f
    x, y, rho, h, rad = r.choice(QUADS)
    u = [x * r.choice([1, -1]), y * r.choice([1, -1]), h * r.choice([1, -1])]
    s['pu'] = 8 * n
    s['p'] = [n * a - b for a, b in zip(u, mv(mat(s['q']), s['pip']))]
    if kind == 'angle':
        z = [r.randrange(0, 3142), r.randrange(-3141, 3142)]
        f.update(s=fields(s), rho=rho, rad=rad)
        return '%s 2 %d %d %d %d %d %s %s' % (head, rho * rad * rad * n, rad, rho * rho * n, rho, t, swords(s), js(z)), f
    z = vec(r, 60)
    f.update(s=fields(s), rad=rad, z=z)
    return '%s 1 %d 8 %d %s %s' % (head, 8 * rad * n, t, swords(s), js(z)), f


def behaviour(seed, k, app):
    r = random.Random('models-%d-%d-%d' % (seed, app, k))
    b = Beh()
    b.add('start', op='start')
    for _ in range(r.randrange(5, 9)):
        line, f = one(r, r.choice(KINDS[app]), app)
        b.add(line, **f)
    return b


def run(c):
    def relevant(m):
        assert 'BADINPUT' not in m['labels'], 'generator error: %s' % m
        return True
    n = 6000 if c.thorough else 600
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda a: c.build('models', flags(a, False)), (1, 2, 3, 4, 5)))
    c.model('MeasMC', 'MeasMCdeep' if c.thorough else 'MeasMC', 'every Jacobian of MeasModels is the exact derivative of its prediction; relative residuals vanish exactly for consistent changes')
    for app in (1, 2, 3, 4, 5):
        behs = {k + 1: behaviour(c.seed, k, app) for k in range(n if app in (1, 3, 5) else n // 2)}
        explore(c, 'models', 'MeasTrace', behs, 'app%d' % app, relevant, chunk=1000, flags=flags(app, False))
