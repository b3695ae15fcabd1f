"""C17 (and C08, C10): dead reckoning in three dimensions, with any attitude and turning rate."""
import random
from concurrent.futures import ThreadPoolExecutor
from .simple import Beh, explore
BASE = 1024000


def J(*parts):
    return ' '.join(str(x) for p in parts for x in (p if isinstance(p, (list, tuple)) else [p]))


def v3(r, m):
    return [r.randrange(-m, m + 1) for _ in range(3)]


def quat(r):
    if r.random() < 0.3:
        return r.choice([[1, 0, 0, 0], [0, 1, 0, 0], [1, 1, 1, 1], [1, 0, 0, -1], [-3, 4, 0, 0], [1, 2, 2, 4]])
    while True:
        q = [r.randrange(-9, 10) for _ in range(4)]
        if any(q):
            return q


def make(seed, k):
    r = random.Random('%s/motion/%d' % (seed, k))
    noise = [0] * 4
    which = r.randrange(4)
    noise[which] = 1
    b = Beh(noise, dict(noise=noise))
    st = dict(t=BASE + r.randrange(4000), a=[0] * 3, w=[0] * 3)
    style = r.choice(['free', 'free', 'spin', 'hold', 'slow', 'fast', 'fast'])
    times, used, held = [], [], 0

    def readings():
        if style == 'hold' and r.random() < 0.5:
            return
        st['a'] = v3(r, 3000) if r.random() < 0.8 else [0, 0, 2511]
        if style == 'slow':
            st['w'] = v3(r, 100)
        elif style == 'fast':
            st['w'] = v3(r, 7000)
        elif style == 'spin':
            st['w'] = [r.choice([-1300, 1300, 0]) for _ in range(3)]
        else:
            st['w'] = v3(r, 1300)

    def init():
        readings()
        if times:
            st['t'] += r.randrange(-300, 300)
        p, v, q, ba, bw, x = v3(r, 5000), v3(r, 900), quat(r), v3(r, 100), v3(r, 60), r.randrange(-50, 50)
        b.add(J('init', st['t'], st['a'], st['w'], p, v, q, ba, bw, x), op='init', t=st['t'], a=st['a'], w=st['w'], p=p, v=v, q=scaled(q), ba=ba, bw=bw, x=x)
        times[:] = [st['t']]
        used[:] = []

    def scaled(q):
        n = sum(x * x for x in q) ** 0.5
        return [round(16384 * x / n) for x in q]

    def imu(ext=False):
        dt = r.choice([r.randrange(5, 15), r.randrange(5, 15), r.randrange(15, 60), r.randrange(60, 90)])
        if style == 'fast':
            dt = min(dt, 40)
        readings()
        st['t'] += dt
        if ext:
            flag = 1 if r.random() < 0.6 else 0
            p, v, q = v3(r, 5000), v3(r, 900), quat(r)
            b.add(J('ext', st['t'], st['a'], st['w'], flag, p, v, q), op='ext', t=st['t'], a=st['a'], w=st['w'], flag=flag, p=p, v=v, q=scaled(q))
        else:
            b.add(J('imu', st['t'], st['a'], st['w']), op='imu', t=st['t'], a=st['a'], w=st['w'])
        times.append(st['t'])

    def meas():
        s = times[-12:]
        c = r.random()
        if c < 0.25:
            t = r.choice(s)
        elif c < 0.85 and len(s) > 1:
            i = r.randrange(len(s) - 1)
            t = r.randrange(s[i], s[i + 1] + 1)
        elif c < 0.92:
            t = times[-1]
        else:
            t = times[-1] + r.randrange(1, 40)
        if any(abs(t - u) < 3 for u in used) or any(0 < abs(t - u) < 3 for u in times):
            return
        used.append(t)
        dp, dv, dq, dbw, dba = [(v3(r, m) if r.random() < 0.5 else [0, 0, 0]) for m in (500, 500, 120, 40, 60)]
        dx = r.randrange(-9, 10)
        dyn = r.randrange(2)
        b.add(J('meas', len(b.ops), t, r.randrange(3), dp, dv, dq, dbw, dba, dx, dyn), op='meas')
    ext = r.random() < 0.2
    init()
    for _ in range(r.choice([3, 4, 5])):
        imu(ext)
    n = r.randrange(25, 45)
    while len(b.ops) < n:
        c = r.random()
        if c < 0.55:
            imu(ext and r.random() < 0.6)
        elif c < 0.98:
            meas()
        elif len(b.ops) < n - 8:
            init()
            for _ in range(4):
                imu(ext)
    return b


def relevant(prop, m):
    ls = m['labels']
    if prop == 'C17':
        return any(x.startswith(('step:', 'kept')) for x in ls)
    if prop == 'C08':
        return any(x in ('interpolated', 'where') or x.startswith('noise') for x in ls)
    if prop == 'C06':
        return any(x.startswith('noise') for x in ls)
    if prop == 'C10':
        return any(x.startswith('adopt') for x in ls)
    return True


def run(c):
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(c.model, 'MotionMC', 'MotionMCdeep' if c.thorough else 'MotionMC', 'the step relation: exact steps pass, equivariant under turning the scene, one-sided and mis-signed steps are told apart') if c.prop == 'C17' else None
        c.build('motion')
        if f:
            f.result()
    n = {'C17': (160, 3000)}.get(c.prop, (60, 900))[1 if c.thorough else 0]
    explore(c, 'motion', 'MotionTrace', {k: make(c.seed, k) for k in range(1, n + 1)}, 'motion', relevant=lambda m: relevant(c.prop, m))
