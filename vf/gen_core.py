"""Generates behaviours (sequences of calls) for the filter core harness."""
import random

BASE = 1024000

# weights of the things that can happen; a profile overrides some of them
DEFAULT = dict(
    imu=60, meas=25, near=0, prev=0, fix=0, reinit=0, spike=0, dup=0, smallback=0, gapfwd=1, backjump=0, nan=0,
    ext=0, n=(40, 80), axis=None, warmup_meas=0.3, fixed0=0.15, acc=0.0, dt=(5, 15), bigdt=0.06,
    # where measurements are placed
    m_now=3, m_imu=6, m_near=4, m_mid=6, m_future=3, m_farfuture=1, m_old=1, m_gap=1, m_same=0.4, m_bound=1,
    tiny=0, gate=0.25, gated=0.5, noapply=0.05, df=0.0, dth=0.3, dv=0.7, dba=0.4, dbw=0.3, uninit=0.15, spread=0.5,
    pregap=0.15, extstart=0.0, extflag=0.7, kick=0)

PROFILES = {
    'general': dict(prev=3, near=0, fix=1, reinit=1, gapfwd=2),
    'lifecycle': dict(reinit=6, backjump=7, nan=4, warmup_meas=0.8, uninit=0.7, pregap=0.25, m_future=5, n=(30, 60)),
    'replay': dict(tiny=0.05, meas=45, m_imu=10, m_mid=8, m_now=2, m_future=2, spread=1.0, gapfwd=0, n=(50, 90), kinddyn=0.5),
    'future': dict(meas=40, m_future=18, m_farfuture=5, m_now=3, n=(50, 90), reinit=0.7),
    'old': dict(m_old=12, m_gap=10, gapfwd=8, m_bound=8, n=(40, 70), meas=35),
    'assoc': dict(tiny=0.06, m_near=14, m_mid=12, m_bound=6, gapfwd=4, near=6, n=(40, 70)),
    'gate': dict(gate=0.9, gated=0.5, noapply=0.1, meas=40, spread=1.0, n=(40, 70)),
    'fixed': dict(fix=8, dba=1.0, dbw=1.0, fixed0=0.5),
    'fuzzy': dict(meas=55, df=1.0, n=(110, 150), m_future=0.3, m_farfuture=0, m_old=0, m_gap=0, m_same=0, gapfwd=0,
                  m_imu=14, m_mid=0, m_near=2, m_now=8, m_bound=0, reinit=0.6, spread=0.05, gate=0.05, uninit=0, warmup_meas=0.05, kick=0.25),
    # the reference of the watchdog has two modes, so that the oldest reading matters
    'fuzzymodes': dict(meas=55, df=1.0, modes=True, n=(170, 210), m_future=0, m_farfuture=0, m_old=0, m_gap=0, m_same=0, gapfwd=0,
                       m_imu=0, m_mid=0, m_near=0, m_now=8, m_bound=0, gate=0, noapply=0, uninit=0, warmup_meas=0, pregap=0, bigdt=0),
    'fuzzyfix': dict(meas=55, df=1.0, n=(110, 150), m_future=0.3, m_farfuture=0, m_old=0, m_gap=0, m_same=0, gapfwd=0, dba=1.0, dbw=1.0,
                     fixed0=0.5, fix=4, m_imu=14, m_mid=0, m_near=2, m_now=4, m_bound=0, spread=0.3, gate=0.05, uninit=0, warmup_meas=0.05, kick=0.3),
    'imu': dict(tiny=0.08, spike=7, dup=5, smallback=6, gapfwd=2, pregap=0.5, backjump=1.5, meas=14, m_mid=1, reinit=2, dt=(6, 16)),
    'ext': dict(imu=0, ext=60, extstart=1.0, spike=4, dup=2, smallback=3, reinit=2, meas=22),
    'extmix': dict(imu=20, ext=40, smallback=2, extstart=0.5, meas=22, reinit=2, pregap=0.3),
    'biasprop': dict(tiny=0.08, dba=1.0, dbw=1.0, dv=1.0, dth=1.0, meas=30, fixed0=0.0, spread=0.7),
    'relative': dict(prev=14, acc=1.0, meas=32, m_mid=6, spread=0.7, n=(35, 60), tiny=0.15),
    'retention': dict(long=True),
}


class Gen:
    def __init__(self, rng, prof, wanted=None):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(PROFILES[prof])
        if wanted:
            self.p.update(wanted)
        self.prof = prof
        self.ops = []
        self.mid = 0
        ax = self.p['axis']
        self.axis = rng.choice([0, 1, 2]) if ax is None else ax
        self.fixed = 1 if rng.random() < self.p['fixed0'] else 0
        self.cleans = 0
        self.t = BASE + rng.randrange(0, 4000)
        self.times = []
        self.used = []
        self.n_imu = 0
        self.k = 0
        self.a = 0
        self.w = 0
        self.const = prof in ('imu', 'extmix') or rng.random() < 0.1

    # ------------------------------------------------------------ helpers
    def pick(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def step_readings(self, dt):
        r = self.r
        if not self.const:
            if r.random() < 0.4:
                self.k = r.choice([-2, -1, 0, 1, 2])
            na = self.a + self.k * dt
            if abs(na) > 1500:
                self.k = -self.k
                na = self.a + self.k * dt
            if abs(na) > 2400:
                na = self.a
            self.a = na
            if dt <= 12 and r.random() < 0.5:
                nw = self.w + r.choice([-1, 1]) * dt
                if abs(nw) <= 16:
                    self.w = nw
        elif r.random() < 0.25:
            self.a = r.randrange(-800, 800)
            if self.axis != 2 and r.random() < 0.06:
                self.a = r.choice([3200, 3199, -3200])    # just not a spike

    def init(self):
        r = self.r
        sens = 1 if (self.axis == 2 or r.random() < 0.6) else 0
        if self.times and r.random() < 0.7:
            self.t = self.t + r.randrange(-300, 300)
        elif self.times:
            self.t = self.t + r.randrange(-3000, 3000)
        a = r.randrange(-600, 600) if sens else r.randrange(-5, 5)
        w = r.randrange(-12, 13)
        o = dict(op='init', t=self.t, sens=sens, a=a, w=w, z=0)
        for h, k, lo, hi, pr in (('hx', 'x', 0, 60000, 0.7), ('hp', 'px', 1, 60000, 0.7), ('hv', 'v', -100000, 100000, 0.5),
                                 ('hba', 'ba', -60, 60, 0.4), ('hbw', 'bw', -6, 6, 0.4), ('hf', 'f', 0, 6, 0.3)):
            o[h] = 1 if r.random() < pr else 0
            o[k] = r.randrange(lo, hi) if o[h] else 0
        if o['hp'] and r.random() < 0.4:
            o['hp'] = r.choice([2, 2, 3])    # a tiny covariance; one entry alone
            if o['hp'] == 2 and r.random() < 0.6:
                o['px'] = 0
        self.ops.append(o)
        self.times = [self.t]
        self.used = []
        self.n_imu = 0
        self.inited = True
        self.ncorr = 0
        self.a, self.w = (a, w) if sens else (0, 0)

    def imu(self, dt=None, kind='imu', k=0, a=None, advance=True):
        r = self.r
        if dt is None:
            dt = r.randrange(*self.p['dt']) if r.random() > self.p['bigdt'] else r.randrange(40, 103)
            if self.p['tiny'] and r.random() < self.p['tiny']:
                dt = r.choice([1, 1, 2, 3])     # two samples (almost) at once
        t = self.t + dt
        if advance and k == 0:
            self.step_readings(dt)
        aa = self.a if a is None else a
        o = dict(op=kind, t=t, a=aa, w=self.w, k=k)
        if kind == 'ext':
            o.update(flag=1 if r.random() < self.p['extflag'] else 0, p=r.randrange(0, 65536), v=r.randrange(-200000, 200000),
                     th=r.randrange(-100000, 100000))
            if k == 2:
                o['flag'] = 0
        self.ops.append(o)
        self.t = t
        self.times.append(t)
        self.n_imu += 1
        if k == 0:
            self.cleans += 1
        return o

    def place(self):
        """time stamp for a measurement, or None"""
        r, T = self.r, self.times
        now = max(T)
        recent = T[-12:] if r.random() > self.p['spread'] else T[-40:]
        c = self.pick({k: self.p[k] for k in ('m_now', 'm_imu', 'm_near', 'm_mid', 'm_future', 'm_farfuture', 'm_old', 'm_gap',
                                              'm_same', 'm_bound')})
        if c == 'm_now':
            return now
        if c == 'm_imu':
            return r.choice(recent)
        if c == 'm_near':
            return r.choice(recent) + r.choice([-3, -2, -1, 1, 2, 3])
        if c == 'm_mid':
            s = sorted(set(recent))
            if len(s) < 2:
                return now
            i = r.randrange(len(s) - 1)
            return r.randrange(s[i], s[i + 1] + 1)
        if c == 'm_future':
            return now + r.randrange(1, 45)
        if c == 'm_farfuture':
            return now + r.randrange(45, 400)
        if c == 'm_old' and r.random() < 0.12:
            return min(T)           # as old as the oldest state
        if c == 'm_old':
            return min(T) - r.choice([1, 2, 5, 50, 101, 102, 103, 104, 500])
        if c == 'm_same':
            return r.choice(self.used) if self.used else now
        s = sorted(set(T))
        gaps = [(x, y) for x, y in zip(s, s[1:]) if y - x > 60]
        if c == 'm_gap' and gaps:
            x, y = r.choice(gaps)
            return r.randrange(x, y + 1)
        if c == 'm_bound' and gaps:
            x, y = r.choice(gaps)
            return r.choice([x + 1, x + 2, x + 101, x + 102, x + 103, x + 104, y - 1, y - 2, y - 102, y - 103, y - 104])
        return now

    def meas(self, t=None, force=False, **kw):
        r, p = self.r, self.p
        if t is None:
            t = self.place()
            # Measurements of the same state (less than 1 ms apart) are a recorded known finding: keep
            # them apart unless the time stamps are equal.
            if t <= 0:
                return
        if p.get('modes') and t in self.used:
            self.imu(dt=8)
            t = self.t
        if not force and any(0 < abs(t - u) < 3 for u in self.used):
            return
        self.mid += 1
        m = dict(id=self.mid, t=t, sid=r.randrange(0, 3), kind=r.choice([0, 1]), gate=0, thr=0, res=r.randrange(-400, 400),
                 code=r.randrange(1, 60000), dv=0, dba=0, dbw=0, df=0, dth=0)
        if r.random() < p['noapply']:
            m['kind'] = 2
        if r.random() < p['gate']:
            m['gate'] = 1
            m['thr'] = r.choice([64, 128, 192, 200])
            m['res'] = m['thr'] + r.choice([1, 7, 100]) if r.random() < p['gated'] else m['thr'] - r.choice([0, 1, 50])
            if r.random() < 0.5:
                m['res'] = -m['res']
        else:
            m['thr'] = r.choice([0, 64])
        for k, lo, hi in (('dv', -3000, 3000), ('dba', -20, 20), ('dbw', -4, 4), ('dth', -1500, 1500)):
            if r.random() < p[k]:
                m[k] = r.randrange(lo, hi + 1)
        if p['df'] and t <= max(self.times) + 1:
            m['df'] = self.drift(m)
        m.update(kw)
        self.used.append(t)
        self.ops.append(dict(op='meas', meas=m))

    def drift_modes(self):
        r = self.r
        if self.ncorr == 0:
            self.ref, self.pos = [], 1
        self.ncorr += 1
        want = r.choice([0, 8])
        if len(self.ref) >= 30:
            q = sorted(self.ref)
            verdict = lambda f: 'fuzzy' if min(abs(f - q[14]), abs(f - q[15])) >= 14 else 'ok' if max(abs(f - q[14]), abs(f - q[15])) <= 11 else '?'
            if r.random() < 0.3:
                want = r.choice([19, 20, 22, 30])
            if verdict(want) == '?':
                want = q[14]
            if verdict(want) == '?':
                want = (q[14] + q[15]) // 2
            d = want - self.f
            if verdict(want) == 'fuzzy':
                return d
            self.ref[self.pos - 31] = want
            self.pos = self.pos % 30 + 31
        else:
            d = want - self.f
            self.ref.append(want)
            self.pos += 1
        self.f = want
        return d

    def drift(self, m):
        if self.p.get('modes'):
            return self.drift_modes()
        # f performs a small walk in 0..8 with occasional kicks that a later correction takes back
        r = self.r
        f = getattr(self, 'f', 0)
        if r.random() < self.p['kick']:
            d = r.choice([8, 10, 16, 20, 25, 40, -8, -16, -20])
        else:
            d = r.choice([-3, -2, -1, 0, 0, 1, 2, 3])
        if f + d < 0:
            d = -f
        if f + d > 80:
            d = 80 - f
        # whether the correction is kept is not known here; assume the watchdog restores large jumps
        if abs(d) < 12 or self.ncorr < 30:
            self.f = f + d
        self.ncorr += 1
        return d

    # -------------------------------------------------------------- main
    def build(self):
        r, p = self.r, self.p
        if p.get('long'):
            return self.build_long()
        self.inited = False
        kind = 'ext' if p['extstart'] and r.random() < p['extstart'] else 'imu'
        if r.random() < p['uninit']:
            for _ in range(r.randrange(1, 3)):
                self.imu(kind=kind)
                if r.random() < 0.7:
                    self.meas(t=self.t)
        self.init()
        self.f = self.ops[-1]['f']
        self.start(kind)
        n = r.randrange(*p['n'])
        while len(self.ops) < n:
            self.event()
        for _ in range(3):
            if p['imu'] or p['ext']:
                self.imu(kind='imu' if p['imu'] else 'ext')
        if p['acc'] and r.random() < p['acc'] and len(self.times) > 4:
            s = sorted(set(self.times))
            i = r.randrange(max(0, len(s) - 14), len(s) - 1)
            j = r.randrange(i, min(len(s), i + 11))
            self.ops.append(dict(op='acc', t1=s[i], t2=s[j]))
        return self.ops

    def start(self, kind):
        r, p = self.r, self.p
        if r.random() < p['pregap']:
            big = r.choice([103, 104, 110, 300, 2000])
            if kind == 'ext':
                big = r.choice([5121, 5122, 6000, 5119, 5120])
            sgn = -1 if r.random() < 0.25 else 1
            self.t += sgn * big
            o = dict(op=kind, t=self.t, a=self.a, w=self.w, k=0)
            if kind == 'ext':
                o.update(flag=1, p=r.randrange(0, 65536), v=r.randrange(-200000, 200000), th=r.randrange(-100000, 100000))
            self.ops.append(o)
            if big not in (5119, 5120):
                self.times = [self.t]
            else:
                self.times.append(self.t)
        elif r.random() < 0.3 and kind == 'imu':
            self.imu(dt=r.choice([100, 101, 102]))
        for _ in range(r.randrange(3, 6)):
            self.imu(kind=kind)
            if r.random() < p['warmup_meas']:
                self.meas(t=r.choice(self.times))
            # a gap in the middle of the warm-up
            if kind == 'imu' and p['pregap'] and r.random() < p['pregap'] * 0.3 and self.n_imu < 3:
                self.t += r.choice([103, 150, 400])
                self.ops.append(dict(op='imu', t=self.t, a=self.a, w=self.w, k=0))
                self.times[-1] = self.t

    def event(self):
        r, p = self.r, self.p
        e = self.pick({k: p[k] for k in ('imu', 'ext', 'meas', 'near', 'prev', 'fix', 'reinit', 'spike', 'dup', 'smallback',
                                         'gapfwd', 'backjump', 'nan')})
        kind = 'ext' if (p['ext'] and (not p['imu'] or r.random() < 0.7)) else 'imu'
        if e in ('imu', 'ext'):
            for _ in range(r.choice([1, 1, 2, 3])):
                self.imu(kind=e)
        elif e == 'meas':
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                self.meas()
        elif e == 'near':
            t = self.place()
            if min(self.times) - 105 <= t and not any(0 < abs(t - u) < 4 for u in self.used + self.times if u != t):
                self.ops.append(dict(op='near', t=t))
        elif e == 'prev' and self.used:
            t = r.choice(self.used) if r.random() < 0.85 else r.choice(self.used) + r.choice([-1, 1, 500])
            self.ops.append(dict(op='prev', t=t, sid=r.randrange(0, 3)))
        elif e == 'fix':
            self.fixed = 1 - self.fixed
            self.ops.append(dict(op='fix', v=self.fixed))
        elif e == 'reinit':
            self.init()
            self.f = self.ops[-1]['f']
            self.start(kind)
        elif e == 'spike' and self.cleans >= 2 and self.n_imu >= 3:
            lim = 3201 if r.random() < 0.4 else r.randrange(3205, 9000)
            self.imu(k=1, a=lim * r.choice([-1, 1]), kind=kind)
            if r.random() < 0.6:
                self.ops[-1]['dir'] = r.randrange(1, 8)
            if r.random() < 0.3:
                self.imu(k=1, a=lim, kind=kind)
        elif e == 'dup':
            self.ops.append(dict(self.ops_last_imu(kind), a=max(-3200, min(3200, self.a + r.randrange(-5, 5) * 2))))
        elif e == 'smallback' and len(self.times) > 3:
            d = r.choice([-1, -2, -5, -8, -9, -10])
            if self.t + d not in self.times and self.t + d > min(self.times):
                self.imu(dt=d, kind=kind)
                for _ in range(r.choice([0, 0, 1, 1, 2])):      # while the newest sample is not the last one
                    self.meas()
                self.imu(dt=abs(d) + r.randrange(2, 9), kind=kind)
        elif e == 'gapfwd':
            self.imu(dt=r.choice([103, 104, 120, 206, 250, 330]), kind=kind)
        elif e == 'backjump' and kind == 'imu':
            if self.n_imu < 5:
                return
            d = r.choice([-11, -11, -12, -30, -200, -3000])
            self.ops.append(dict(op='imu', t=self.t + d, a=self.a, w=self.w, k=0))
            self.after_reset()
        elif e == 'nan' and kind == 'imu' and self.n_imu >= 2:
            self.ops.append(dict(op='imu', t=self.t + 8, a=0, w=self.w, k=2))
            self.t += 8
            self.after_reset()

    def ops_last_imu(self, kind):
        t = self.t
        o = dict(op=kind, t=t, a=self.a, w=self.w, k=0)
        if kind == 'ext':
            o.update(flag=1, p=7, v=9, th=11)
        return o

    def after_reset(self):
        r = self.r
        for _ in range(r.randrange(0, 5)):
            if r.random() < 0.6:
                self.t += r.randrange(5, 12)
                self.ops.append(dict(op='imu', t=self.t, a=self.a, w=self.w, k=0))
            else:
                self.mid += 1
                self.ops.append(dict(op='meas', meas=dict(id=self.mid, t=self.t - r.randrange(0, 30), sid=0, kind=0, gate=0, thr=0,
                                                          res=0, code=5, dv=3, dba=0, dbw=0, df=0, dth=0)))
        self.init()
        self.f = self.ops[-1]['f']
        self.start('imu')

    def build_long(self):
        """more than a minute of data, so that old history has to go"""
        r = self.r
        self.p.update(m_old=1, gate=0.1, dv=0.3, dth=0.0, dba=0.2, dbw=0)
        self.init()
        self.ops[-1].update(w=0, a=self.ops[-1]['a'] // 8, hv=0, v=0, hbw=0, bw=0, hba=0, ba=0)
        self.a, self.w = self.ops[-1]['a'], 0
        style = r.choice(['plain', 'grid', 'endure', 'endure'])
        total = r.choice([70, 80, 95]) * 1024 if style != 'endure' else 66 * 1024
        t0 = self.t
        dense = r.random() < 0.7
        self.const = False
        step = r.choice([256, 512, 640, 384])
        for k in range(4):
            self.imu(dt=r.randrange(60, 102) if style == 'plain' else 64)
            self.ops[-1].update(w=0)
            self.w = 0
        rd = list(range(9000, 9000 + len(self.times)))
        last_old = 0
        while self.t - t0 < total:
            self.a, self.k = r.randrange(-40, 41) if r.random() < 0.3 else self.a, 0
            self.const = True
            self.imu(dt=r.randrange(250, 700) if style == 'plain' else step, a=self.a)
            rd.append(self.ops[-1]['a'])
            self.a = self.ops[-1]['a']
            far = self.t - t0 > 40 * 1024
            for _ in range(3 if dense else 1):
                if r.random() < (0.6 if far else 0.3):
                    i = len(self.times) - 1 - int(r.random() ** 3 * 12)
                    off = r.randrange(4, 200) if r.random() < 0.2 and rd[i] == rd[i - 1] else 0
                    t = self.times[i] - off
                    if off and t <= self.times[i - 1] + 3:
                        continue
                    if i > 1 and not any(abs(t - u) < 3 for u in self.used[-40:] + self.times if u != t):
                        self.meas(t=t)
            # a very late measurement, just inside / outside the kept window (few: each replays everything)
            if self.t - t0 > 62 * 1024 and last_old < 4 and r.random() < 0.03:
                last_old += 1
                c = [u for u in self.times if abs(u - (self.t - 61440)) < 900] or [self.t]
                if style == 'grid' and r.random() < 0.5:
                    c = [u for u in c if u >= self.t - 61440][:2]      # exactly 60 s old
                t = r.choice(c)
                if not any(abs(t - u) < 3 for u in self.used):
                    self.meas(t=t)
        if style == 'endure':       # hundreds of updates while everything else is older than a minute
            for _ in range(150):
                self.imu(dt=128, a=self.a)
                self.a = self.ops[-1]['a']
                u = self.times[-r.choice([1, 1, 2, 4])]
                for off in (84, 40, 0):
                    if u - off not in self.used[-60:]:
                        self.meas(t=u - off)
                if r.random() < 0.01 and self.used:
                    self.t += 3000
        for _ in range(5 if dense else 2):
            self.imu(dt=90)
            self.meas(t=self.times[-2])
        self.ops.append(dict(op='prev', t=self.used[-1], sid=1))
        return self.ops


def text(bid, g):
    """behaviour in the line format of the harness"""
    out = ['B %d %d %d' % (bid, g.axis, g.fixed0)]
    for o in g.ops:
        k = o['op']
        if k in ('imu', 'ext'):
            a = str(o['a']) if o['k'] == 0 else ('%s%d' % ('sdefghij'[o.get('dir', 0)], o['a']) if o['k'] == 1 else 'nan')
            s = '%s %d %s %d' % (k, o['t'], a, o['w'])
            if k == 'ext':
                s += ' %d %d %d %d' % (o['flag'], o['p'], o['v'], o['th'])
        elif k == 'init':
            s = 'init %d %d %d %d' % (o['t'], o['sens'], o['a'], o['w'])
            for h, v in (('hx', 'x'), ('hp', 'px'), ('hv', 'v'), ('hba', 'ba'), ('hbw', 'bw'), ('hf', 'f')):
                s += ' %d %d' % (o[h], o[v])
        elif k == 'meas':
            m = o['meas']
            s = 'meas ' + ' '.join(str(m[x]) for x in ('id', 't', 'sid', 'kind', 'gate', 'thr', 'res', 'code', 'dv', 'dba', 'dbw', 'df', 'dth'))
        elif k == 'fix':
            s = 'fix %d' % o['v']
        elif k == 'near':
            s = 'near %d' % o['t']
        elif k == 'prev':
            s = 'prev %d %d' % (o['t'], o['sid'])
        elif k == 'acc':
            s = 'acc %d %d' % (o['t1'], o['t2'])
        out.append(s)
    out.append('E')
    return '\n'.join(out) + '\n'


def make(seed, prof, bid):
    rng = random.Random('%s/%s/%s' % (seed, prof, bid))
    g = Gen(rng, prof)
    g.fixed0 = g.fixed
    g.build()
    return g
