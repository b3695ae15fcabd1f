"""The applications of msf_updates: sensor handlers, managers and publications (C12, C18-C26, C30)."""
import math, random
from concurrent.futures import ThreadPoolExecutor
from .base import REPO
from .simple import Beh, explore

Q1 = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, -1), (-1, 0, 0, 0)]
Q2 = [(1, 1, 0, 0), (1, 0, -1, 0), (1, 0, 0, 1), (0, 1, 1, 0), (0, 1, 0, -1), (-1, 0, 1, 0)]
Q4 = [(1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, -1), (-1, 1, 1, 1), (1, -1, -1, 1)]
Q9 = [(2, 2, 1, 0), (2, 1, 0, -2), (1, 2, 2, 0), (2, 0, -1, 2), (0, 2, 1, 2), (-2, 1, 2, 0), (1, 0, 2, -2)]
Q81 = [(6, 6, 3, 0), (4, 8, 1, 0), (8, -4, 0, 1)]


def rotT(q, v):
    """R(q)^T v"""
    a, b, c, d = q
    m = [[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]
    n = a*a + b*b + c*c + d*d
    return [sum(m[j][i] * v[j] for j in range(3)) // n for i in range(3)]


def flags(app, rec=True):
    f = ['-DAPP=%d' % app, '-fno-access-control', '-I%s/msf_updates/src' % REPO, REPO + '/msf_updates/src/msf_distort/PoseDistorter.cc']
    if app in (2, 5):
        f.append(REPO + '/msf_core/src/lib/gps_conversion.cc')
    return tuple((['-DREC'] if rec else []) + f)


def sym(r, n, mult, off=1):
    """a symmetric n x n integer matrix whose entries are multiples of mult"""
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            m[i][j] = m[j][i] = mult * (r.randrange(1, 5) if i == j else r.randrange(-3, 4) * off)
    return m


class Gen:
    def __init__(self, app, r, profile):
        self.app, self.r, self.profile = app, r, profile
        self.haspose, self.haspos = app in (1, 4, 5), app in (2, 5)
        self.pre = dict(app=app, par={}, playback=0, second=0, frame='world', target='state', child='imu', listeners={},
                        qic=[1, 0, 0, 0], pic=[0, 0, 0], pip=[0, 0, 0])
        self.head = []
        self.ops = Beh()
        self.big = r.random() < 0.5       # poses with rotations of squared norm nine
        self.t = 0
        self.seq = 0
        self.hist = {}
        self.now = 0
        self.last = {0: None, 1: None}
        self.z = [0, 0, 0]
        self.cfg = None
        self.setup()
        self.ops.head, self.ops.pre = self.head, self.pre

    def rep(self, key, value, p=0.15):
        """now and then the previous value of the same kind again"""
        if key in self.hist and self.r.random() < p:
            return self.hist[key]
        self.hist[key] = value
        return value

    def nextseq(self, steps):
        r = self.r
        x = r.random()
        if x < 0.06:
            self.seq = (self.seq // 100 + 1) * 100
        elif x < 0.09:
            self.seq = r.choice([0, self.seq, max(0, self.seq - 3), self.seq + 1000000])
        else:
            self.seq += r.choice(steps)

    def b(self, k, v):
        self.head.append('b:%s=%d' % (k, v))

    def d(self, k, v):
        self.head.append('d:%s=%s' % (k, repr(v)))

    def mah(self, ns):
        """outlier rejection parameters"""
        r = self.r
        m, t = 0, 102400
        if r.random() < 0.5:
            m = r.randrange(2)
            self.b(ns + '/enable_mah_outlier_rejection', m)
        if r.random() < 0.5:
            k = r.randrange(1, 400)
            t = 128 * k
            self.d(ns + '/mah_threshold', 125 * k)
        return m, t

    def pose_par(self, ns):
        r = self.r
        p = dict(fixed=0, world=1, abs=1, mindt2=100, mah=0, thr=102400)
        if r.random() < 0.7:
            p['fixed'] = r.randrange(2)
            self.b(ns + '/pose_use_fixed_covariance', p['fixed'])
        if r.random() < 0.7:
            p['world'] = r.randrange(2)
            self.b(ns + '/pose_measurement_world_sensor', p['world'])
        if r.random() < 0.5:
            p['abs'] = r.randrange(2)
            self.b(ns + '/pose_absolute_measurements', p['abs'])
        if r.random() < 0.6:
            m = r.choice([0, 1, 10, 20, 50, 100, 200])
            p['mindt2'] = 2 * m + 1
            self.d(ns + '/pose_measurement_minimum_dt', m + 0.5)
        p['mah'], p['thr'] = self.mah(ns)
        return p

    def pos_par(self, ns):
        r = self.r
        p = dict(fixed=0, abs=0, mah=0, thr=102400)
        if r.random() < 0.8:
            p['fixed'] = int(r.random() < 0.7)
            self.b(ns + '/position_use_fixed_covariance', p['fixed'])
        if r.random() < 0.5:
            p['abs'] = r.randrange(2)
            self.b(ns + '/position_absolute_measurements', p['abs'])
        p['mah'], p['thr'] = self.mah(ns)
        return p

    def setup(self):
        r, pre = self.r, self.pre
        app = self.app
        if r.random() < 0.4 and self.profile in ('handlers', 'mixed'):
            pre['second'] = 1
            if app in (1, 2, 4, 5):
                self.head.append('second=1')
            else:
                pre['second'] = 0
        if self.haspose:
            pre['par']['pose'] = self.pose_par('~pose_sensor')
            if pre['second']:
                pre['par']['pose2'] = self.pose_par('~second_pose')
        if self.haspos:
            pre['par']['pos'] = self.pos_par('~position_sensor')
            if pre['second']:
                pre['par']['pos2'] = pre['par']['pos']
        if app == 4:
            m, t = self.mah('~pressure_sensor')
            pre['par']['press'] = dict(mah=m, thr=t)
        if app == 3:
            p = dict(fixed=1, abs=0)
            ns = '~spherical_position_sensor'
            if r.random() < 0.3:
                p['fixed'] = r.randrange(2)
                self.b(ns + '/use_fixed_covariance', p['fixed'])
            if r.random() < 0.5:
                p['abs'] = r.randrange(2)
                self.b(ns + '/absolute_measurements', p['abs'])
            p['mah'], p['thr'] = self.mah(ns)
            pre['par']['sph'] = p
        if self.haspose and r.random() < 0.8:
            pre['qic'] = list(r.choice(Q1 + Q2 + Q4 if self.big else Q1 + Q2 + Q4 + Q9))
            for k, v in zip('wxyz', pre['qic']):
                self.d('~pose_sensor/init/q_ic/' + k, 1000 * v)
        if self.haspose and r.random() < 0.8:
            pre['pic'] = [9 * r.randrange(-20, 20) for _ in range(3)]
            for k, v in zip('xyz', pre['pic']):
                self.d('~pose_sensor/init/p_ic/' + k, 15.625 * v)
        if app in (2, 3, 5) and r.random() < 0.8:
            pre['pip'] = [r.randrange(-200, 200) for _ in range(3)]
            for k, v in zip('xyz', pre['pip']):
                self.d('~position_sensor/init/p_ip/' + k, 15.625 * v)
        if r.random() < 0.25:
            pre['playback'] = r.randrange(2)
            self.b('~core/data_playback', pre['playback'])
        if r.random() < 0.4:
            for k, f, v in (('frame', 'msf_output_frame', 'map%d' % r.randrange(9)), ('child', 'odometry_child_frame', 'body%d' % r.randrange(9)),
                            ('target', 'tf_target_frame', 'base%d' % r.randrange(9))):
                if r.random() < 0.7:
                    pre[k] = v
                    self.head.append('s:~core/%s=%s' % (f, v))
        for t in TOPICS:
            if r.random() < 0.3:
                pre['listeners'][t] = 1
                self.head.append('l:%s=1' % t)

    # -------------------------------------------------------------- configuration
    def cfg_values(self):
        r = self.r
        n = lambda: r.randrange(0, 12)
        return dict(init=0, seth=0, height=1024, scale=r.choice([512, 1024, 2048, 4096]), fx=[r.randrange(2) for _ in range(5)], fxp=r.randrange(2),
                    nz=dict(L=n(), qwv=n(), pwv=n(), qic=n(), pic=n(), bp=n(), pip=n()),
                    pose=dict(p=r.randrange(1, 30), q=r.randrange(1, 30), delay=r.choice([0, 5, 20, -10, 100])), posn=dict(p=r.randrange(1, 30), q=0, delay=r.choice([0, 7, 20, -15])),
                    press=dict(p=r.randrange(1, 30)), ang=dict(p=r.randrange(1, 30), delay=r.choice([0, 3, 20])), dist=dict(p=r.randrange(1, 30), delay=r.choice([0, 9, 20])),
                    yaw=r.choice([0, 90, -90, 180, -180]))

    def op_cfg(self, trig=None):
        r = self.r
        if self.cfg is None:
            c = self.cfg_values()
        else:
            c = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.cfg.items()}
            f = self.cfg_values()
            for k in f:
                if r.random() < 0.35:
                    c[k] = f[k]
        c['init'], c['seth'] = 0, 0
        if trig is None:
            trig = r.choice(['none', 'none', 'init', 'seth', 'both']) if self.cfg else r.choice(['none', 'none', 'init'])
        if trig in ('init', 'both'):
            c['init'] = 1
        if trig in ('seth', 'both') and self.haspose:
            c['seth'] = 1
            c['height'] = self.height()
            if c['height'] is None:
                c['seth'], c['height'] = 0, 1024
        w = ['core_init_filter', c['init']]
        if self.haspose:
            w += ['core_set_height', c['seth'], 'core_height', c['height'], 'pose_initial_scale', c['scale']]
            for k, v in zip(['scale', 'p_ic', 'q_ic', 'p_wv', 'q_wv'], c['fx']):
                w += ['pose_fixed_' + k, v]
            for k, m in (('scale', 'L'), ('p_wv', 'pwv'), ('q_wv', 'qwv'), ('p_ic', 'pic'), ('q_ic', 'qic')):
                w += ['pose_noise_' + k, c['nz'][m]]
            w += ['pose_noise_meas_p', c['pose']['p'], 'pose_noise_meas_q', c['pose']['q'], 'pose_delay', c['pose']['delay']]
        if self.app == 4:
            w += ['press_noise_meas_p', c['press']['p'], 'press_noise_bias_p', c['nz']['bp']]
        if self.haspos:
            w += ['position_noise_meas', c['posn']['p'], 'position_delay', c['posn']['delay'], 'position_yaw_init', c['yaw'], 'position_noise_p_ip', c['nz']['pip'], 'position_fixed_p_ip', c['fxp']]
        if self.app == 3:
            w += ['angle_noise_meas', c['ang']['p'], 'angle_delay', c['ang']['delay'], 'distance_noise_meas', c['dist']['p'], 'distance_delay', c['dist']['delay'],
                  'yaw_init', c['yaw'], 'noise_p_ip', c['nz']['pip'], 'fixed_p_ip', c['fxp']]
        self.ops.add('cfg ' + ' '.join(map(str, w)), op='cfg', cfg=c)
        self.cfg = dict(c, init=0, seth=0)
        if c['seth'] and self.z == [0, 0, 0]:     # refused: the user takes the tick back
            d = dict(c, init=0, seth=0)
            self.ops.add('cfg core_set_height 0', op='cfg', cfg=d)

    def height(self):
        r, z = self.r, self.z
        if z == [0, 0, 0]:
            return 1024
        if z[2] == 0:
            return None
        if self.app != 5 and abs(z[2]) == 180 and all(x % 45 == 0 for x in z) and r.random() < 0.5:
            return 64 if z[2] > 0 else -64
        return z[2] * r.choice([32, 16, 8] if all(x % 2 == 0 for x in z) else [32, 16])

    # -------------------------------------------------------------- messages
    def step(self):
        r = self.r
        if r.random() < 0.04:
            return self.t
        self.t += r.choice([5, 10, 20, 30, 50, 60, 70, 100, 100, 150, 200, 300, 50, 51])
        return self.t

    def op_pose(self, hd=None):
        r = self.r
        if hd is None:
            hd = int(self.pre['second'] and r.random() < 0.4)
        par = self.pre['par']['pose2' if hd else 'pose']
        t = self.step()
        if r.random() < 0.1:
            t = max(1, t - r.choice([20, 100, 400]))
        elif self.last[hd] is not None and par['mindt2'] % 2 and r.random() < 0.4:     # just at, or just short of, the minimum distance
            t = max(1, self.last[hd] + par['mindt2'] // 2 + r.choice([-1, 0, 0, 0, 1]))
        if self.last[hd] is not None and par['mindt2'] % 2 == 0 and 2 * (t - self.last[hd]) == par['mindt2'] - 2:
            t += 1
        self.t = max(self.t, t)
        kind = r.choice(['cov', 'cov', 'odo', 'ps', 'tf'] if self.app != 5 else ['cov', 'cov', 'odo', 'ps'])
        q = r.choice(Q9 + Q2 if self.big else Q1 + Q2 + Q4)
        n = sum(x * x for x in q)
        if r.random() < 0.3:
            z = [180 * r.randrange(-9, 10) for _ in range(2)] + [180]
        elif r.random() < 0.1:
            z = [0, 0, 0]
        else:
            z = [180 * r.randrange(-9, 10) for _ in range(3)]
        cov = [[0] * 6 for _ in range(6)]
        A, B = sym(r, 3, n * n), sym(r, 3, n * n)
        for i in range(3):
            for j in range(3):
                cov[i][j], cov[i+3][j+3] = A[i][j], B[i][j]
        if par['world'] == 1 or r.random() < 0.5:      # cross terms, not used
            for i in range(3):
                for j in range(3):
                    cov[i][j+3] = cov[j+3][i] = r.randrange(-3, 4)
        flat = sum(cov, [])
        z, q, flat = self.rep(('pose', hd, par['world']), (z, q, flat))
        self.nextseq([1, 1, 1, 2, 7])
        self.ops.add('pose %d %s %d %d %s %s %s' % (hd, kind, t, self.seq, ' '.join(map(str, z)), ' '.join(map(str, q)), ' '.join(map(str, flat))),
                     op='pose', hd=hd, kind=kind, t=t, seq=self.seq, z=z, q=list(q), cov=flat)
        if (par['fixed'] or kind in ('cov', 'odo')) and (self.last[hd] is None or 2 * (t - self.last[hd]) > par['mindt2'] - 2):
            self.last[hd] = t
            if hd == 0:
                self.z = list(z) if par['world'] else [-x for x in rotT(q, z)]

    def op_pos(self):
        r = self.r
        hd = int(self.pre['second'] and r.random() < 0.4)
        t = self.step() - (r.choice([20, 100]) if r.random() < 0.1 else 0)
        self.nextseq([1, 1, 2, 3, 4])
        kind = r.choice(['pt', 'pt', 'tf']) if self.app != 5 else 'pt'
        z = self.rep(('pos', hd), [r.randrange(-4000, 4000) for _ in range(3)])
        self.ops.add('pos %d %s %d %d %s' % (hd, kind, t, self.seq, ' '.join(map(str, z))), op='pos', hd=hd, kind=kind, t=t, seq=self.seq, z=z)

    def op_nav(self):
        r = self.r
        hd = int(self.pre['second'] and r.random() < 0.4)
        if not hasattr(self, 'site'):
            lat = r.choice([0, 47378900, -33856000, 60000000, -5000, 15000000])
            lon = r.choice([0, 8540000, 151215000, -122400000, 179000000])
            self.site = (lat, lon, 111200, int(111320 * math.cos(lat * 1e-6 * math.pi / 180)))
        lat, lon, mn, me = self.site
        t = self.step()
        self.nextseq([1])
        dl = [r.randrange(-9000, 9000), r.randrange(-9000, 9000)] if r.random() < 0.7 else [0, 0]
        alt = r.choice([0, r.randrange(0, 60000), r.randrange(0, 60000), r.randrange(-300, 300)])
        ct = r.choice([0, 1, 2, 3])
        c = sum(sym(r, 3, 1), [])
        dl, alt, ct, c = self.rep('nav', (dl, alt, ct, c))
        if r.random() < 0.15:
            c = [0] + c[1:]
        self.ops.add('nav %d %d %d %d %d %d %d %d %d %s' % (hd, t, self.seq, lat, lon, dl[0], dl[1], alt, ct, ' '.join(map(str, c))),
                     op='nav', hd=hd, t=t, seq=self.seq, dlat=dl[0], dlon=dl[1], alt=alt, ctype=ct, cov=c, mn=mn, me=me)
        self.nav = 1

    def op_press(self):
        r = self.r
        t = self.step()
        self.seq = r.choice([self.seq + 1, (self.seq // 10 + 1) * 10, (self.seq // 10 + 1) * 10])
        z = self.rep('press', [r.randrange(-4000, 4000) for _ in range(3)])
        self.ops.add('press %d %d %s' % (t, self.seq, ' '.join(map(str, z))), op='press', t=t, seq=self.seq, z=z)

    def op_sph(self, quarter=False):
        r = self.r
        t = self.step()
        self.nextseq([1])
        op = r.choice(['ang', 'dist'])
        z = self.rep(op, [r.randrange(-190, 190), r.randrange(-190, 190), r.randrange(64, 4000)])
        if op == 'ang' and quarter:
            k = [r.randrange(0, 3), r.randrange(-1, 3)]
            self.ops.add('angq %d %d %d %d' % (t, self.seq, k[0], k[1]), op='angq', t=t, seq=self.seq, z=[0, 0, 0], quarter=k)
        else:
            self.ops.add('%s %d %d %s' % (op, t, self.seq, ' '.join(map(str, z))), op=op, t=t, seq=self.seq, z=z, quarter=[0, 0])

    def op_imu(self):
        r = self.r
        t = self.step()
        self.nextseq([1, 1, 3])
        a, w = self.rep('imu', [[r.randrange(-2000, 2000) for _ in range(3)] for _ in range(2)])
        self.ops.add('imu %d %d %s' % (t, self.seq, ' '.join(map(str, a + w))), op='imu', t=t, seq=self.seq, a=a, w=w)

    def op_ext(self, clean=False):
        r = self.r
        t = self.step()
        self.seq += 1
        v = self.rep('ext', [[r.randrange(-2000, 2000) for _ in range(3)] for _ in range(6)])
        q = list(r.choice(Q1 + Q4 + (Q9 if r.random() < 0.6 else Q2)))
        if clean and sum(x * x for x in q) == 2:
            q = [1, 0, 0, 0]
        if sum(x * x for x in q) == 2:
            q = [1, 1, 1, 1]
        qs = r.choice([1, 1, 2])
        mask = 0 if clean or r.random() < 0.6 else 1 << r.randrange(16)
        flag = r.choice([0, 1, 1, 1, 2, 3])
        a, w, p, vv, bw, ba = v
        self.ops.add('ext %d %d %d %s %s %d %s %d' % (t, self.seq, flag, ' '.join(map(str, a + w + p + vv)), ' '.join(map(str, q)), qs, ' '.join(map(str, bw + ba)), mask),
                     op='ext', t=t, seq=self.seq, flag=flag, a=a, w=w, p=p, v=vv, q=q, qs=qs, bw=bw, ba=ba, mask=mask)

    def op_now(self):
        self.now += self.r.randrange(1, 5000)
        self.ops.add('now %d' % self.now, op='now', t=self.now)

    def op_scale(self):
        v = self.r.choice([512, 1024, 2048, 4096])
        self.ops.add('scale %d' % v, op='scale', v=v)

    def op_height(self):
        r = self.r
        h = self.height()
        if h is None or r.random() < 0.25:
            h = r.choice([0, 5, -5, 10, -10])
        self.ops.add('height %d' % h, op='height', v=h)

    def op_noises(self):
        r = self.r
        if not self.pre['second']:
            return
        p, q, d = r.randrange(1, 30), r.randrange(1, 30), r.choice([0, 11, 40])
        if self.haspose:
            self.ops.add('noises %d %d %d' % (p, q, d), op='noises', p=p, q=q, delay=d)
        if self.haspos:
            self.ops.add('noisep %d %d' % (p, d), op='noisep', p=p, delay=d)

    def op_qaux(self):
        dt = self.r.randrange(1, 40)
        self.ops.add('qaux %d' % dt, op='qaux', dt=dt)

    def op_core(self):
        v = [self.r.randrange(2)] + [self.r.randrange(1, 50) for _ in range(4)]
        self.ops.add('core ' + ' '.join(map(str, v)), op='core', want=v)

    def op_sanity(self):
        v = self.r.choice([self.r.randrange(-3000, 3000), self.r.randrange(-5, 5)])
        b = self.r.randrange(-3000, 3000)
        self.ops.add('sanity %d %d' % (v, b), op='sanity', v=v)

    def op_reset(self):
        self.ops.add('reset', op='reset')

    def op_listen(self):
        t, n = self.r.choice(TOPICS), self.r.choice([0, 0, 1, 2])
        self.ops.add('listen %s %d' % (t, n), op='listen', topic=t, n=n)

    def op_pub(self):
        r = self.r
        op = r.choice(['pinit', 'pprop', 'pprop', 'pupd', 'pupd', 'pupd'])
        Q = lambda: list(r.choice(Q1 + Q4 + Q9))
        q = list(r.choice(Q1 + Q4 + Q4 + Q9 + Q81))
        n = sum(x * x for x in q)
        v3 = lambda m, k: [k * r.randrange(-m, m) for _ in range(3)]
        st = dict(t=r.randrange(1, 100000), p=v3(3000, 1), v=v3(12 if n <= 4 else 5, n * (4 if n <= 4 else 1)), q=q, bw=v3(60, 1), ba=v3(60, 1), wm=v3(200, 1), am=v3(200, 1),
                  q1=Q(), q2=Q(), p1=v3(500, 1), p2=v3(500, 1), l=r.randrange(10, 300), b=r.randrange(-300, 300), seed=r.randrange(50), ng=r.randrange(1, 30))
        st['bad'] = r.choice([0, 0, 0, 0, 0, 1, 2, 3, 4])
        w = [st['t']] + st['p'] + st['v'] + st['q'] + st['bw'] + st['ba'] + st['wm'] + st['am'] + st['q1'] + st['q2'] + st['p1'] + st['p2'] + [st['l'], st['b'], st['seed'], st['ng'], st['bad']]
        self.ops.add('%s %s' % (op, ' '.join(map(str, w))), op=op, st=st)


TOPICS = ['msf_core/' + x for x in ('state_out', 'correction', 'pose', 'odometry', 'pose_after_update', 'ext_state', 'cov_core', 'cov_aux', 'cov_core_aux')]


def behaviour(app, seed, k, profile):
    r = random.Random('%s-%d-%d-%d' % (profile, app, seed, k))
    g = Gen(app, r, profile)
    g.op_now()
    g.op_cfg('none' if r.random() < 0.7 else 'init')
    sens = []
    if g.haspose:
        sens.append((g.op_pose, 6))
    if g.haspos:
        sens += [(g.op_pos, 4)]
        if profile not in ('init', 'mixed'):
            sens += [(g.op_nav, 4)]
    if app == 4:
        sens.append((g.op_press, 6))
    if app == 3:
        sens.append((lambda: g.op_sph(profile in ('init', 'mixed')), 6))
    ops = []
    n = r.randrange(10, 26) if k % 20 else 120     # a few long ones
    if profile == 'handlers':
        ops = sens + [(lambda: g.op_cfg('none'), 1.5), (g.op_noises, 0.7), (g.op_imu, 0.5)]
    elif profile == 'init':
        ops = sens + [(g.op_cfg, 5), (g.op_now, 1), (g.op_reset, 0.5)]
        if app == 1:
            ops += [(g.op_scale, 2), (g.op_height, 4)]
    elif profile == 'imu':
        ops = [(g.op_imu, 5), (g.op_ext, 5)] + [(s, w * 0.1) for s, w in sens]
    elif profile == 'output':
        ops = [(g.op_pub, 8), (lambda: g.op_ext(r.random() < 0.8), 3), (g.op_listen, 4), (g.op_now, 1)]
        if app == 1:
            ops.append((g.op_scale, 0.3))
    elif profile == 'noise':
        ops = [(g.op_qaux, 4), (lambda: g.op_cfg('none'), 3), (g.op_core, 2), (g.op_sanity, 4)] + [(s, w * 0.1) for s, w in sens]
    elif profile == 'mixed':
        ops = sens + [(g.op_cfg, 2), (g.op_imu, 1), (g.op_ext, 1), (g.op_pub, 1), (g.op_qaux, 1), (g.op_noises, 0.5), (g.op_listen, 0.5), (g.op_now, 0.5)]
    fs, ws = zip(*ops)
    for _ in range(n):
        r.choices(fs, ws)[0]()
    return g.ops


PLAN = {  # property: (profile, applications)
    'C12': ('handlers', (1, 2, 3, 4, 5)),
    'C18': ('handlers', (1, 4, 5)),
    'C19': ('handlers', (2, 5)),
    'C20': ('handlers', (4,)),
    'C21': ('handlers', (3,)),
    'C22': ('init', (1, 2, 3, 4, 5)),
    'C23': ('noise', (1, 4, 5)),
    'C24': ('output', (1, 2, 4, 5)),
    'C25': ('imu', (1, 2, 3, 4, 5)),
    'C26': ('output', (1, 2, 4, 5)),
    'C30': ('noise', (1, 2, 3, 4, 5)),
}
OPT = '-O0 -D_GLIBCXX_DEBUG'


def run(c):
    profile, apps = PLAN[c.prop]
    per = (1200 if c.thorough else 160) if len(apps) <= 2 else (600 if c.thorough else 80)
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda a: c.build('app', flags(a), opt=None if c.sanitize else OPT), apps))
    rel = lambda m: any(x.startswith(c.prop + ':') for x in m['labels'])
    for a in apps:
        behs = {k + 1: behaviour(a, c.seed, k, profile if k % 5 else ('mixed' if profile != 'output' else 'output')) for k in range(per)}
        explore(c, 'app', 'AppTrace', behs, 'app%d' % a, relevant=rel, flags=flags(a))


# ------------------------------------------------------------------ the applications with the real filter core
def real_behaviour(app, seed, k):
    """configuration, initialisation, then IMU samples and in-order messages whose updates are observed"""
    r = random.Random('real-%d-%d-%d' % (app, seed, k))
    haspose, haspos = app in (1, 4, 5), app in (2, 5)
    head, o = [], Beh()
    for ns, w in (('~pose_sensor', 'pose_use_fixed_covariance'), ('~position_sensor', 'position_use_fixed_covariance')):
        head.append('b:%s/%s=1' % (ns, w))
    head += ['b:~position_sensor/position_absolute_measurements=1', 'b:~spherical_position_sensor/absolute_measurements=1']
    if r.random() < 0.2:
        head.append('b:~pose_sensor/pose_measurement_world_sensor=0')
    o.head, o.pre = head, dict(app=app)
    o.add('quiet', op='quiet')
    st = dict(fx=[0] * 5, fxp=0)

    def cfg(init=0, first=False):
        if first or r.random() < 0.8:
            p = r.choice([0, 0.3, 0.5, 0.8, 1])
            st['fx'] = [int(r.random() < p) for _ in range(5)]
            st['fxp'] = int(r.random() < 0.5)
        n = lambda: r.randrange(0, 12)
        w = []
        if haspose:
            for a, b in zip(['scale', 'p_ic', 'q_ic', 'p_wv', 'q_wv'], st['fx']):
                w += ['pose_fixed_' + a, b]
            w += sum([['pose_noise_' + x, n()] for x in ('scale', 'p_wv', 'q_wv', 'p_ic', 'q_ic')], [])
            w += ['pose_noise_meas_p', r.randrange(1, 8), 'pose_noise_meas_q', r.randrange(1, 8), 'pose_delay', 0]
            if first:
                w += ['pose_initial_scale', r.choice([205, 512, 1024, 2048])]
        if app == 4:
            w += ['press_noise_meas_p', r.randrange(1, 8), 'press_noise_bias_p', n()]
        if haspos:
            w += ['position_noise_meas', r.randrange(1, 8), 'position_delay', 0, 'position_noise_p_ip', n(), 'position_fixed_p_ip', st['fxp']]
        if app == 3:
            w += ['angle_noise_meas', r.randrange(1, 8), 'angle_delay', 0, 'distance_noise_meas', r.randrange(1, 8), 'distance_delay', 0,
                  'noise_p_ip', n(), 'fixed_p_ip', st['fxp']]
        o.add('cfg ' + ' '.join(map(str, w + (['core_init_filter', 1] if init else []))), op='cfg', fx=list(st['fx']), fxp=st['fxp'])
        if init:
            o.add('cfg core_init_filter 0', op='cfg', fx=list(st['fx']), fxp=st['fxp'])

    def core():
        v = [r.randrange(2)] + [r.randrange(1, 50) for _ in range(4)]
        o.add('core ' + ' '.join(map(str, v)), op='core', want=v)

    t, seq = [r.randrange(100, 5000)], [0]
    vis = [64 * r.randrange(-5, 6) for _ in range(2)] + [64 * r.randrange(1, 6)]
    sgn, odd = [1], [0]     # odd: the readings no longer agree with the first ones, the filter may diverge

    def imu():
        t[0] += r.choice([8, 10, 12, 20])
        seq[0] += 1
        a, w = [r.randrange(-20, 20) for _ in range(3)], [r.randrange(-10, 10) for _ in range(3)]
        o.add('imu %d %d %s' % (t[0], seq[0], ' '.join(map(str, a + w))), op='imu')

    def sensor():
        seq[0] += 1
        kind = r.choice((['pose'] * 2 if haspose else []) + (['pos'] * 2 if haspos else []) + (['press'] if app == 4 else []) + (['ang', 'dist'] if app == 3 else []))
        z = [sgn[0] * x + r.randrange(-20, 21) for x in vis]
        if kind == 'pose':
            q = [1000, r.randrange(-60, 60), r.randrange(-60, 60), r.randrange(-60, 60)]
            o.add('pose 0 %s %d %d %s %s' % (r.choice(['ps', 'cov']), t[0], seq[0], ' '.join(map(str, z)), ' '.join(map(str, q))), op='pose', odd=odd[0])
        elif kind == 'pos':
            o.add('pos 0 pt %d %d %s' % (t[0], seq[0], ' '.join(map(str, z))), op='pos', odd=odd[0])
        elif kind == 'press':
            seq[0] = (seq[0] // 10 + 1) * 10
            o.add('press %d %d %d %d %d' % (t[0], seq[0], z[0], z[1], z[2]), op='press', odd=odd[0])
        else:
            o.add('%s %d %d %d %d %d' % (kind, t[0], seq[0], 70 + z[0] // 40, 70 + z[1] // 40, 320 + z[2] // 4), op=kind, odd=odd[0])

    cfg(first=True)
    if r.random() < 0.6:
        core()
    for _ in range(r.randrange(1, 4)):
        t[0] += 120
        sensor()
    t[0] += 10
    o.add('now %d' % t[0], op='now')
    cfg(init=1)
    for _ in range(5):
        imu()
    for _ in range(r.randrange(4, 14)):
        for _ in range(r.randrange(5, 12)):
            imu()
        x = r.random()
        if x < 0.3:
            cfg()
        elif x < 0.4:
            core()
        if haspose and r.random() < 0.2:
            sgn[0], odd[0] = -sgn[0], 1      # the visual frame seems to be mirrored: drives the scale below zero
        sensor()
    return o


def real(c):
    apps = (1, 2, 3, 4, 5) if c.prop == 'C12' else (1, 4, 5)
    per = 500 if c.thorough else 70
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda a: c.build('app', flags(a, False), opt=None if c.sanitize else OPT), apps))
    rel = lambda m: any(x.startswith(c.prop + ':') for x in m['labels'])
    for a in apps:
        behs = {k + 1: real_behaviour(a, c.seed, k) for k in range(per)}
        explore(c, 'app', 'AppReal', behs, 'real%d' % a, relevant=rel, flags=flags(a, False))
