"""Correction arithmetic (absolute, relative) and covariance prediction of the real code against Update.tla."""
import random
from fractions import Fraction
from .base import V
from .simple import Beh, explore, judge, describe

N = 16
LIM = 10 ** 9


def mul(a, b):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c) if x and y) for c in bt] for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def add(a, b, k=1):
    return [[x + k * y for x, y in zip(r, s)] for r, s in zip(a, b)]


def big(*ms):
    return max(abs(x) for m in ms for r in m for x in r)


def det_adj(S):
    """determinant and adjugate of an integer matrix, by fraction-free elimination on S | I"""
    n = len(S)
    a = [[Fraction(x) for x in S[i]] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    d = Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i] != 0), None)
        if p is None:
            return 0, None
        if p != i:
            a[i], a[p] = a[p], a[i]
            d = -d
        d *= a[i][i]
        f = a[i][i]
        a[i] = [x / f for x in a[i]]
        for k in range(n):
            if k != i and a[k][i]:
                f = a[k][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    inv = [r[n:] for r in a]
    # smallest common denominator is enough for a witness
    den = 1
    for r in inv:
        for x in r:
            den = den * x.denominator // __import__('math').gcd(den, x.denominator)
    return den, [[int(x * den) for x in r] for r in inv]


def spd(r, n, terms, vals=(1, 1, 1, 2, -1)):
    """sparse symmetric positive semidefinite integer matrix"""
    P = [[0] * n for _ in range(n)]
    for i in range(n):
        P[i][i] = r.choice([1, 1, 2, 3, 4, 9])
    for _ in range(terms):
        idx = r.sample(range(n), r.choice([2, 2, 3]))
        v = [r.choice(vals) for _ in idx]
        for a, x in zip(idx, v):
            for b, y in zip(idx, v):
                P[a][b] += x * y
    return P


def trip(m):
    return [[i + 1, j + 1, x] for i, row in enumerate(m) for j, x in enumerate(row) if x]


def sp(t):
    return ' '.join([str(len(t))] + ['%d %d %d' % tuple(e) for e in t])


def flat(m):
    return ' '.join(str(x) for row in m for x in row)


def rand_h(r, m):
    H = [[0] * N for _ in range(m)]
    for a in range(m):
        for j in r.sample(range(N), r.choice([1, 1, 2, 3])):
            H[a][j] = r.choice([1, 1, 1, -1, 2, -2, 3])
    return H


def upd(r, style):
    """one request with a chain of updates; returns (line, fields) or None"""
    nU = r.choice([1, 1, 1, 2, 3])
    P0 = spd(r, N, r.randrange(0, 8))
    P = P0
    fixed = r.randrange(2)
    back = r.randrange(0, 3)
    line, us = [], []
    for k in range(nU):
        last = k == nU - 1
        m = r.choice([1, 1, 2, 2, 3, 3, 4, 6]) if last else r.choice([1, 2])
        for _ in range(60):
            H = rand_h(r, m)
            R = [[0] * m for _ in range(m)]
            for i in range(m):
                R[i][i] = r.choice([1, 1, 2, 3, 7, 16])
            if m > 1 and r.random() < 0.4:
                i, j = r.sample(range(m), 2)
                x = r.choice([1, -1])
                R[i][i] += 1
                R[j][j] += 1
                R[i][j] += x
                R[j][i] += x
            G = mul(P, tr(H))
            S0 = mul(H, G)
            if not last or r.random() < 0.3:
                # make the innovation covariance a power of two times the identity, so that the chain stays integer
                d = 1 << max(0, (max(S0[i][i] for i in range(m))).bit_length())
                R = [[(d if i == j else 0) - S0[i][j] for j in range(m)] for i in range(m)]
                if any(R[i][i] <= 0 for i in range(m)):
                    continue
            S = add(S0, R)
            D, V = det_adj(S)
            if not D or D < 0:
                continue
            rr = [[r.choice([0, 1, -1, 2, 3, -4, 8, r.randrange(-30, 31)])] for _ in range(m)]
            W = mul(G, V)
            c = mul(W, rr)
            post = add([[D * x for x in row] for row in P], mul(W, tr(G)), -1)
            dist = mul(tr(rr), mul(V, rr))[0][0]
            gate = int(r.random() < (0.6 if style == 'gate' else 0.3))
            thr = r.choice([0, 1, 2, 3, 5, 10])
            if gate and r.random() < 0.5:   # close to the boundary
                thr = max(0, int((dist / D) ** 0.5) + r.choice([0, 0, 1]))
            eq = dist == thr * thr * D
            if gate and eq and not (m == 1 and S[0][0] & (S[0][0] - 1) == 0):
                gate = 0
            rej = gate and dist > thr * thr * D
            if max(big(W, c, post), dist, thr * thr * D, D * big(P), m * big(V) * big(rr), m * big(W) * big(G)) > LIM:
                continue
            if not last and not rej and any(x % D for row in post for x in row):
                continue
            break
        else:
            return None
        kind, unit = r.randrange(2), r.choice([0, 0, -4, 6, -10])
        if k:
            unit = us[0]['unit']
        line.append('%d %d %d %d %d %s %s %s %d' % (kind, gate, thr, unit, m, sp(trip(H)), flat(rr), flat(R), D))
        us.append(dict(kind=kind, gate=gate, thr=thr, unit=unit, H=trip(H), r=[x[0] for x in rr], R=R, V=V, D=D))
        if not rej:
            P = [[x // D for x in row] for row in post] if not last else P
    return ('upd %d %d %s %d %s' % (back, fixed, sp(trip(P0)), nU, ' '.join(line)),
            dict(op='upd', fixed=fixed, P=trip(P0), us=us))


def rel(r):
    span, back, fixed, m = r.choice([1, 1, 2, 3, 4]), r.randrange(0, 2), r.randrange(2), r.choice([1, 1, 2, 3])
    for _ in range(60):
        Po, Pn = spd(r, N, r.randrange(0, 4)), spd(r, N, r.randrange(0, 6))
        Fs = []
        for _ in range(span):
            F = []
            for _ in range(r.randrange(0, 4)):
                i, j = r.sample(range(N), 2)
                F.append([i + 1, j + 1, r.choice([1, -1, 2])])
            Fs.append([f for i, f in enumerate(F) if not any(g[:2] == f[:2] for g in F[:i])])
        Fa = [[int(i == j) for j in range(N)] for i in range(N)]
        for F in Fs:
            M = [[int(i == j) for j in range(N)] for i in range(N)]
            for i, j, x in F:
                M[i - 1][j - 1] += x
            Fa = mul(M, Fa)
        Ho, Hn = rand_h(r, m), rand_h(r, m)
        if r.random() < 0.4:
            Ho = [[-x for x in row] for row in Hn]
        R = [[r.choice([1, 2, 5]) if i == j else 0 for j in range(m)] for i in range(m)]
        A = mul(Po, tr(Ho))
        FA = mul(Fa, A)
        B = mul(Pn, tr(Hn))
        X = mul(Hn, FA)
        S = add(add(add(mul(Ho, A), mul(Hn, B)), add(X, tr(X))), R)
        D, V = det_adj(S)
        if not D or D < 0:
            continue
        G = add(FA, B)
        rr = [[r.randrange(-20, 21)] for _ in range(m)]
        W = mul(G, V)
        post = add([[D * x for x in row] for row in Pn], mul(W, tr(G)), -1)
        if max(big(W, mul(W, rr), post), D * big(Pn), m * big(V) * big(rr), m * big(W) * big(G)) > LIM:
            continue
        return ('rel %d %d %d %s %s %s %d %s %s %s %s %d' % (
            back, span, fixed, sp(trip(Po)), sp(trip(Pn)), ' '.join(sp(F) for F in Fs), m, sp(trip(Ho)), sp(trip(Hn)), flat(rr), flat(R), D),
            dict(op='rel', fixed=fixed, Po=trip(Po), Pn=trip(Pn), Fs=Fs, Ho=trip(Ho), Hn=trip(Hn), r=[x[0] for x in rr], R=R, V=V, D=D))
    return None


UNIT = {16: 122880, 32: 3840, 64: 120, 128: 15}
ROT = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 0, 0), (0, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1),
       (1, -1, 0, 0), (1, 0, -1, 0), (1, 0, 0, -1), (1, 1, -1, -1)]
TILT = [(1, 1, 1, 0), (1, 0, 1, -1), (2, 1, 0, 0), (2, 2, 1, 0), (0, 2, 2, 1)]


def step(dt, q, a, w, ns, P, ba=(0, 0, 0), bw=(0, 0, 0)):
    U = UNIT[dt]
    scale = U * sum(x * x for x in q)
    t = trip(P)
    j = lambda v: ' '.join(str(x) for x in v)
    return ('step %d %d %s %s %s %s %s %s %s' % (dt, scale, j(q), j(ba), j(bw), sp(t), j(a), j(w), j(ns)),
            dict(op='step', dt=dt, U=U, q=list(q), a=list(a), w=list(w), ns=list(ns), P0=t))


def rand_step(r):
    dt = r.choice([16, 32, 64, 64, 128])
    q = r.choice(ROT + TILT) if dt >= 64 else r.choice(ROT)
    a = [r.choice([0, 1, -1, 2, 3, r.randrange(-5, 6)]) for _ in range(3)]
    w = [r.choice([0, 0, 1, -1, r.randrange(-3, 4)]) for _ in range(3)]
    s = r.random()
    if s < 0.25:
        a, w = [0] * 3, [0] * 3
    elif s < 0.4:
        w = [0] * 3
    still = a == [0] * 3 and w == [0] * 3
    ns = [r.choice([0, 1, 2, 3]), r.choice([0, 1, 2]), r.choice([0, 1, 3]) if still else 0, r.choice([0, 1, 2]) if still else 0, r.choice([0, 0, 1, 5])]
    P = [[0] * N for _ in range(N)]
    if r.random() < 0.85:
        for i in range(N):
            P[i][i] = r.choice([0, 1, 1, 2])
        for _ in range(r.randrange(0, 4)):
            i, j = r.sample(range(N), 2)
            x = r.choice([1, -1])
            P[i][j] += x
            P[j][i] += x
    ba = [r.choice([0, 0, 1, -1]) for _ in range(3)]
    bw = [r.choice([0, 0, 1, -1]) for _ in range(3)]
    return step(dt, q, a, w, ns, P, ba, bw)


def behaviour(seed, k, kinds):
    r = random.Random('update-%d-%d' % (seed, k))
    b = Beh()
    b.add('start 6', op='start')
    for _ in range(r.randrange(4, 8)):
        kind = r.choice(kinds)
        x = upd(r, r.choice(['', 'gate'])) if kind == 'upd' else rel(r) if kind == 'rel' else rand_step(r)
        if x:
            b.add(x[0], **x[1])
    return b


RELEVANT = {
    'C13': lambda m: m['op'] == 'upd' and set(m['labels']) & {'gate', 'rejected-cov', 'rejected-state'},
    'C17': lambda m: m['op'] == 'step' and set(m['labels']) & {'attitude'},
}


def check_input(m):
    assert 'BADINPUT' not in m['labels'], 'generator error: %s' % m


def run(c):
    rel_ = RELEVANT.get(c.prop, lambda m: True)
    n = 12000 if c.thorough else 1200
    if c.prop == 'C13':
        n //= 3
    if c.prop == 'C32':
        c.model('UpdateMC', 'UpdateMCdeep' if c.thorough else 'UpdateMC', 'updates of two-dimensional states: symmetry, definiteness, order independence, joint = successive')
    kinds = {'C13': ['upd'], 'C28': ['step']}.get(c.prop, ['upd', 'upd', 'rel'])
    def relevant(m):
        check_input(m)
        return rel_(m)
    explore(c, 'update', 'UpdateTrace', {k + 1: behaviour(c.seed, k, kinds) for k in range(n)}, 'update', relevant, chunk=400)


LISTED = {l.split()[2].rstrip(':') for l in open(V + '/known_findings.txt') if l.startswith('finding: property=C28')}
ZERO = [[0] * N for _ in range(N)]
FINDINGS = [  # (what fails, behaviour): gyro noise while accelerating or turning
    ('gyro-noise', 'gyro noise 1, attitude identity, acceleration (0,0,1), 1 s: the velocity variance along x gets no share of the gyro noise, that along y does',
     (64, (1, 0, 0, 0), (0, 0, 1), (0, 0, 0), (0, 0, 1, 0, 0), ZERO)),
    ('gyro-bias-noise', 'gyro bias noise 1, attitude identity, acceleration (0,0,1), 1 s: no correlation between velocity x and the gyro bias y',
     (64, (1, 0, 0, 0), (0, 0, 1), (0, 0, 0), (0, 0, 0, 1, 0), ZERO)),
]


def noise(c):
    """C28: covariance prediction, and the listed findings about its gyro-noise terms"""
    run(c)
    for i, (tag, what, args) in enumerate(FINDINGS):
        b = Beh()
        b.add('start 6', op='start')
        x = step(*args)
        b.add(x[0], **x[1])
        crash, mis, ends, r = judge(c, c.build('update'), 'UpdateTrace', {1: b})
        c.count(r, traces=len(ends))
        if crash or mis:
            if not crash and set(mis[1]['labels']) <= {'noise', 'predicted'} and tag in LISTED:
                c.known.append('%s: %s' % (tag, what))
            else:
                c.violation('update: %s' % (describe(mis[1]) if mis else 'crash'), 'finding_%d.txt' % i, b.text(1))
