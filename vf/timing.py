"""C27: the timing library under a controlled clock."""
import random
from .simple import Beh, explore


def rand(seed, k):
    r = random.Random('timing-%d-%d' % (seed, k))
    b = Beh()
    style = r.choice(['mix', 'mix', 'long', 'reset'])
    tags = ['t%d' % i for i in range(r.choice([1, 2, 4]))]
    if r.random() < 0.3:
        tags[0] = 'a_rather_long_tag_name'
    timers, run = {}, {}    # id -> exists ; id -> time running
    n = r.randrange(25, 60) if style != 'long' else r.randrange(190, 260)

    def adv():
        d = r.choice([0, 1, 2, 3, 7, r.randrange(0, 120), r.randrange(0, 300)])
        if r.random() < 0.06:
            d = -d
        for i in run:
            if abs(run[i] + d) > 550:
                d = 0
        for i in run:
            run[i] += d
        b.add('adv %d' % d, op='adv', d=d)

    for _ in range(n):
        e = r.choices(['new', 'start', 'stop', 'del', 'adv', 'touch', 'add3', 'add4', 'reset'],
                      [3 if style != 'long' else 0.5, 6, 8, 1.2 if style != 'long' else 0.2, 8, 1, 1.5, 1.5, 1.5 if style == 'reset' else 0.1])[0]
        if style == 'long' and timers and r.random() < 0.6:
            i = r.choice(sorted(timers))
            if i in run:
                b.add('stop %d' % i, op='stop', id=i)
                run.pop(i)
            else:
                b.add('start %d' % i, op='start', id=i)
                run[i] = 0
                adv()
            continue
        if e == 'new':
            i = r.randrange(1, 5)
            st = r.random() < 0.4
            t = r.choice(tags)
            b.add('new %d %s %d %d' % (i, t, st, r.randrange(2)), op='new', id=i, tag=t, stopped=int(st))
            timers[i] = 1
            run.pop(i, None)
            if not st:
                run[i] = 0
        elif e in ('start', 'stop', 'del') and timers:
            i = r.choice(sorted(timers))
            b.add('%s %d' % (e, i), op=e, id=i)
            run.pop(i, None)
            if e == 'start':
                run[i] = 0
            if e == 'del':
                timers.pop(i)
        elif e == 'adv':
            adv()
        elif e == 'touch':
            t = r.choice(tags)
            b.add('touch %s' % t, op='touch', tag=t)
        elif e in ('add3', 'add4'):
            x = r.randrange(-300, 300) if k % 3 else r.randrange(-300, 1)
            b.add('%s %d' % (e, x), op=e, x=x)
        elif e == 'reset':
            b.add('reset', op='reset')
    return b


def run(c):
    n = 3000 if c.thorough else 250
    explore(c, 'timing', 'TimingTrace', {k + 1: rand(c.seed, k) for k in range(n)}, 'timing')
