"""Conformance of the filter core: generated behaviours are run on the real code and judged by MsfCoreTrace."""
from concurrent.futures import ThreadPoolExecutor
import random
from . import gen_core
from .base import V

EMPTY = dict(app=[], pub=[], chg=[], mdel=[])
EMPTY['del'] = []


def trace_obj(bid, g, res):
    ops = [dict(op='fix', v=g.fixed0, **EMPTY)]
    for o, x in zip(g.ops, res['ops']):
        ops.append({**o, **x})
    return dict(id=bid, ops=ops)


def judge(c, binary, gs, timeout=10):
    """gs: {bid: Gen}. Returns (crashes {bid: code}, mismatches {bid: obj}, ends)"""
    ids = sorted(gs)
    res = c.run_harness(binary, [gen_core.text(i, gs[i]) for i in ids], timeout=timeout)
    crash, objs = {}, []
    for i, r in zip(ids, res):
        if r is None:
            crash[i] = -1
        elif r['crash']:
            crash[i] = r['crash']
        else:
            objs.append(trace_obj(i, gs[i], r))
    if not objs:
        return crash, {}, [], dict(distinct=0, generated=0)
    r = c.tlc_trace('MsfCoreTrace', objs)
    return crash, {m['id']: m for m in r['mis']}, r['ends'], r


def describe(m):
    return '%s at call %d (%s): %s' % (m['op'], m['at'] - 1, ','.join(m['tags']) or '-', ','.join(m['labels']))


def cut_to_last_init(g, at):
    """the behaviour from the last init before operation number `at` on (None if there is no earlier init)"""
    inits = [k for k, o in enumerate(g.ops[:at]) if o['op'] == 'init']
    if len(inits) < 2:
        return None
    k = inits[-1]
    fixed = g.fixed0
    for o in g.ops[:k]:
        if o['op'] == 'fix':
            fixed = o['v']
    n = object.__new__(gen_core.Gen)
    n.axis, n.fixed0, n.ops = g.axis, fixed, g.ops[k:]
    return n


def explore(c, plan, relevant, crash_relevant=True, slate=False):
    """plan: [(profile, number of behaviours)]; relevant(m, profile): does mismatch m concern this property?"""
    binary = c.build('core')
    # several profiles in one TLC run
    gs, prof = {}, {}
    bid = 0
    for p, n in plan:
        for k in range(n):
            bid += 1
            gs[bid] = gen_core.make(c.seed, p, k + 1)
            prof[bid] = p
    chunk = 600
    ids = sorted(gs)
    other = 0
    for s in range(0, len(ids), chunk):
        part = {i: gs[i] for i in ids[s:s + chunk]}
        crash, mis, ends, r = judge(c, binary, part)
        c.count(r, traces=len(ends))
        for e in ends:
            c.addtags(e['tags'])
        for i in part:
            c.cov['profiles'][prof[i]] = c.cov['profiles'].get(prof[i], 0) + 1
        for i in sorted(part)[:1]:
            c.sample(dict(profile=prof[i], behaviour=gen_core.text(i, part[i]).splitlines()[:25]))
        for i in sorted(crash)[:3]:
            if not crash_relevant:
                other += 1
                continue
            c2, m2, _, _ = judge(c, binary, {i: part[i]}, timeout=20)
            if i in c2:
                c.violation('the filter core %s on a generated behaviour (profile %s)' %
                            ('hangs' if c2[i] == 14 else 'crashes (%s)' % c2[i], prof[i]), 'crash_%s_%d.txt' % (prof[i], i), gen_core.text(i, part[i]))
        cand = [i for i in sorted(mis) if relevant(mis[i], prof[i])]
        if slate:
            cand += [i for i in sorted(mis) if i not in cand and 'reinit' in mis[i]['past'] + mis[i]['tags']][:10]
        other += len(mis) - len(cand)
        confirmed = 0
        for i in cand:
            if confirmed >= 3:
                break
            c2, m2, _, _ = judge(c, binary, {i: part[i]}, timeout=20)
            if i not in m2:
                continue
            if not relevant(m2[i], prof[i]):
                if not slate:
                    continue
                cut = cut_to_last_init(part[i], m2[i]['at'] - 2)
                if cut is None:
                    continue
                c3, m3, _, _ = judge(c, binary, {i: cut}, timeout=20)
                if i in c3 or i in m3:
                    continue   # not a matter of what happened before the initialisation
            confirmed += 1
            c.violation(describe(m2[i]) + ' (profile %s)' % prof[i], '%s_%d.txt' % (prof[i], i),
                        '# ' + describe(m2[i]) + '\n' + gen_core.text(i, part[i]))
    if other:
        c.cov['mismatches_of_other_properties'] = c.cov.get('mismatches_of_other_properties', 0) + other


class M:
    """predicates over mismatches"""
    def __init__(self, m):
        self.tags, self.past, self.op = set(m['tags']), set(m['past']), m['op']
        self.labels = m['labels']

    def lab(self, *pre):
        return any(l.startswith(p) for l in self.labels for p in pre)

    def field(self, *fs):
        return any(l.rsplit(':', 1)[-1] in fs for l in self.labels)

    def tag(self, *t):
        return bool(self.tags & set(t))

    def was(self, *t):
        return bool(self.past & set(t)) or self.tag(*t)


LIFE = ('uninit', 'ignored', 'dropspending', 'backjump', 'nonfinite', 'nanreset', 'warmup', 'init', 'reinit')
ANOM = ('spike', 'extspike', 'dup', 'extdup', 'small-back', 'gap', 'extgap')


def c01(m, p):
    return m.tag(*LIFE) or (m.was('reinit', 'ignored', 'uninit', 'backjump', 'nonfinite', 'dropspending') and m.lab('app:count', 'pub:kinds', 'mdel'))


def c02(m, p):
    return m.op == 'init'


def c03(m, p):
    return (m.tag('late', 'outoforder', 'inorder', 'sametime', 'pending') or m.lab('ideal')) and not (m.labels and all(l.startswith('del') for l in m.labels))


def c04(m, p):
    return m.tag('held', 'pending') or (m.was('held') and m.lab('app:count', 'app:order', 'mdel:held', 'pub:kinds'))


def c05(m, p):
    return m.tag('tooold', 'oldest', 'nostate', 'none') or m.lab('mdel:kept')


def c06(m, p):
    return m.field('px') or (m.field('off') and m.lab('app', 'pub:upd', 'pub:init')) or m.lab('ideal')


def c07(m, p):
    return m.lab('pub:')


def c08(m, p):
    return m.op == 'near' or m.tag('near', 'interp', 'edge', 'nostate', 'none') or m.lab('app:before', 'ret:near')


def c09(m, p):
    return m.op in ('imu', 'ext') and (m.tag(*ANOM) or m.was(*ANOM))


def c10(m, p):
    return m.op == 'ext' or m.was('adopt', 'extprop', 'extgap')


def c11(m, p):
    return m.lab('del:', 'mdel:recent', 'unbounded') or m.was('cleanup', 'stale')


def c12(m, p):
    return m.field('ba', 'bw') or (m.was('fix') and m.lab('app', 'chg'))


def c13(m, p):
    return m.tag('gated', 'gatepass', 'noapply')


def c14(m, p):
    return m.tag('fuzzy', 'watched') or m.lab('app:after', 'pub:chk')


def c16(m, p):
    return m.op in ('prev', 'acc') or m.lab('ret:prev', 'ret:acc')


def c17(m, p):
    return m.field('v', 'p', 'th', 'am', 'wm', 'ba', 'bw', 'x', 'f', 't') and m.lab('pub:prop', 'chg')


# property -> (predicate, quick plan, thorough plan)
PLANS = {
    'C01': (c01, [('lifecycle', 120), ('imu', 40)], [('lifecycle', 1500), ('imu', 500), ('general', 300), ('extmix', 300)]),
    'C02': (c02, [('lifecycle', 80), ('fuzzy', 40), ('ext', 20)], [('lifecycle', 1000), ('fuzzy', 500), ('ext', 400), ('general', 400), ('future', 300)]),
    'C03': (c03, [('replay', 90), ('general', 50)], [('replay', 1600), ('general', 700), ('future', 300), ('gate', 300)]),
    'C04': (c04, [('future', 120), ('lifecycle', 30)], [('future', 1600), ('lifecycle', 500), ('general', 400)]),
    'C05': (c05, [('old', 120), ('general', 20)], [('old', 1600), ('general', 400), ('assoc', 400), ('retention', 16)]),
    'C06': (c06, [('replay', 50), ('general', 40), ('imu', 40)], [('replay', 800), ('general', 700), ('imu', 600), ('old', 300), ('extmix', 300)]),
    'C07': (c07, [('general', 40), ('future', 40), ('extmix', 25), ('imu', 50), ('fuzzy', 8)], [('fuzzy', 200), ('general', 800), ('future', 600), ('extmix', 500), ('lifecycle', 400), ('imu', 800)]),
    'C08': (c08, [('assoc', 120), ('old', 20)], [('assoc', 1600), ('old', 400), ('replay', 400)]),
    'C09': (c09, [('imu', 120), ('ext', 20)], [('imu', 1800), ('ext', 300), ('extmix', 300)]),
    'C10': (c10, [('ext', 70), ('extmix', 70)], [('ext', 1200), ('extmix', 1200)]),
    'C11': (c11, [('retention', 24), ('general', 20)], [('retention', 160), ('general', 300)]),
    'C12': (c12, [('fixed', 90), ('biasprop', 20), ('fuzzyfix', 20)], [('fuzzyfix', 400), ('fixed', 1200), ('biasprop', 500)]),
    'C13': (c13, [('gate', 120)], [('gate', 2000)]),
    'C14': (c14, [('fuzzy', 60), ('fuzzymodes', 20), ('fuzzyfix', 10)], [('fuzzymodes', 500), ('fuzzyfix', 200), ('fuzzy', 1200)]),
    'C16': (c16, [('relative', 130)], [('relative', 2000)]),
    'C17': (c17, [('biasprop', 80), ('imu', 40)], [('biasprop', 1200), ('imu', 800)]),
}


MODELS = {   # (module, cfg, tier)
    'C03': [('MsfCoreMC', 'MsfCoreMC', 'quick', 'all orders of arrival of 3 measurements among 5 readings')],
    'C04': [('PendQueue', 'PendQueue', 'quick', 'every held measurement is delivered (liveness), bounded waiting')],
    'C05': [('MsfCoreMC', 'MsfCoreMCgap', 'quick', 'measurements in gaps and before the history')],
    'C06': [('MsfCoreMC', 'MsfCoreMCdeep', 'quick', 'covariance contiguous for all orders of arrival, 6 readings')],
}


def same_state_probe():
    """two measurements 1 ms apart belong to one state; the later one arrives first"""
    g = gen_core.Gen(random.Random(5), 'replay')
    g.axis, g.fixed0, g.fixed, g.const = 0, 0, 0, True
    g.init()
    for _ in range(9):
        g.imu(dt=10)
    t = g.times[5]
    kw = dict(gate=0, kind=0, dv=0, dba=0, dbw=0, dth=0, df=0)
    g.meas(t=t + 1, **kw)
    g.meas(t=t, force=True, **kw)
    g.imu(dt=10)
    return g


def known_same_state(c):
    """C03: the recorded finding, judged separately so that any other outcome is still a violation"""
    listed = any(l.startswith('finding: property=C03 same-state') for l in open(V + '/known_findings.txt'))
    g = same_state_probe()
    crash, mis, _, _ = judge(c, c.build('core'), {1: g}, timeout=20)
    if crash or (mis and (mis[1]['labels'] != ['ideal'] or not listed)):
        c.violation('two measurements of one state: %s' % (describe(mis[1]) if mis else 'crash'), 'same_state.txt', gen_core.text(1, g))
    elif mis:
        c.known.append('same-state: out-of-order measurements less than 1 ms apart, mapped to the same buffered state: the one that arrived first is applied twice')


def run(c):
    pred, quick, thorough = PLANS[c.prop]
    todo = MODELS.get(c.prop, [])
    with ThreadPoolExecutor(1) as ex:
        fs = [ex.submit(c.model, m, cfg, what) for m, cfg, tier, what in todo if tier == 'quick' or c.thorough]
        c.build('core')
        for f in fs:
            f.result()
    if c.prop == 'C03':
        known_same_state(c)
    # the whole initial covariance is a matter of C02 alone
    explore(c, thorough if c.thorough else quick, lambda m, p: pred(M(m), p) if m['labels'] != ['pub:init:cov'] else c.prop == 'C02',
            slate=c.prop == 'C02')
