"""Generic conformance loop for components whose every mismatch concerns the property (or a given predicate)."""


def header(bid, args=()):
    return ' '.join(['B', str(bid)] + [str(x) for x in args])


class Beh:
    """one behaviour: header words, and a list of (line for the harness, fields for TLC)"""
    def __init__(self, head=(), pre=None):
        self.head, self.ops, self.pre = head, [], pre or {}

    def add(self, line, **f):
        self.ops.append((line, f))

    def text(self, bid):
        return '\n'.join([header(bid, self.head)] + [l for l, _ in self.ops] + ['E']) + '\n'


def judge(c, binary, module, behs, timeout=10, env=None):
    ids = sorted(behs)
    res = c.run_harness(binary, [behs[i].text(i) for i in ids], timeout=timeout, env=env)
    crash, objs = {}, []
    for i, r in zip(ids, res):
        if r is None:
            crash[i] = -1
        elif r['crash']:
            crash[i] = r['crash']
        else:
            o = dict(behs[i].pre)
            o.update(id=i, ops=[{**f, **x} for (_, f), x in zip(behs[i].ops, r['ops'])])
            objs.append(o)
    if not objs:
        return crash, {}, [], dict(distinct=0, generated=0)
    r = c.tlc_trace(module, objs)
    return crash, {m['id']: m for m in r['mis']}, r['ends'], r


def describe(m):
    return '%s at call %d (%s): %s' % (m['op'], m['at'], ','.join(m['tags']) or '-', ','.join(m['labels']))


def explore(c, harness, module, behs, name, relevant=lambda m: True, chunk=1500, crash_relevant=True, flags=()):
    binary = c.build(harness, flags)
    ids = sorted(behs)
    for s in range(0, len(ids), chunk):
        part = {i: behs[i] for i in ids[s:s + chunk]}
        crash, mis, ends, r = judge(c, binary, module, part)
        c.count(r, traces=len(ends))
        for e in ends:
            c.addtags(e['tags'])
        c.cov['profiles'][name] = c.cov['profiles'].get(name, 0) + len(part)
        c.sample(dict(part=name, behaviour=part[min(part)].text(min(part)).splitlines()[:20]))
        for i in sorted(crash)[:3]:
            if crash_relevant:
                c2 = judge(c, binary, module, {i: part[i]}, timeout=20)[0]
                if i in c2:
                    c.violation('%s: the code %s' % (name, 'hangs' if c2[i] == 14 else 'crashes (%s)' % c2[i]), 'crash_%s_%d.txt' % (name, i), part[i].text(i))
        n = 0
        for i in sorted(mis):
            if n >= 3:
                break
            if not relevant(mis[i]):
                c.cov['mismatches_of_other_properties'] = c.cov.get('mismatches_of_other_properties', 0) + 1
                c.other[(name, mis[i]['op']) + tuple(mis[i]['labels'])] = i
                continue
            m2 = judge(c, binary, module, {i: part[i]}, timeout=20)[1]
            if i in m2 and relevant(m2[i]):
                n += 1
                c.violation('%s: %s' % (name, describe(m2[i])), '%s_%d.txt' % (name, i), '# %s\n' % describe(m2[i]) + part[i].text(i))
