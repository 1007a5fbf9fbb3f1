"""Objects are independent of one another"""
import numpy as np
import common as C
import faults
from explore import Explorer, outcome, canon
from harness import R
import checks.C27 as c27

LEVEL = 'model_checking'
RULE = ('all pairs of calculations on two different shells, assemblies or bays (same sizes, all other attributes different): one after the other, and one within the other, preempted at every different call that it makes (one preemption; thorough: two, '
        'by real threads handed over at every pair of calls); both results against the same calculation alone in a pristine process')
SYS = c27.SYS
PAIRS = {'quick': (('shell', 'first', 'shell', 'mixed'), ('shell', 'mixed', 'shell', 'first'), ('assembly', 'first', 'assembly', 'mixed'), ('assembly', 'mixed', 'shell', 'first'), ('shell', 'first', 'bay', 'mixed'),
                   ('bay', 'first', 'bay', 'mixed'), ('bay', 'mixed', 'assembly', 'first'), ('assembly', 'first', 'bay', 'first'))}
PAIRS['thorough'] = PAIRS['quick'] + (('shell', 'second', 'shell', 'mixed2'), ('shell', 'mixed2', 'shell', 'second'), ('shell', 'first', 'shell', 'second'), ('bay', 'mixed', 'bay', 'first'), ('assembly', 'mixed', 'assembly', 'first'),
                                     ('bay', 'first', 'shell', 'mixed'), ('shell', 'mixed2', 'assembly', 'mixed'), ('assembly', 'mixed', 'bay', 'mixed'))
# the sizes are the same: what is kept by mistake between objects would fit
SAME = dict(shell=dict(m=3, n=2), assembly={'0.m': 2, '1.n': 3, '2.m': 2}, bay={'f.m': 2})


def definition(kind, init):
    d = dict(SYS[kind]().initials()[init])
    d.update(SAME[kind], **c27.LOADED[kind])
    return d


def ops(s):
    return [o for o in c27.ops(s) if o not in ('size',)]


def check(r, x, d, op, got, key, detail):
    e = x.expected(d, op)
    r.evals += 1
    if e[0] == 'ok':
        r.keys.add(hash((key, canon(e[1]))))
    why = x.same(got, e)
    if why:
        r.fail(key, '%s: %s' % (detail, why), case=detail)
    return not why


def t_pair(k1, i1, k2, i2, op1, every):
    r = R()
    s1, s2 = SYS[k1](), SYS[k2]()
    x1, x2 = Explorer(s1), Explorer(s2)
    d1, d2 = definition(k1, i1), definition(k2, i2)
    # different calls of the first calculation
    p = faults.Points()
    o = s1.make(d1)
    with p:
        outcome(lambda: s1.apply_calc(o, op1, d1))
    pts, seen = [], set()
    for k, site in enumerate(p.sites, 1):
        if site not in seen or every:
            seen.add(site)
            pts.append(k)
    r.state_keys.update((k1, op1) + t for t in seen)
    for op2 in ops(s2) if every or k1 == k2 else REPR[k2]:
        # one after the other, both fresh and used
        a, b = s1.make(d1), s2.make(d2)
        for turn in range(2):
            check(r, x1, d1, op1, outcome(lambda: s1.apply_calc(a, op1, d1)), 'after/%s/%s' % (k1, op1), (k1, i1, op1, 'and', k2, i2, op2, turn))
            check(r, x2, d2, op2, outcome(lambda: s2.apply_calc(b, op2, d2)), 'after/%s/%s' % (k2, op2), (k1, i1, op1, 'then', k2, i2, op2, turn))
            r.transitions += 2
        for k in pts:
            a, b = s1.make(d1), s2.make(d2)
            inner = []
            act = faults.Points(lambda: inner.append(outcome(lambda: s2.apply_calc(b, op2, d2))), k)
            with act:
                got = outcome(lambda: s1.apply_calc(a, op1, d1))
            if not inner:
                r.counts['not reached'] += 1
                continue
            r.traces += 1
            r.transitions += 2
            det = (k1, i1, op1, 'preempted at', act.where, 'by', k2, i2, op2)
            check(r, x1, d1, op1, got, 'preempted/%s/%s' % (k1, op1), det)
            check(r, x2, d2, op2, inner[0], 'within/%s/%s' % (k2, op2), det)
            for s, o, d, n in ((s1, a, d1, k1), (s2, b, d2, k2)):
                bad = s.intact(o, d)
                if bad:
                    r.fail('definition/' + n, '%s: %s' % (det, bad), case=det)
            if len(r.samples) < 1:
                r.sample(dict(schedule=list(map(str, det))))
    return r


REPR = dict(shell=('kC c', 'kG c', 'kM', 'kA', 'fint', 'fext', 'stress', 'kC cte'), assembly=('kC c', 'kG', 'kM', 'fint', 'fext', 'stress s', 'get conn'), bay=('kC', 'kG', 'kM', 'kA', 'fext', 'skin'))


def sites(s, d, op):
    p = faults.Points()
    o = s.make(d)
    with p:
        outcome(lambda: s.apply_calc(o, op, d))
    pts, seen = [], set()
    for k, site in enumerate(p.sites, 1):
        if site not in seen:
            seen.add(site)
            pts.append(k)
    return pts


def t_threads(k1, i1, k2, i2, op1, op2):
    r = R()
    s1, s2 = SYS[k1](), SYS[k2]()
    x1, x2 = Explorer(s1), Explorer(s2)
    d1, d2 = definition(k1, i1), definition(k2, i2)
    for op, x, d in ((op1, x1, d1), (op2, x2, d2)):
        x.expected(d, op)
    p1, p2 = sites(s1, d1, op1), sites(s2, d2, op2)
    for a in p1:
        for b in p2:
            o1, o2 = s1.make(d1), s2.make(d2)
            t = faults.Threads(lambda: outcome(lambda: s1.apply_calc(o1, op1, d1)), lambda: outcome(lambda: s2.apply_calc(o2, op2, d2)), a, b)
            got = t.run()
            r.traces += 1
            r.transitions += 2
            det = (k1, i1, op1, a, 'in a thread with', k2, i2, op2, b)
            check(r, x1, d1, op1, got[0], 'threads/%s/%s' % (k1, op1), det)
            check(r, x2, d2, op2, got[1], 'threads/%s/%s' % (k2, op2), det)
    return r


def jobs(tier, seed):
    out = []
    for k1, i1, k2, i2 in PAIRS[tier]:
        for op1 in ops(SYS[k1]()):
            out.append(('t_pair', (k1, i1, k2, i2, op1, tier == 'thorough')))
    for k1, i1, k2, i2 in PAIRS['quick']:
        for op1 in REPR[k1]:
            for op2 in REPR[k2]:
                if tier == 'thorough' or k1 == k2 and op1 == op2 and i1 == 'first' and op1 in ('kC c', 'kA', 'fext'):
                    out.append(('t_threads', (k1, i1, k2, i2, op1, op2)))
    return out
