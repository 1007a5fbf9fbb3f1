"""Fields under every schedule of the worker threads"""
import json
import os
import subprocess
import sys
import numpy as np
import build as B
import common as C
from harness import R

LEVEL = 'model_checking'
RULE = ('the extension with the parallel loop is compiled with every memory access instrumented and run under a controlled OpenMP runtime: for every field, model, number of '
        'cores, number of points and team size the runtime enumerates the orders of the threads (all for up to 3 threads, up to 2 deviations for more) and, at every access by an '
        'instruction involved in a conflict between threads, every preemption up to the bound; freed and new memory holds NaN; each execution compared with the points evaluated one by '
        'one; plus the unmodified build for all numbers of cores x points; states: schedules executed, transitions: scheduling decisions')
ASSUMPTIONS = ['a schedule is relevant only through the order of conflicting memory accesses, which are switching points; executions without conflicts are represented by the thread orders',
               'sequentially consistent memory']
KINDS = ('uvw', 'strain0', 'strain1', 'stress0', 'stress1')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(model):
    s = C.shell(model, 1.1, .8, 3, 4, r=.9 if model == C.CYL else None)
    return s


def points(n):
    x = 1.1*(.05 + .9*np.modf(np.arange(1, n + 1)*.618034)[0])
    y = .8*(.03 + .9*np.modf(np.arange(1, n + 1)*.754878)[0])
    return x, y


def field(s, kind, c, x, y):
    if kind == 'uvw':
        s.uvw(c, xs=x, ys=y)
        names = ('u', 'v', 'w', 'phix', 'phiy')
    elif kind.startswith('strain'):
        s.strain(c, xs=x, ys=y, NLgeom=kind.endswith('1'))
        names = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
    else:
        s.stress(c, xs=x, ys=y, NLgeom=kind.endswith('1'))
        names = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
    return np.array([np.array(s.fields[k], dtype=float).ravel() for k in names])


def alone(s, kind, c, x, y):
    """the points one at a time by one thread"""
    keep = s.out_num_cores
    s.out_num_cores = 1
    out = np.concatenate([field(s, kind, c, x[i:i + 1], y[i:i + 1]) for i in range(x.size)], axis=1)
    s.out_num_cores = keep
    return out


def same(got, exp):
    return got.shape == exp.shape and bool(np.all(abs(got - exp) <= 1e-11*(abs(exp) + 1e-3*abs(exp).max())))


def jobs(tier, seed):
    big = tier == 'thorough'
    out = [('native', (m, k, big)) for m in C.MODELS for k in KINDS]
    for m in C.MODELS:
        for k in KINDS:
            for n in range(1, 9 if big else 6):
                out.append(('schedules', (m, k, n, big)))
    return sorted(out, key=lambda j: -j[1][2] if j[0] == 'schedules' else -99)


def native(model, kind, big):
    r = R()
    s = make(model)
    c = C.vec(36, 1, .3)
    P = 48 if big else 34
    x, y = points(P)
    ref = alone(s, kind, c, x, y)
    for n in range(1, 25 if big else 17):
        s.out_num_cores = n
        for p in range(1, P + 1):
            r.case((model, kind, n, p))
            r.entries += ref[:, :p].size
            r.traces += 1
            if not same(field(s, kind, c, x[:p].copy(), y[:p].copy()), ref[:, :p]):
                r.fail('native/' + kind, '%d points on %d cores differ from the points one by one' % (p, n), case=(model, kind, n, p))
    # grids, shapes
    for n in (1, 2, 3, 4, 5, 7, 8):
        s.out_num_cores = n
        for sh in ((1, 1), (2, 3), (3, 2), (5, 5), (1, 7), (7, 1)):
            k = sh[0]*sh[1]
            X, Y = x[:k].reshape(sh), y[:k].reshape(sh)
            r.case((model, kind, n, sh))
            if not same(field(s, kind, c, X, Y), ref[:, :k]):
                r.fail('native/' + kind, 'points of shape %r on %d cores differ' % (sh, n), case=(model, kind, n, sh))
    return r


def schedules(model, kind, n, big):
    """in a process of its own, with the instrumented extension"""
    r = R()
    d = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules['panels'].__file__)))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), d, model, kind, str(n), str(int(big))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=dict(os.environ, PYTHONPATH=HERE))
    line = [z for z in p.stdout.splitlines() if z.startswith('RESULT ')]
    if not line:
        if p.returncode < 0:
            r.evals += 1
            r.fail('schedules/crash', 'the process was killed by signal %d under a schedule' % -p.returncode, case=(model, kind, n), output=p.stderr[-1500:])
        elif 'undefined symbol' in p.stderr:
            r.counts['not_controlled'] += 1         # a runtime function the controlled runtime has not; the plain runs remain
            r.case((model, kind, n, 'not controlled'))
        else:
            r.evals += 1
            r.fail('schedules/exception', p.stderr.strip().splitlines()[-1] if p.stderr.strip() else 'no result', case=(model, kind, n), output=p.stderr[-1500:])
        return r
    o = json.loads(line[0][7:])
    for key in o['cases']:
        r.case((model, kind, n) + tuple(key))
    r.states += o['schedules']
    r.transitions += o['decisions']
    r.traces += o['schedules']
    for k in ('accesses', 'switches', 'conflicting_instructions', 'capped', 'parallel_regions'):
        r.counts[k] += o[k]
    r.sample(dict(model=model, kind=kind, cores=n, schedules=o['schedules'], accesses=o['accesses']))
    for f in o['bad']:
        r.fail('schedules/' + f['what'], f['text'], **f)
    return r


def _main(d, model, kind, n, big):
    import ompmc
    rt = ompmc.Runtime(d)
    import panels.logger
    s = make(model)
    c = C.vec(36, 1, .3)
    P = 2*n + 1
    x, y = points(P)
    out = dict(cases=[], schedules=0, decisions=0, accesses=0, switches=0, conflicting_instructions=0, capped=0, parallel_regions=0, bad=[])
    # reference without a team: one point at a time, one thread
    ref = alone(s, kind, c, x, y)
    s.out_num_cores = n
    pts = list(range(1, P + 1)) if big or n < 3 else sorted({1, n - 1, n, n + 1, 2*n + 1})
    for p in pts:
        xs, ys = x[:p].copy(), y[:p].copy()
        for limit in range(1, n + 1):
            bad = []

            def check(res, st, choices):
                what = None
                if st['deadlock']:
                    what = 'deadlock'
                elif st['freed_twice']:
                    what = 'freed-twice'
                elif not same(res, ref[:, :p]):
                    what = 'fields'
                if what:
                    bad.append(dict(what=what, text='%s of %d points on %d cores (team of %d) under the schedule %s' % (kind, p, n, limit, choices[:200]),
                                    schedule=choices[:2000], result=np.asarray(res).tolist() if np.size(res) < 100 else None))
                return not what
            try:
                cov = rt.explore(lambda: field(s, kind, c, xs, ys), check, limit=limit, orders=3, preemptions=3 if big else 2, cap=20000 if big else 3000)
            except Exception as e:
                bad.append(dict(what='exception', text='%s: %s' % (type(e).__name__, e)))
                cov = {}
            out['cases'].append((p, limit))
            for k, q in (('schedules', 'schedules'), ('decisions', 'decisions'), ('accesses', 'accesses'), ('switches', 'switches'), ('conflicting_instructions', 'conflicts'), ('capped', 'capped'),
                         ('parallel_regions', 'regions')):
                out[k] += cov.get(q, 0)
            out['bad'] += bad
            if bad:
                break
        if out['bad']:
            break
    print('RESULT ' + json.dumps(out))


if __name__ == '__main__':
    a = sys.argv[1:]
    _main(a[0], a[1], a[2], int(a[3]), a[4] == '1')
