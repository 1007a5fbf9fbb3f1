"""Runs the jobs of one check on all cores, merges what they covered, writes
the evidence file and decides the exit status.

A check module (checks/<id>.py) has
    LEVEL, RULE           strings
    jobs(tier, seed)      list of (function name, args tuple), all enumerated
and functions returning an R (what was covered, what failed).
"""
import collections
import gc
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures import TimeoutError as FutTimeout
from concurrent.futures.process import BrokenProcessPool

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
EVID = os.path.join(VERIF, 'evidence')


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size < 200 else 'array%s' % (o.shape,)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class R:
    """What one job covered"""

    def __init__(self):
        self.evals = 0
        self.entries = 0
        self.keys = set()
        self.state_keys = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.bad = []
        self.nbad = collections.Counter()
        self.counts = collections.Counter()

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(jsonable(s))

    def fail(self, key, msg, **detail):
        self.nbad[key] += 1
        if self.nbad[key] <= 3:
            self.bad.append((key, msg, jsonable(detail)))

    def case(self, key, nontrivial=True):
        self.evals += 1
        if nontrivial:
            self.keys.add(hash_key(key))

    def close(self, key, got, exp, scale=None, rtol=1e-10, atol=0., fkey=None, sample=None):
        """|got-exp| <= rtol*scale + atol elementwise; True when it holds"""
        got = np.asarray(got)
        exp = np.asarray(exp)
        self.evals += 1
        self.entries += int(exp.size)
        if exp.size and np.any(abs(exp) > 1e-12*(abs(exp).max() if scale is None else np.max(scale))):
            self.keys.add(hash_key(key))
        if got.shape != exp.shape:
            self.fail(fkey or key, 'shape %s instead of %s' % (got.shape, exp.shape), case=key)
            return False
        if exp.size == 0:
            return True
        s = np.maximum(abs(exp), abs(got)).max() if scale is None else np.asarray(scale)
        with np.errstate(invalid='ignore', over='ignore'):
            d = abs(got - exp)
            okm = d <= rtol*s + atol
        if not np.all(okm):
            i = np.unravel_index(np.argmax(np.where(okm, 0, np.where(np.isnan(d), np.inf, d/(s + 1e-300)))), d.shape)
            self.fail(fkey or key, 'entry %s is %r, expected %r' % (tuple(int(k) for k in i), complex(got[i]) if np.iscomplexobj(got) else float(got[i]),
                      complex(exp[i]) if np.iscomplexobj(exp) else float(exp[i])), case=key, wrong=int((~okm).sum()))
            return False
        if len(self.samples) < 3 and np.any(exp != 0):
            i = np.unravel_index(np.argmax(abs(exp)), exp.shape)
            self.sample({'case': sample or key, 'entry': [int(k) for k in i], 'value': repr(got[i]), 'reference': repr(exp[i])})
        return True

    def merge(self, o):
        self.evals += o.evals
        self.entries += o.entries
        self.keys |= o.keys
        self.state_keys |= o.state_keys
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.samples = (self.samples + o.samples)[:8]
        self.bad += o.bad
        self.nbad.update(o.nbad)
        self.counts.update(o.counts)


def hash_key(k):
    return hashlib.blake2b(repr(k).encode(), digest_size=8).digest()


def dense(K):
    return np.asarray(K.toarray() if hasattr(K, 'toarray') else K)


_mod = None
_lim = None


def _init(name, build):
    global _mod
    sys.path.insert(0, build)
    sys.dont_write_bytecode = True
    import panels.logger as lg  # silence progress messages
    sys.stdout = open(os.devnull, 'w')
    _mod = importlib.import_module('checks.' + name)
    # the library asks for a complete garbage collection in every calculation: nothing to find among the imported modules
    importlib.import_module('panels.stiffpanelbay')
    importlib.import_module('panels.multidomain')
    gc.collect()
    gc.freeze()


def _call(fn, args):
    try:
        with np.errstate(all='ignore'):
            return getattr(_mod, fn)(*args)
    except Exception as e:
        r = R()
        r.evals += 1
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if os.sep + 'panels' + os.sep in f.filename]
        loc = where[-1].name if where else tb[-1].name
        r.fail('exception/%s/%s' % (loc, type(e).__name__),
               '%s: %s' % (type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
        return r


def findings():
    """{(property, key): text} of the listed, unrepaired findings"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('finding: '):
                p, k, text = line[len('finding: '):].rstrip('\n').split(' ', 2)
                out[p.split('=', 1)[1], k.split('=', 1)[1]] = text
    return out


def run_jobs(name, build, jobs, deadline):
    total = R()
    pend = list(enumerate(jobs))
    out = {}
    nw = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    crashed = []
    ex = ProcessPoolExecutor(nw, initializer=_init, initargs=(name, build))
    futs = {ex.submit(_call, fn, args): i for i, (fn, args) in pend}
    try:
        for f in as_completed(futs, timeout=max(1., deadline - time.time())):
            try:
                out[futs[f]] = f.result()
            except BrokenProcessPool:
                crashed.append(futs[f])
    except FutTimeout:
        pass
    finally:
        for p in list((ex._processes or {}).values()):
            if len(out) + len(crashed) < len(jobs):
                p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    # a worker died: run what is missing one by one, each in its own process
    for i in crashed:
        if time.time() > deadline:
            break
        ex = ProcessPoolExecutor(1, initializer=_init, initargs=(name, build))
        try:
            out[i] = ex.submit(_call, *jobs[i]).result(timeout=max(1., deadline - time.time()))
        except BrokenProcessPool:
            r = R()
            r.evals += 1
            r.fail('crash/%s' % jobs[i][0], 'the process was killed (memory error in compiled code?)')
            out[i] = r
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
        if out[i].bad and out[i].bad[0][0].startswith('crash/'):
            break
    for i in sorted(out):
        r = out[i]
        r.bad = [(k, m, dict(d, job=[jobs[i][0], jsonable(jobs[i][1])], job_index=i)) for k, m, d in r.bad]
        total.merge(r)
    return total, len(out)


def main(argv):
    import build as B
    prop = argv[0]
    tier = 'quick'
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = rest.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        d = B.ensure_build()
        os.chdir(scratch)
        return _main(prop, tier, seed, replay, d, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, d, t0):
    stdout = sys.stdout
    sys.path.insert(0, d)
    mod = importlib.import_module('checks.' + prop)
    jobs = mod.jobs(tier, seed)
    if replay:
        spec = json.load(open(replay))
        tier = spec.get('tier', tier)
        jobs = mod.jobs(tier, spec.get('seed', seed))
        jobs = [jobs[spec['job_index']]]
    limit = float(os.environ.get('VERIF_LIMIT', '800' if tier == 'quick' else '36000'))
    tot, done = run_jobs(prop, d, jobs, t0 + limit)
    sys.stdout = stdout
    known = findings()
    listed, new = {}, {}
    for k, m, det in tot.bad:
        (listed if (prop, k) in known else new).setdefault(k, []).append((m, det))
    for k in sorted(listed):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[prop, k], k))
    viol = []
    rep_dir = os.path.join(EVID, 'replays')
    for n, k in enumerate(sorted(new)):
        os.makedirs(rep_dir, exist_ok=True)
        m, det = new[k][0]
        path = os.path.join(rep_dir, '%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, key=k, what=m, count=tot.nbad[k],
                           job_index=det.get('job_index'), detail=det,
                           how='/opt/venv/bin/python /verif/mc/run.py %s %s --replay %s' % (prop, tier, path)), f, indent=1)
        viol.append('%s: %s' % (k, m))
        if n < 20:
            print('  %s: %s (%d times)' % (k, m, tot.nbad[k]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    tot.states += len(tot.state_keys)
    cov = {'samples': tot.samples or ['none']}
    if mod.LEVEL == 'model_checking':
        cov.update(states=tot.states, transitions=tot.transitions, traces_validated_against_impl=tot.traces)
    cov.update(evaluations=tot.evals, distinct_nontrivial=len(tot.keys), rule=mod.RULE,
               compared_entries=tot.entries, jobs=done, jobs_enumerated=len(jobs), exhaustive=(done == len(jobs)))
    for k, v in sorted(tot.counts.items()):
        cov[k] = v
    if not replay:
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=jsonable(cov),
                  wall_s=round(time.time() - t0, 2), assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=len(viol),
                  known_findings=sorted(listed))
        tmp = os.path.join(EVID, '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('%s %s: jobs %d/%d evaluations %d nontrivial %d entries %d states %d transitions %d traces %d violations %d known %d  %.1f s' % (
        prop, tier, done, len(jobs), tot.evals, len(tot.keys), tot.entries, tot.states, tot.transitions,
        tot.traces, len(new), len(listed), time.time() - t0))
    if new:
        return 1
    if done != len(jobs):
        print('not finished: %d of %d jobs' % (done, len(jobs)))
        return 2
    return 0
