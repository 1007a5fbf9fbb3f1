"""Saving and loading preserves the object in every reachable state"""
import json
import os
import subprocess
import sys
import numpy as np
import common as C
from checks.C14 import LOADS, Shells
from checks.C22 import Bays
from explore import Explorer, canon, outcome
from harness import R

LEVEL = 'model_checking'
RULE = ('every sequence of up to 2 operations (3 in the thorough tier) on real shells and bays, then save, load, every calculation on the loaded object compared with a fresh object; '
        'plus every failure (crash before and after, error, short write, short write then error or crash) of every system call of save that changes a file, with and without an existing '
        'file, singly and in pairs; non-trivial: distinct results of loaded objects')
ASSUMPTIONS = ['failures are those of the process and of its system calls; loss of data already accepted by the operating system (power loss) is out of scope',
               'objects with distributed loads given as lambda functions cannot be pickled: save raises, the existing file stays']
NAMES = ['plain', 'with.dots', 'dir/plain', 'my.Shells/plain', 'a.StiffPanelBays/plain', 'with space', 'caf\u00e9']
LAMBDA = {'dl', 'dli', 'ddi'}


def linear(t):
    return 1. + 2.*t


LOADS['dlf'] = lambda s: s.add_distr_load_fixed_x(.4, linear, None, np.cos)


class SavedShells(Shells):
    tag = 'saved'

    def initials(self):
        out = Shells.initials(self)
        for k in out:
            out[k]['loads'] = {'first': (), 'mixed': ('pl', 'dlf')}.get(k, ('dlf', 'pd'))
        return out


def system(kind):
    return SavedShells() if kind == 'shell' else Bays()


def loader(kind):
    if kind == 'shell':
        from panels.shell import load
        return load, '.Shell'
    from panels.stiffpanelbay.stiffpanelbay import load
    return load, '.StiffPanelBay'


def jobs(tier, seed):
    out = []
    for kind in ('shell', 'bay'):
        s = system(kind)
        for init in s.initials() if tier != 'quick' else list(s.initials())[::2] if kind == 'shell' else s.initials():
            for op in list(s.sets) + s.calcs:
                out.append(('states', (kind, init, op, 2 if tier == 'quick' else 3)))
        out.append(('names', (kind,)))
        inits = list(s.initials())
        for k, init in enumerate(inits):
            for name in ('obj', '@obj', 'sub dir/obj'):
                for calc in ((), ('kC',), ('kM', 'fext')):
                    if tier == 'quick' and (k + len(name) + len(calc)) % 3:
                        continue
                    out.append(('faults', (kind, init, inits[k - 1], name, calc, tier)))
    return sorted(out, key=lambda j: (j[0] != 'faults', j[1][0] != 'bay'))


def names(kind):
    """where the file is saved does not matter; the loaded object saves to the same place"""
    r = R()
    s = system(kind)
    load, ext = loader(kind)
    d = s.initials()['first']
    base = os.path.join(os.environ['VERIF_SCRATCH'], 'names%d' % os.getpid())
    os.makedirs(base, exist_ok=True)
    os.chdir(base)
    for rel in (False, True):
        for n in NAMES:
            o = s.make(d)
            o.name = n if rel else os.path.join(base, n)
            os.makedirs(os.path.dirname(os.path.join(base, n)), exist_ok=True)
            o.save()
            for ask in (o.name, o.name + ext):
                st, res = outcome(lambda: [np.array(load(ask) is None)])
                r.case(('name', n, rel, ask == o.name))
                r.transitions += 1
                if st != 'ok':
                    r.fail('name', 'load(%r) of the object saved as %r raises %s' % (ask, o.name, res), kind=kind)
                    continue
                q = load(ask)
                if canon(q) != canon(o):
                    r.fail('name', 'load(%r) gives another object than the one saved' % ask, kind=kind)
    return r


def states(kind, init, op, depth):
    r = R()
    s = system(kind)
    if op in s.sets and s.sets[op](s.initials()[init]) is None:
        return r
    x = Explorer(s)
    load, ext = loader(kind)
    name = os.path.join(os.environ['VERIF_SCRATCH'], 'st%d' % os.getpid())
    d0 = s.initials()[init]
    seen = set()
    hists = [(op,)]
    s.make(d0)
    level = [(op,)]
    for _ in range(depth - 1):
        nxt = []
        done = set()
        for h in level:
            o = s.make(d0)
            dd, _ = x.run(dict(d0), o, h)
            c = canon(o, sorted(dd.items(), key=lambda t: t[0]))
            if c in done:
                continue
            done.add(c)
            nxt += [h + (q,) for q in list(s.calcs) + [q for q in s.sets if s.sets[q](dd) is not None]]
        hists += nxt
        level = nxt
    older = s.make(d0)
    older.name = name
    if not set(d0.get('loads', ())) & LAMBDA:
        older.save()
    else:
        with open(name + ext, 'wb') as f:
            f.write(b'older')
    with open(name + ext, 'rb') as f:
        old = f.read()
    for h in hists:
        o = s.make(d0)
        dd, _ = x.run(dict(d0), o, h)
        before = canon(sorted(dd.items(), key=lambda t: t[0]))
        o.name = name
        with open(name + ext, 'wb') as f:
            f.write(old)
        r.transitions += 1
        r.evals += 1
        try:
            o.save()
        except Exception as e:
            if not set(dd.get('loads', ())) & LAMBDA:
                r.fail('save/%s' % type(e).__name__, 'save after %s: %r' % (list(h), e), kind=kind, init=init, history=list(h))
            with open(name + ext, 'rb') as f:
                if f.read() != old:
                    r.fail('lost', 'save failed after %s and the existing file was changed' % (list(h),), kind=kind, init=init, history=list(h))
            s.changed = None
            why = s.intact(o, dd)
            if why:
                r.fail('definition', 'failed save after %s: %s' % (list(h), why), kind=kind, init=init, history=list(h))
            r.counts['refused'] += 1
            continue
        with open(name + ext, 'rb') as f:
            data = f.read()
        s.changed = None
        why = s.intact(o, dd)
        if why:
            r.fail('definition', 'save after %s: %s' % (list(h), why), kind=kind, init=init, history=list(h))
        q = load(name)
        c = canon(q, before)
        if canon(o, before) != c:
            r.fail('differs', 'the loaded object is not the saved one, after %s' % (list(h),), kind=kind, init=init, history=list(h))
        r.state_keys.add(c)
        if c in seen:
            r.counts['states_merged'] += 1
            continue
        seen.add(c)
        for i, k in enumerate(s.calcs):
            q = load(name)
            if i == 0:
                s.changed = None
                why = s.intact(q, dd)
                if why:
                    r.fail('definition', 'loaded after %s: %s' % (list(h), why), kind=kind, init=init, history=list(h))
            out = outcome(lambda: s.apply_calc(q, k, dd))
            if k == 'save':
                with open(name + ext, 'wb') as f:
                    f.write(data)
            e = x.expected(dd, k)
            why = x.same(out, e)
            r.transitions += 1
            r.traces += 1
            r.evals += 1
            if e[0] == 'ok':
                r.keys.add(canon(e[1], k))
            if why:
                r.fail('loaded/%s' % k, '%s of the object saved and loaded after %s: %s' % (k, list(h), why), kind=kind, init=init, history=list(h))
        r.sample(dict(kind=kind, init=init, history=list(h), bytes=len(data)))
    return r


def faults(kind, init, init2, name, calc, tier):
    r = R()
    s = system(kind)
    load, ext = loader(kind)
    native = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native', 'faultio.c')
    lib = os.path.join(os.environ['VERIF_SCRATCH'], 'faultio%d.so' % os.getpid())
    if not os.path.exists(lib):
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', lib, native, '-ldl'], check=True)

    def hist(i):
        return [i, list(calc)]
    third = [init, hist(init)[1] + (['set rho'] if kind == 'shell' else ['force skin'])]
    spec = {'system': type(s).__module__.split('.')[-1], 'class': type(s).__name__, 'ext': ext, 'name': name, 'old': hist(init2), 'new': hist(init), 'third': third,
            'all_bytes': tier != 'quick', 'stride': 61}
    env = dict(os.environ, LD_PRELOAD=lib)
    build = next(p for p in sys.path if os.path.exists(os.path.join(p, 'vp_ok')))
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(native), '..', 'savefault.py'), build, lib, json.dumps(spec)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3000)
    if p.returncode or not p.stdout:
        raise RuntimeError('savefault: ' + p.stderr.decode()[-1500:])
    q = json.loads(p.stdout)
    r.transitions += q['faults'] + q['saves']
    r.evals += q['faults']
    r.traces += q['faults']
    r.counts['faults'] += q['faults']
    r.counts['fault_sequences'] += q.get('sequences', 0)
    r.counts['loads_after_faults'] += q['loads']
    for k, v in q['outcomes'].items():
        r.counts['save_' + k] += v
    for st in q['states']:
        r.state_keys.add(('fault', kind, init, name, st))
    r.keys.update(('fault', kind, init, name, st) for st in q['states'])
    for sm in q['samples'][:1]:
        r.sample(dict(kind=kind, events=q['events'], **sm))
    for k, f in q['fails'].items():
        r.fail('fault/' + k, f['msg'], kind=kind, spec=spec, count=f['count'], **f['detail'])
    return r
