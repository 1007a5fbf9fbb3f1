"""A calculation that failed or was interrupted half-way can be repeated"""
import os
import numpy as np
import common as C
import faults
from explore import Explorer, outcome
from harness import R
import checks.C14 as c14
import checks.C15 as c15
import checks.C22 as c22

LEVEL = 'model_checking'
RULE = ('every calculation of shells, assemblies and bays x every call it makes (quick: first, second and last time from each place): the call fails (or is interrupted) and the calculation is left half-way; afterwards the definition is as before and every calculation gives the results of a '
        'fresh object in a pristine process; fresh and used objects; thorough: all pairs of crash points (an interrupted repetition of an interrupted calculation)')
SYS = dict(shell=c14.Shells, assembly=c15.Assembly, bay=c22.Bays)
LOADED = dict(shell=dict(loads=tuple(c14.LOADS)), assembly=dict(loads=tuple(c15.LOADS)), bay={})
# these define as they calculate (new connections), or write files (C18)
NOT = ('kC conn A', 'kC conn B', 'get conn B', 'save', 'wrong c', 'twin', 'other')


def ops(s):
    return [o for o in s.calcs if o not in NOT]


def defs(s, tier):
    d = s.initials()
    names = [k for k in d if k in (('first', 'mixed') if tier == 'quick' else ('first', 'second', 'mixed', 'mixed2'))]
    return names


def prepare(s, d, used):
    o = s.make(d)
    if used:
        for c in ops(s):
            outcome(lambda: s.apply_calc(o, c, d))
    return o


def interrupted(s, o, op, d, at, action):
    """crash point reached, or None"""
    p = faults.Points(action, at)
    try:
        with p, np.errstate(all='ignore'):
            s.apply_calc(o, op, d)
    except (faults.Cut, faults.Fault):
        pass
    except Exception:
        if not p.done:
            return None
    return p.where if p.done else None


def t_cut(kind, init, op, used, how, two, tier):
    r = R()
    s = SYS[kind]()
    x = Explorer(s)
    d = dict(s.initials()[init], **(LOADED[kind] if init == 'mixed' else {}))
    action = getattr(faults, how)
    allc = ops(s)
    count = faults.Points()
    o = prepare(s, d, used)
    try:
        with count, np.errstate(all='ignore'):
            s.apply_calc(o, op, d)
    except Exception:
        pass
    total = count.n
    # every call (thorough), or the first, second and last time it is made from each place
    where = {}
    for k, site in enumerate(count.sites, 1):
        where.setdefault(site, []).append(k)
    pts = list(range(1, total + 1)) if tier == 'thorough' else sorted({k for v in where.values() for k in v[:2] + v[-1:]})
    first = allc.index(op)
    fresh = True     # an used object goes on being used
    for k in pts:
        for k2 in ([None] if not two else pts):
            if fresh or not used:
                o = prepare(s, d, used)
            fresh = False
            w = interrupted(s, o, op, d, k, action)
            if w is None:
                r.counts['not reached'] += 1
                fresh = True
                continue
            if k2 is not None and interrupted(s, o, op, d, k2, action) is None:
                continue
            r.states += 1
            r.state_keys.add((kind, op) + w)
            bad = s.intact(o, d)
            if bad:
                fresh = True
                r.fail('definition/%s/%s' % (kind, op), 'after a failure in %s, %s: %s' % (op, w, bad), init=init, point=[k, k2], used=used, how=how)
            # the same calculation again, then the others, each of them first for some crash point
            rest = allc[first + 1:] + allc[:first]
            z = (k + (k2 or 0)) % max(len(rest), 1)
            order = ([op] + rest[z:] + rest[:z]) if k % 2 else (rest[z:] + rest[:z] + [op])
            for c in order[:3 if two else None]:
                r.transitions += 1
                got = outcome(lambda: s.apply_calc(o, c, d))
                e = x.expected(d, c)
                r.evals += 1
                if e[0] == 'ok':
                    r.keys.add(hash((kind, init, op, k, c)))
                why = x.same(got, e)
                if why:
                    fresh = True
                    r.fail('%s/%s/%s' % (kind, op, c), '%s after a failure in %s, %s: %s' % (c, op, w, why), init=init, point=[k, k2], used=used, how=how)
                    break
            if len(r.samples) < 1:
                r.sample(dict(kind=kind, calculation=op, init=init, call=list(w), then=order[:3]))
    return r


def jobs(tier, seed):
    out = []
    for kind, S in SYS.items():
        s = S()
        for op in ops(s):
            for init in defs(s, tier):
                for used in (False, True):
                    for how in (('fault', 'cut') if tier == 'thorough' else ('cut',) if (used + (init == 'first')) % 2 else ('fault',)):
                        out.append(('t_cut', (kind, init, op, used, how, False, tier)))
            if tier == 'thorough' and op in ('kC', 'kC c', 'kA', 'fint', 'stress', 'stress s'):
                out.append(('t_cut', (kind, 'mixed', op, False, 'fault', True, 'quick')))
    return out
