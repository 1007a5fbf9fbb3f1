"""Closed-form integrals of products of Bardell functions"""
import itertools
import numpy as np
import ref
from harness import R

LEVEL = 'exploration'
RULE = ('all 6 integrals x 30 x 30 function pairs x flag sets (distinct values, 0/1 combinations, single flags; the integrals '
        'are bilinear in the flags of both functions); non-trivial: reference integral not zero')
KINDS = {'ff': (0, 0), 'ffp': (0, 1), 'ffpp': (0, 2), 'fpfp': (1, 1), 'fpfpp': (1, 2), 'fppfpp': (2, 2)}


def jobs(tier, seed):
    return [('run', (k, lo, tier)) for k in KINDS for lo in range(0, 30, 6)]


def run(kind, lo, tier):
    from panels import bardell
    r = R()
    fn = getattr(bardell, 'calc_integral_' + kind)
    d1, d2 = KINDS[kind]
    x, w = ref.gauss(48)
    A, B = ref.basis_raw(30, x, d1), ref.basis_raw(30, x, d2)
    I = (A*w[:, None]).T@B
    nA = np.sqrt(np.einsum('pi,pi,p->i', A, A, w))
    nB = np.sqrt(np.einsum('pi,pi,p->i', B, B, w))
    D = (0.31, 0.83, 1.27, 0.59), (1.71, 0.43, 0.97, 1.39)
    units = [tuple(np.eye(4)[k]) for k in range(4)] + [(0.,)*4, (1.,)*4]
    small = [(f, g) for f in itertools.product((0., 1.), repeat=4) for g in itertools.product((0., 1.), repeat=4)]
    sets_hi = [D, ((0.,)*4, (0.,)*4), ((1.,)*4, (1.,)*4)] + ([(u, v) for u in units for v in units] if tier != 'quick' else
                                                          [(u, (1.,)*4) for u in units] + [((1.,)*4, u) for u in units])
    for i in range(lo, lo + 6):
        for j in range(30):
            sets = sets_hi + (small if i < 4 and j < 4 else [])
            got = np.array([fn(i, j, *(f + g)) for f, g in sets])
            exp = np.array([(f[i] if i < 4 else 1.)*(g[j] if j < 4 else 1.)*I[i, j] for f, g in sets])
            r.close((kind, i, j), got, exp, nA[i]*nB[j]*2, 2e-13, fkey='%s/%d/%d' % (kind, i, j))
            r.evals += len(sets) - 1
    return r
