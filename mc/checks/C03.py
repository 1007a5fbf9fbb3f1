"""Legendre-Gauss rules for every number of points"""
import numpy as np
from numpy.polynomial import legendre as L
from harness import R

LEVEL = 'exploration'
RULE = ('all numbers of points n in the range: nodes inside (-1,1), increasing, symmetric; weights positive; all Legendre '
        'polynomials of degree 0..2n-1 integrated exactly (a basis, so every polynomial of that degree); non-trivial: n >= 2')


def jobs(tier, seed):
    top = 100 if tier == 'quick' else 300
    return [('run', (lo, min(lo + 8, top))) for lo in range(1, top, 8)]


def run(lo, hi):
    from panels.legendre_gauss_quadrature import get_points_weights
    r = R()
    for n in range(lo, hi):
        p = np.zeros(n + 2)
        w = np.zeros(n + 2)
        p[n:] = w[n:] = 77.
        get_points_weights(n, p, w)
        if (p[n:] != 77.).any() or (w[n:] != 77.).any():
            r.fail('overrun', 'more than n=%d values written' % n)
        p, w = p[:n], w[:n]
        r.case(('n', n), n > 1)
        if not (np.all(np.diff(p) > 0) and p[0] > -1 and p[-1] < 1):
            r.fail('nodes/%d' % n, 'nodes not increasing inside (-1, 1) for n=%d' % n)
        if not np.all(w > 0):
            r.fail('weights/%d' % n, 'weights not positive for n=%d' % n)
        r.close(('sym', n), p, -p[::-1], 1., 1e-14, fkey='nodes/%d' % n)
        mom = w@L.legvander(p, 2*n - 1)
        e = np.zeros(2*n)
        e[0] = 2.
        r.close(('moments', n), mom, e, 1., 4e-14*max(1, n/16.), fkey='moments/%d' % n)
        if n <= 40:
            bad = w@L.legval(p, np.eye(2*n + 1)[2*n])
            r.case(('sharp', n, round(bad, 3)))
    return r
