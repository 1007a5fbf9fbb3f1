"""Bardell functions, their derivatives: scalar = vector = definition"""
import itertools
import numpy as np
import ref
from harness import R

LEVEL = 'exploration'
RULE = ('all (function 0..29, derivative 0..2, flag set, abscissa) of a product grid; 41 abscissae determine a polynomial '
        'of degree <= 29, and the functions are linear in one flag each, so the grid decides all inputs; '
        'non-trivial: reference value not identically zero')


def jobs(tier, seed):
    npt = 41 if tier == 'quick' else 121
    fl = [0., 1., 0.37] if tier == 'quick' else [0., 1., 0.37, -2.5]
    return [('run', (d, npt, t1, tuple(fl))) for d in range(3) for t1 in fl]


def mono_abs(n, xi, d):
    from numpy.polynomial import legendre as L, polynomial as P
    out = np.empty((len(xi), n))
    for i in range(n):
        c = L.leg2poly(ref.leg_coefs(i))
        if d:
            c = P.polyder(c, d)
        out[:, i] = P.polyval(abs(xi), abs(c))
    return out


def run(d, npt, t1, fl):
    from panels import bardell
    r = R()
    sf = (bardell.calc_f, bardell.calc_fp, bardell.calc_fpp)[d]
    vf = (bardell.calc_vec_f, bardell.calc_vec_fp, bardell.calc_vec_fpp)[d]
    xis = np.concatenate((np.cos(np.pi*np.arange(npt)/(npt - 1)), [0.]))
    E = ref.basis_raw(30, xis, d)
    S = mono_abs(30, xis, d) + 1e-3
    for r1, t2, r2 in itertools.product(fl, repeat=3):
        F = ref.flagvec(t1, r1, t2, r2)
        G = np.array([[sf(i, x, t1, r1, t2, r2) for i in range(30)] for x in xis])
        V = np.array([vf(x, t1, r1, t2, r2) for x in xis])
        key = ('d%d' % d, t1, r1, t2, r2)
        for i in range(30):
            r.close(key + ('scalar', i), G[:, i], E[:, i]*F[i], S[:, i]*max(1, abs(F[i])), 4e-14, fkey='scalar/d%d/f%d' % (d, i))
            r.close(key + ('vector', i), V[:, i], E[:, i]*F[i], S[:, i]*max(1, abs(F[i])), 4e-14, fkey='vector/d%d/f%d' % (d, i))
    return r
