"""External force vector = virtual work of the applied loads and prescribed displacements"""
import itertools
import numpy as np
import common as C
import ref
from harness import R

LEVEL = 'exploration'
RULE = ('product of models x load kinds (point, line along x, line along y, prescribed displacement at a point and along lines) x constant / '
        'incremented x components x positions incl. edges and corners x load-function monomials up to the exactly integrated degree x load factors x '
        'flags x embeddings, and all sequences of up to 3 loads; every entry; non-trivial: reference not zero')
GEOS = [(1.3, 0.7), (0.6, 1.9)]
RAD = {C.PLATE: None, C.CYL: 0.9}
POS = [0., 0.3, 0.5, 0.85, 1.]
INC = [1., 0., 0.37, -2.]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            out += [('points', (mod, g)), ('lines', (mod, g, 'x')), ('lines', (mod, g, 'y')), ('flags', (mod, g))]
        out += [('sequences', (mod, GEOS[0], k)) for k in range(3)]
        out += [('embeds', (mod, GEOS[1])), ('shapes', (mod, GEOS[0]))]
    return out


def prow(geo, x, y, F):
    x, y = np.array([x]), np.array([y])
    return sum(f*geo.rows(x, y, k)[0] for k, f in zip('uvw', F))


def lrow(geo, fixed, pos, funcs):
    """fixed='x': line x=pos; integrals with 40 points"""
    p, w = ref.gauss(40)
    L = geo.b if fixed == 'x' else geo.a
    t = (p + 1)/2*L
    W = w*L/2
    x = np.full(40, pos) if fixed == 'x' else t
    y = t if fixed == 'x' else np.full(40, pos)
    out = np.zeros(geo.size)
    for k, f in zip('uvw', funcs):
        if f is not None:
            out += (W*np.array([f(v) for v in t]))@geo.rows(x, y, k)
    return out


def poly(d, k=1.):
    return lambda t: k*(t**d + 0.25)


def points(mod, g):
    r = R()
    s0 = C.shell(mod, *g, 5, 4, r=RAD[mod])
    geo = ref.Geo.of(s0)
    for fx, fy in itertools.product(POS, POS):
        x, y = fx*g[0], fy*g[1]
        for F in ((2., 0, 0), (0, -3., 0), (0, 0, 5.), (1., 2., 3.), (0., 0., 0.)):
            e = prow(geo, x, y, F)
            for cte in (True, False):
                for inc in INC:
                    k = 1. if cte else inc
                    s = C.shell(mod, *g, 5, 4, r=RAD[mod])
                    s.add_point_load(x, y, *F, cte=cte)
                    r.close((mod, g, 'pl', fx, fy, F, cte, inc), s.calc_fext(inc=inc), k*e, 10., 1e-12, fkey='point-load/%s' % mod[:3])
                    s = C.shell(mod, *g, 5, 4, r=RAD[mod])
                    s.add_point_pd(x, y, 7., F[0], 11., F[1], 13., F[2], cte=cte)
                    e2 = prow(geo, x, y, (7*F[0], 11*F[1], 13*F[2]))
                    r.close((mod, g, 'pd', fx, fy, F, cte, inc), s.calc_fext(inc=inc), k*e2, 100., 1e-12, fkey='point-pd/%s' % mod[:3])
    return r


def lines(mod, g, fixed):
    r = R()
    m, n = 4, 5
    for pos in POS:
        p = pos*(g[0] if fixed == 'x' else g[1])
        for comp in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 0, 1)):
            for d in range(4):
                fs = [poly(d, 1.3*(q + 1)) if comp[q] else None for q in range(3)]
                for cte in (True, False):
                    for inc in INC[:3]:
                        s = C.shell(mod, *g, m, n, r=RAD[mod])
                        geo = ref.Geo.of(s)
                        e = lrow(geo, fixed, p, fs)*(1. if cte else inc)
                        (s.add_distr_load_fixed_x if fixed == 'x' else s.add_distr_load_fixed_y)(p, *fs, cte=cte)
                        r.close((mod, g, fixed, pos, comp, d, cte, inc), s.calc_fext(inc=inc), e, 10., 1e-12, fkey='line-load-%s/%s' % (fixed, mod[:3]))
                        s = C.shell(mod, *g, m, n, r=RAD[mod])
                        ks = [k if f else None for k, f in zip((3., 5., 7.), fs)]
                        (s.add_distr_pd_fixed_x if fixed == 'x' else s.add_distr_pd_fixed_y)(p, *ks, *fs, cte=cte)
                        f2 = [None if f is None else (lambda t, f=f, k=k: k*f(t)) for f, k in zip(fs, ks)]
                        r.close((mod, g, fixed, pos, comp, d, cte, inc, 'pd'), s.calc_fext(inc=inc), lrow(geo, fixed, p, f2)*(1. if cte else inc), 50., 1e-12,
                                fkey='line-pd-%s/%s' % (fixed, mod[:3]))
    return r


def menu(g):
    a, b = g
    f = poly(2, 1.1)
    h = poly(1, -0.7)
    return [('pl', lambda s: s.add_point_load(.3*a, .2*b, 1., 2., 3.), lambda q, i: prow(q, .3*a, .2*b, (1, 2, 3))),
            ('pli', lambda s: s.add_point_load(.6*a, .2*b, -1., 2., .5, cte=False), lambda q, i: i*prow(q, .6*a, .2*b, (-1, 2, .5))),
            ('ppd', lambda s: s.add_point_pd(.6*a, .9*b, 2., .1, 3., .2, 4., .3), lambda q, i: prow(q, .6*a, .9*b, (.2, .6, 1.2))),
            ('ppdi', lambda s: s.add_point_pd(.1*a, .9*b, 2., .1, 3., .2, 4., .3, cte=False), lambda q, i: i*prow(q, .1*a, .9*b, (.2, .6, 1.2))),
            ('lx', lambda s: s.add_distr_load_fixed_x(.4*a, f, None, h), lambda q, i: lrow(q, 'x', .4*a, (f, None, h))),
            ('lxi', lambda s: s.add_distr_load_fixed_x(a, None, h, None, cte=False), lambda q, i: i*lrow(q, 'x', a, (None, h, None))),
            ('ly', lambda s: s.add_distr_load_fixed_y(.7*b, h, f, None), lambda q, i: lrow(q, 'y', .7*b, (h, f, None))),
            ('lyi', lambda s: s.add_distr_load_fixed_y(0., None, None, f, cte=False), lambda q, i: i*lrow(q, 'y', 0., (None, None, f))),
            ('dx', lambda s: s.add_distr_pd_fixed_x(.4*a, 2., None, 3., f, None, h), lambda q, i: lrow(q, 'x', .4*a, (poly(2, 2.2), None, poly(1, -2.1)))),
            ('dxi', lambda s: s.add_distr_pd_fixed_x(0., None, 5., None, None, h, None, cte=False), lambda q, i: i*lrow(q, 'x', 0., (None, poly(1, -3.5), None))),
            ('dy', lambda s: s.add_distr_pd_fixed_y(.7*b, 2., 3., None, f, h, None), lambda q, i: lrow(q, 'y', .7*b, (poly(2, 2.2), poly(1, -2.1), None))),
            ('dyi', lambda s: s.add_distr_pd_fixed_y(b, None, None, 5., None, None, f, cte=False), lambda q, i: i*lrow(q, 'y', b, (None, None, poly(2, 5.5))))]


def sequences(mod, g, part):
    """all sequences of up to two loads with repetition, all triples of different kinds; calls repeated with other load factors"""
    r = R()
    M = menu(g)
    idx = range(len(M))
    geo = ref.Geo.of(C.shell(mod, *g, 4, 3, r=RAD[mod]))
    E = {}
    for k in idx:
        for inc in INC[:3]:
            E[k, inc] = M[k][2](geo, inc)
    seqs = [()] + [(i,) for i in idx] + list(itertools.product(idx, repeat=2)) + list(itertools.combinations(idx, 3))
    for qi, seq in enumerate(seqs):
        if qi % 3 != part:
            continue
        s = C.shell(mod, *g, 4, 3, r=RAD[mod])
        for k in seq:
            M[k][1](s)
        for inc in (1., 0.37, 0., 1.):
            e = sum((E[k, inc] for k in seq), np.zeros(geo.size))
            r.close((mod, tuple(M[k][0] for k in seq), inc), s.calc_fext(inc=inc), e, 20., 1e-12, fkey='sequence/%s' % mod[:3])
        if seq:
            s2 = C.shell(mod, *g, 4, 3, r=RAD[mod])
            r.close((mod, 'other shell', tuple(M[k][0] for k in seq)), s2.calc_fext(), np.zeros(geo.size), 1., 1e-12, fkey='sequence/leak')
    return r


def flags(mod, g):
    r = R()
    M = menu(g)
    for fn, fl in C.all_flagsets():
        s = C.shell(mod, *g, 5, 4, r=RAD[mod], flags=fl)
        geo = ref.Geo.of(s)
        for k in (0, 4, 6, 8, 10):
            s = C.shell(mod, *g, 5, 4, r=RAD[mod], flags=fl)
            M[k][1](s)
            r.close((mod, g, fn, k), s.calc_fext(), M[k][2](geo, 1.), 20., 1e-12, fkey='flags/%s/%s' % (mod[:3], fn))
    return r


def shapes(mod, g):
    r = R()
    M = menu(g)
    for m in range(1, 8):
        for n in range(1, 8):
            for k in (0, 4, 6, 8, 10):
                s = C.shell(mod, *g, m, n, r=RAD[mod])
                s.nx, s.ny = max(m, 6), max(n, 6)
                geo = ref.Geo.of(s)
                M[k][1](s)
                r.close((mod, g, m, n, k), s.calc_fext(), M[k][2](geo, 1.), 20., 1e-12, fkey='shapes/%s' % mod[:3])
    return r


def embeds(mod, g):
    r = R()
    M = menu(g)
    for sh in [(4, 3), (3, 4)]:
        geo = ref.Geo.of(C.shell(mod, *g, *sh, r=RAD[mod]))
        n = geo.size
        for k in range(len(M)):
            s = C.shell(mod, *g, *sh, r=RAD[mod])
            s.nx = s.ny = 8
            M[k][1](s)
            for r0 in (0, 3, 12, 31):
                for extra in (0, 5):
                    for sz in (n + r0 + extra, '+%d' % (r0 + extra)):
                        e = np.zeros(n + r0 + extra)
                        e[r0:r0 + n] = M[k][2](geo, 0.37)
                        r.close((mod, sh, k, r0, extra, str(sz)), s.calc_fext(inc=0.37, size=sz, col0=r0), e, 20., 1e-12, fkey='embed/%s' % M[k][0])
    return r
