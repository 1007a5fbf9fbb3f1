"""Geometric stiffness of a uniform membrane stress state"""
import itertools
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x {Nxx, Nyy, Nxy} unit and mixed states (the matrix is linear in them) x boundary flag sets x lengths x series '
        'sizes x offsets x matrices that carry the stress (geometric matrix, constant part inside the stiffness matrix, with and without '
        'displacements, variable laminate), all entries; non-trivial: reference not zero')
GEOS = [(1.3, 0.7), (0.6, 1.9), (1., 1.)]
RAD = {C.PLATE: None, C.CYL: 0.9}
STATES = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-2.3, 1.7, 0.9), (0., 0., 0.), (1.1, -1.1, 0.), (1., 1., 1.)]
SHAPES = [(4, 5), (5, 4), (1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (7, 4), (4, 7), (8, 8), (2, 13), (13, 2)]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            for k in range(3):
                out.append(('flags', (mod, g, k, tier)))
            out.append(('shapes', (mod, g)))
        for g in GEOS[:2]:
            out.append(('cte', (mod, g)))
        out.append(('embeds', (mod, GEOS[0])))
    return out


def setN(s, N, cte=False):
    e = '_cte' if cte else ''
    for k, v in zip(('Nxx', 'Nyy', 'Nxy'), N):
        setattr(s, k + e, v)


def flags(mod, g, part, tier):
    r = R()
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 3 != part:
            continue
        s = C.shell(mod, *g, 4, 5, r=RAD[mod], flags=fl)
        R0 = ref.Ref(ref.Geo.of(s))
        for N in STATES:
            setN(s, N)
            r.close((mod, g, fn, N), dense(s.calc_kG()), R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-10, fkey='kG/%s/%s' % (mod[:3], fn))
            # only stress and w matter: unit load factor scales the matrix
            setN(s, tuple(3*x for x in N))
            r.close((mod, g, fn, N, '3x'), dense(s.calc_kG()), 3*R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-10, fkey='kG/%s/scaling' % mod[:3])
    return r


def shapes(mod, g):
    r = R()
    for sh in SHAPES:
        for fn, fl in C.all_flagsets(False):
            s = C.shell(mod, *g, *sh, r=RAD[mod], flags=fl)
            R0 = ref.Ref(ref.Geo.of(s))
            for N in STATES[:4]:
                setN(s, N)
                r.close((mod, g, sh, fn, N), dense(s.calc_kG()), R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-10, fkey='kG/%s/shape' % mod[:3])
                K = dense(s.calc_kG(NLgeom=True, nx=max(5, sh[0] + 2), ny=max(5, sh[1] + 2)))
                r.close((mod, g, sh, fn, N, 'num'), K, R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-9, fkey='kG-num/%s/shape' % mod[:3])
    return r


def cte(mod, g):
    """constant part: kC carries the matrix of (Nxx_cte, ...), c_cte adds its own stresses"""
    r = R()
    lam = C.laminates()[8]
    ABD = C.lam_abd(*lam)
    for fn, fl in C.all_flagsets(False):
        s = C.shell(mod, *g, 4, 3, r=RAD[mod], flags=fl, lam=lam)
        geo = ref.Geo.of(s)
        s.nx, s.ny = 10, 9
        R0 = ref.Ref(geo, s.nx, s.ny)
        K0, S0 = R0.kC(ABD), R0.kC_scale(ABD)
        c = C.vec(geo.size, 1, 0.3)
        for N in STATES[:4]:
            for M in STATES[:5]:
                setN(s, N, True)
                setN(s, M)
                G, S = R0.kG(N), R0.kG_scale(N)
                G2, S2 = R0.kG(M), R0.kG_scale(M) + 1e-30
                r.close((mod, g, fn, N, M, 'kC'), dense(s.calc_kC()), K0 + G, S0 + S, 1e-10, fkey='kC+cte/%s' % mod[:3])
                r.close((mod, g, fn, N, M, 'kG'), dense(s.calc_kG()), G2, S2, 1e-10, fkey='kG/cte-ignored/%s' % mod[:3])
                if M == STATES[3]:
                    V = np.broadcast_to(ABD, (s.nx, s.ny, 6, 6)).copy()
                    r.close((mod, g, fn, N, 'var'), dense(s.calc_kC(ABDnxny=V)), K0 + G, S0 + S, 1e-9, fkey='kC+cte-var/%s' % mod[:3])
                    Nc = R0.resultants(ABD, c, False)[:, :3]
                    Sc = R0.kG_scale(abs(Nc) + abs(np.array(N)))
                    r.close((mod, g, fn, N, 'c_cte'), dense(s.calc_kC(c_cte=c)), K0 + R0.kG(Nc + np.array(N)), S0 + Sc, 1e-9, fkey='kC+c_cte/%s' % mod[:3])
                    Kn = R0.kC(ABD, c, True)
                    r.close((mod, g, fn, N, 'NL'), dense(s.calc_kC(c=c, NLgeom=True)), Kn + G, R0.kC_scale(ABD, c, True) + S, 1e-9, fkey='kC+cte-NL/%s' % mod[:3])
                    r.close((mod, g, fn, N, 'kGc'), dense(s.calc_kG(c=c)), R0.kG(Nc + np.array(M)), Sc + S2, 1e-9, fkey='kG+c/%s' % mod[:3])
    return r


def embeds(mod, g):
    r = R()
    for sh in [(3, 4), (4, 2)]:
        s = C.shell(mod, *g, *sh, r=RAD[mod])
        setN(s, STATES[3])
        R0 = ref.Ref(ref.Geo.of(s))
        K, S = R0.kG(STATES[3]), R0.kG_scale(STATES[3]).max()
        n = 3*sh[0]*sh[1]
        for r0 in (0, 3, 12, 31):
            for extra in (0, 1, 7):
                for nl in (False, True):
                    for size in (n + r0 + extra, '+%d' % (r0 + extra)):
                        got = dense(s.calc_kG(size=size, row0=r0, col0=r0, NLgeom=nl))
                        r.close((mod, sh, r0, extra, str(size), nl), got, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kG/embed')
                        raw = dense(s.calc_kG(size=size, row0=r0, col0=r0, finalize=False, NLgeom=nl))
                        sym = np.triu(raw) + np.triu(raw, 1).T
                        r.close((mod, sh, r0, extra, str(size), nl, 'raw'), sym, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kG/embed-raw')
    return r
