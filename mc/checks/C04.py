"""Linear stiffness matrix = second variation of the strain energy"""
import itertools
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x laminates whose ABD matrices span all 18 stiffness terms (the matrix is linear in them) x boundary flag '
        'sets (24 single flags, distinct non-0/1 values) x lengths x radii x series sizes x embedding offsets, all matrix entries '
        'compared; non-trivial: reference matrix not zero')

GEOS = [(1.3, 0.7), (0.6, 1.9), (1., 1.)]
RAD = {C.PLATE: [None], C.CYL: [0.9, -1.7, 40.]}
SHAPES = [(4, 5), (5, 4), (1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (7, 4), (4, 7), (2, 9), (9, 2), (6, 6)]
BIG = [(30, 1), (1, 30), (2, 30), (30, 2), (12, 11), (17, 3), (3, 17), (22, 4), (4, 22), (9, 13), (13, 9)]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for r in RAD[mod]:
            for g in GEOS:
                for part in range(4):
                    out.append(('flags', (mod, r, g, part, tier)))
            for g in GEOS[:2]:
                for sh in SHAPES:
                    out.append(('shapes', (mod, r, g, sh)))
        for sh in BIG:
            out.append(('big', (mod, RAD[mod][0], GEOS[0], sh)))
        out.append(('embeds', (mod, RAD[mod][0], GEOS[1])))
        out.append(('options', (mod, RAD[mod][0], GEOS[1])))
    out.append(('span', ()))
    return out


def one(r, key, s, R0, ABD, fkey, **kw):
    K = dense(s.calc_kC(**kw))
    r.close(key, K, R0.kC(ABD), R0.kC_scale(ABD), 1e-9, fkey=fkey)
    return K


def flags(mod, rad, g, part, tier):
    r = R()
    lams = C.laminates()
    fs = C.all_flagsets()
    if tier == 'quick':
        use = [l for l in range(len(lams))]
    shp = (4, 5) if tier == 'quick' else (6, 7)
    for fi, (fn, fl) in enumerate(fs):
        if fi % 4 != part:
            continue
        R0 = None
        for li, lam in enumerate(lams):
            s = C.shell(mod, *g, *shp, r=rad, lam=lam, flags=fl)
            if R0 is None:
                R0 = ref.Ref(ref.Geo.of(s))
            one(r, (mod, rad, g, fn, li), s, R0, C.lam_abd(*lam), 'kC/%s/%s' % (mod[:3], fn))
    return r


def shapes(mod, rad, g, sh):
    r = R()
    lams = C.laminates()
    for fn, fl in C.all_flagsets(False) + [('distinct11', C.flags_distinct(11))]:
        R0 = None
        for li in range(0, 24, 5):
            s = C.shell(mod, *g, *sh, r=rad, lam=lams[li], flags=fl)
            if R0 is None:
                R0 = ref.Ref(ref.Geo.of(s))
            one(r, (mod, rad, g, sh, fn, li), s, R0, C.lam_abd(*lams[li]), 'kC/%s/shape' % mod[:3])
    return r


def big(mod, rad, g, sh):
    r = R()
    lam = C.laminates()[7]
    s = C.shell(mod, *g, *sh, r=rad, lam=lam, flags=C.flags_distinct(3))
    geo = ref.Geo.of(s)
    R0 = ref.Ref(geo, max(3, sh[0]) + 2, max(3, sh[1]) + 2)
    one(r, (mod, sh), s, R0, C.lam_abd(*lam), 'kC/%s/big' % mod[:3])
    return r


def embeds(mod, rad, g):
    r = R()
    lam = C.laminates()[10]
    for sh in [(3, 4), (4, 2)]:
        s = C.shell(mod, *g, *sh, r=rad, lam=lam)
        R0 = ref.Ref(ref.Geo.of(s))
        K = R0.kC(C.lam_abd(*lam))
        S = R0.kC_scale(C.lam_abd(*lam)).max()
        n = 3*sh[0]*sh[1]
        for r0 in (0, 3, 12, 31):
            for extra in (0, 1, 7):
                for size in (n + r0 + extra, '+%d' % (r0 + extra)):
                    got = dense(s.calc_kC(size=size, row0=r0, col0=r0))
                    r.close((mod, sh, r0, extra, str(size)), got, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kC/embed')
                    raw = dense(s.calc_kC(size=size, row0=r0, col0=r0, finalize=False))
                    sym = np.triu(raw) + np.triu(raw, 1).T
                    r.close((mod, sh, r0, extra, str(size), 'raw'), sym, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kC/embed-raw')
    return r


def options(mod, rad, g):
    """inputs given in the two documented ways, orthotropic option, automatic model"""
    from panels import Shell
    r = R()
    fl = C.flags_distinct(2)
    for st in ([0.], [30., -50.], [45., 0., 90.]):
        for plyt in (0.03, 0.11):
            for off in (0., 0.04):
                for forced in (False, True):
                    s = Shell(a=g[0], b=g[1], r=rad, stack=st, plyt=plyt, laminaprop=C.MAT, m=4, n=3, offset=off, **fl)
                    s.force_orthotropic_laminate = forced
                    ABD = C.lam_abd(st, [plyt]*len(st), [C.MAT]*len(st), off)
                    if forced:
                        M = np.ones((6, 6))
                        for i in (2, 5):
                            for j in (0, 1, 3, 4):
                                M[i, j] = M[j, i] = 0
                        ABD = ABD*M
                    R0 = ref.Ref(ref.Geo.of(s))
                    one(r, (mod, tuple(st), plyt, off, forced), s, R0, ABD, 'kC/options')
                    if s.model != mod:
                        r.fail('kC/automodel', 'model %s for r=%r' % (s.model, rad))
    return r


def span():
    r = R()
    M = np.array([C.sym18(C.lam_abd(*l)) for l in C.laminates()])
    M /= abs(M).max(axis=0)
    sv = np.linalg.svd(M, compute_uv=False)
    r.case('rank18', True)
    assert sv[-1] > 1e-9*sv[0] and len(sv) == 18, sv
    r.counts['laminate_space_rank'] = int((sv > 1e-9*sv[0]).sum())
    return r
