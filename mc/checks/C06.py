"""Mass matrix = second variation of the kinetic energy"""
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x (density, thickness, offset) x boundary flag sets x lengths x series sizes x embeddings x both evaluation '
        'paths (uniform, and thickness/density per integration point), all entries; non-trivial: reference not zero')
GEOS = [(1.3, 0.7), (0.6, 1.9), (1., 1.)]
RAD = {C.PLATE: None, C.CYL: 0.9}
SHAPES = [(4, 5), (5, 4), (1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (7, 4), (4, 7), (8, 8), (2, 13), (13, 2)]
LAY = [([0.], [0.2], 0., [1.3]), ([0., 40.], [0.1, 0.25], 0.17, [2.1, 0.4]), ([10., 20., 30.], [0.1, 0.02, 0.3], -0.31, [1., 3., 0.5]),
       ([0., 0.], [0.3, 0.3], 0.3, [1.9, 1.9])]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            for k in range(3):
                out.append(('flags', (mod, g, k)))
            out.append(('shapes', (mod, g)))
        out.append(('variable', (mod, GEOS[0])))
        out.append(('variable', (mod, GEOS[1])))
        out.append(('embeds', (mod, GEOS[0])))
    return out


def moments(pl, off, rhos):
    """through-thickness average density, as documented"""
    h = sum(pl)
    rho = sum(t*p for t, p in zip(pl, rhos))/h
    return rho*h, rho*h*off, rho*(h**3/12 + h*off**2)


def mk(mod, g, sh, lay, fl, perply):
    st, pl, off, rhos = lay
    s = C.shell(mod, *g, *sh, r=RAD[mod], lam=(st, pl, [C.MAT]*len(st), off), flags=fl)
    if perply:
        s.rhos = list(rhos)
        return s, moments(pl, off, rhos)
    s.rho = rhos[0]
    return s, moments(pl, off, [rhos[0]]*len(pl))


def flags(mod, g, part):
    r = R()
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 3 != part:
            continue
        R0 = None
        for li, lay in enumerate(LAY):
            for pp in (False, True):
                s, I = mk(mod, g, (4, 5), lay, fl, pp)
                R0 = R0 or ref.Ref(ref.Geo.of(s))
                E, S = R0.kM(*I), R0.kM(*map(abs, I), scale=True) + 1e-30
                r.close((mod, g, fn, li, pp), dense(s.calc_kM()), E, S, 1e-10, fkey='kM/%s/%s' % (mod[:3], fn))
    return r


def shapes(mod, g):
    r = R()
    for sh in SHAPES:
        for fn, fl in C.all_flagsets(False):
            s, I = mk(mod, g, sh, LAY[1], fl, True)
            R0 = ref.Ref(ref.Geo.of(s))
            E, S = R0.kM(*I), R0.kM(*map(abs, I), scale=True) + 1e-30
            r.close((mod, g, sh, fn), dense(s.calc_kM()), E, S, 1e-10, fkey='kM/%s/shape' % mod[:3])
            w = np.linalg.eigvalsh(E)[0] if sh[0]*sh[1] < 40 else 0.
            if w < -1e-9*abs(E).max():
                r.fail('kM/indefinite', 'reference mass not positive %r' % w)
    return r


def variable(mod, g):
    """thickness and/or density per integration point, any number of points"""
    r = R()
    for sh in [(4, 3), (3, 5), (1, 2)]:
        for fn, fl in C.all_flagsets(False):
            for nx, ny in [(9, 8), (5, 11), (7, 7)]:
                for li in (1, 2):
                    s, I = mk(mod, g, sh, LAY[li], fl, True)
                    off = LAY[li][2]
                    R0 = ref.Ref(ref.Geo.of(s), nx, ny)
                    x, y = R0.x.reshape(nx, ny), R0.y.reshape(nx, ny)
                    H = 0.3 + 0.1*x - 0.07*y*y + 0.01*np.sin(9*x)
                    P = 1.1 + 0.3*y + 0.2*x*x
                    h0 = sum(LAY[li][1])
                    p0 = I[0]/h0
                    for h, p in ((H, None), (None, P), (H, P), (np.full_like(H, h0), None)):
                        got = dense(s.calc_kM(h_nxny=h, rho_nxny=p, nx=nx, ny=ny))
                        hh = (np.full_like(H, h0) if h is None else h).ravel()
                        pp = (np.full_like(P, p0) if p is None else p).ravel()
                        J = pp*hh, pp*hh*off, pp*(hh**3/12 + hh*off**2)
                        r.close((mod, g, sh, fn, nx, ny, li, h is None, p is None), got, R0.kM(*J), R0.kM(*map(abs, J), scale=True) + 1e-30,
                                1e-9, fkey='kM-var/%s' % mod[:3])
    return r


def embeds(mod, g):
    r = R()
    for sh in [(3, 4), (4, 2)]:
        s, I = mk(mod, g, sh, LAY[2], C.flags_distinct(), True)
        R0 = ref.Ref(ref.Geo.of(s))
        K, S = R0.kM(*I), R0.kM(*map(abs, I), scale=True).max()
        n = 3*sh[0]*sh[1]
        h = np.full((9, 9), sum(LAY[2][1]))
        for r0 in (0, 3, 12, 31):
            for extra in (0, 1, 7):
                for kw in ({}, dict(h_nxny=h, nx=9, ny=9)):
                    for size in (n + r0 + extra, '+%d' % (r0 + extra)):
                        got = dense(s.calc_kM(size=size, row0=r0, col0=r0, **kw))
                        r.close((mod, sh, r0, extra, str(size), bool(kw)), got, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kM/embed')
                        raw = dense(s.calc_kM(size=size, row0=r0, col0=r0, finalize=False, **kw))
                        sym = np.triu(raw) + np.triu(raw, 1).T
                        r.close((mod, sh, r0, extra, str(size), bool(kw), 'raw'), sym, C.embed(K, n + r0 + extra, r0), S, 1e-9, fkey='kM/embed-raw')
    return r
