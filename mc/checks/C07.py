"""Quadrature evaluation path: variable laminates, any number of points, parts of the domain"""
import itertools
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x {18 unit stiffness terms} x {uniform, per-point distinct, one point at a time} x numbers of points along x and '
        'y x boundary flags x sub-domains (all rectangles of a grid, and all partitions), all entries; non-trivial: reference not zero')
GEOS = [(1.3, 0.7), (0.6, 1.9)]
RAD = {C.PLATE: None, C.CYL: 0.9}
Q = [(6, 7), (8, 5), (5, 5)]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            for k in range(3):
                out.append(('units', (mod, g, k)))
            for k in range(3):
                out.append(('flags', (mod, g, k)))
            out.append(('points', (mod, g)))
            for k in range(3):
                out.append(('parts', (mod, g, k, tier)))
        out.append(('embeds', (mod, GEOS[0])))
        out.append(('numbers', (mod, GEOS[0])))
    return out


def field(M, nx, ny):
    """per-point stiffness, different at every point"""
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    return (1.3 + 0.37*i - 0.21*j + 0.05*i*j)[..., None, None]*M


def units(mod, g, k):
    r = R()
    for ui, M in enumerate(C.abd_units()):
        if ui % 3 != k:
            continue
        for nx, ny in Q:
            s = C.shell(mod, *g, 4, 3, r=RAD[mod])
            R0 = ref.Ref(ref.Geo.of(s), nx, ny)
            V = field(M, nx, ny)
            r.close((mod, g, ui, nx, ny, 'var'), dense(s.calc_kC(ABDnxny=V, nx=nx, ny=ny)), R0.kC(V), R0.kC_scale(V), 1e-9,
                    fkey='kC-var/%s/%d' % (mod[:3], ui))
            r.close((mod, g, ui, nx, ny, 'cte'), dense(s.calc_kC(ABDnxny=M, nx=nx, ny=ny)), R0.kC(M), R0.kC_scale(M), 1e-9,
                    fkey='kC-cte/%s/%d' % (mod[:3], ui))
            s.nx, s.ny = nx, ny
            r.close((mod, g, ui, nx, ny, 'attr'), dense(s.calc_kC(ABDnxny=V)), R0.kC(V), R0.kC_scale(V), 1e-9,
                    fkey='kC-var-attr/%s/%d' % (mod[:3], ui))
            for lin in range(2):
                c = C.vec(R0.g.size, lin, 0.4)
                N = R0.resultants(V, c, False)[:, :3]
                r.close((mod, g, ui, nx, ny, 'kG', lin), dense(s.calc_kG(c=c, ABDnxny=V, nx=nx, ny=ny)), R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-8,
                        fkey='kG-var/%s/%d' % (mod[:3], ui))
    return r


def flags(mod, g, k):
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 3 != k:
            continue
        s = C.shell(mod, *g, 5, 4, r=RAD[mod], flags=fl, lam=lam)
        R0 = ref.Ref(ref.Geo.of(s), 7, 6)
        V = np.broadcast_to(ABD, (7, 6, 6, 6)).copy()
        r.close((mod, g, fn, 'kC'), dense(s.calc_kC(ABDnxny=V, nx=7, ny=6)), R0.kC(ABD), R0.kC_scale(ABD), 1e-9, fkey='kC-num/%s/%s' % (mod[:3], fn))
        A = dense(s.calc_kC())
        r.close((mod, g, fn, 'paths'), dense(s.calc_kC(ABDnxny=ABD, nx=9, ny=9)), A, R0.kC_scale(ABD), 1e-9, fkey='paths/%s/%s' % (mod[:3], fn))
        c = C.vec(R0.g.size, 2, 0.4)
        N = R0.resultants(ABD, c, False)[:, :3]
        r.close((mod, g, fn, 'kG'), dense(s.calc_kG(c=c, nx=7, ny=6)), R0.kG(N), R0.kG_scale(N) + 1e-30, 1e-8, fkey='kG-num/%s/%s' % (mod[:3], fn))
    return r


def points(mod, g):
    """one integration point at a time carries the stiffness, every point of the grid"""
    r = R()
    M = sum((1 + 0.1*i)*u for i, u in enumerate(C.abd_units()))
    for nx, ny in [(5, 4), (3, 6)]:
        s = C.shell(mod, *g, 3, 4, r=RAD[mod])
        R0 = ref.Ref(ref.Geo.of(s), nx, ny)
        s.nx = s.ny = 9
        for i in range(nx):
            for j in range(ny):
                V = np.zeros((nx, ny, 6, 6))
                V[i, j] = M
                r.close((mod, g, nx, ny, i, j), dense(s.calc_kC(ABDnxny=V, nx=nx, ny=ny)), R0.kC(V), R0.kC_scale(V).max(), 1e-10, fkey='kC-point/%s' % mod[:3])
    return r


def numbers(mod, g):
    """every pair of numbers of integration points"""
    r = R()
    ABD = C.lam_abd(*C.laminates()[9])
    s = C.shell(mod, *g, 2, 3, r=RAD[mod], lam=C.laminates()[9])
    for nx in list(range(2, 14)) + [33, 64, 70]:
        for ny in list(range(2, 14)) + [33, 64, 70]:
            R0 = ref.Ref(ref.Geo.of(s), nx, ny)
            r.close((mod, g, nx, ny), dense(s.calc_kC(c=np.zeros(R0.g.size), nx=nx, ny=ny)), R0.kC(ABD), R0.kC_scale(ABD).max(), 1e-9, fkey='kC-npts/%s' % mod[:3])
    return r


CUTX = [0., 0.2, 0.55, 1.]
CUTY = [0., 0.35, 0.8, 1.]


def parts(mod, g, k, tier):
    """all rectangles of a 3x3 grid: value of each, and sums over complete partitions"""
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    fl = [C.flags_distinct(), C.flags_const(1), C.flags_default()][k]
    I = (1.1*sum(lam[1]), 1.1*sum(lam[1])*lam[3], 1.1*(sum(lam[1])**3/12 + sum(lam[1])*lam[3]**2))
    tot = {}
    full = C.shell(mod, *g, 4, 5, r=RAD[mod], flags=fl, lam=lam, rho=1.1, Nxx=1., Nyy=-2., Nxy=0.7)
    c = C.vec(60, k, 0.3)
    for i1, i2 in itertools.combinations(range(4), 2):
        for j1, j2 in itertools.combinations(range(4), 2):
            for how in ('xy', 'x', 'y'):
                if how == 'x' and (j1, j2) != (0, 3) or how == 'y' and (i1, i2) != (0, 3):
                    continue
                s = C.shell(mod, *g, 4, 5, r=RAD[mod], flags=fl, lam=lam, rho=1.1, Nxx=1., Nyy=-2., Nxy=0.7)
                if 'x' in how:
                    s.x1, s.x2 = CUTX[i1]*g[0], CUTX[i2]*g[0]
                if 'y' in how:
                    s.y1, s.y2 = CUTY[j1]*g[1], CUTY[j2]*g[1]
                s.nx = s.ny = 9
                R0 = ref.Ref(ref.Geo.of(s, partial=True), 9, 9)
                N = (1., -2., 0.7)
                Nc = R0.resultants(ABD, c, False)[:, :3] + np.array(N)
                mats = dict(kC=(lambda: s.calc_kC(), R0.kC(ABD), R0.kC_scale(ABD)),
                            kG=(lambda: s.calc_kG(), R0.kG(N), R0.kG_scale(N) + 1e-30),
                            kM=(lambda: s.calc_kM(), R0.kM(*I), R0.kM(*map(abs, I), scale=True) + 1e-30),
                            kCv=(lambda: s.calc_kC(ABDnxny=field(ABD, 9, 9)), R0.kC(field(ABD, 9, 9)), R0.kC_scale(field(ABD, 9, 9))),
                            kGc=(lambda: s.calc_kG(c=c), R0.kG(Nc), R0.kG_scale(Nc)),
                            kMv=(lambda: s.calc_kM(h_nxny=np.full((9, 9), sum(lam[1]))), R0.kM(*I), R0.kM(*map(abs, I), scale=True) + 1e-30))
                for nm, (f, E, S) in mats.items():
                    got = dense(f())
                    r.close((mod, g, k, nm, i1, i2, j1, j2, how), got, E, S.max(), 1e-9, fkey='part-%s/%s' % (nm, mod[:3]))
                    if how == 'xy':
                        tot[nm, i1, i2, j1, j2] = got
    for nm, f in (('kC', full.calc_kC), ('kG', full.calc_kG), ('kM', full.calc_kM)):
        W = dense(f())
        for xs in ([0, 3], [0, 1, 3], [0, 2, 3], [0, 1, 2, 3]):
            for ys in ([0, 3], [0, 1, 3], [0, 2, 3], [0, 1, 2, 3]):
                S = sum(tot[nm, a, b, p, q] for a, b in zip(xs, xs[1:]) for p, q in zip(ys, ys[1:]))
                r.close((mod, g, k, nm, 'partition', tuple(xs), tuple(ys)), S, W, abs(W).max(), 1e-9, fkey='partition-%s/%s' % (nm, mod[:3]))
    return r


def embeds(mod, g):
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    for sh in [(3, 4), (4, 2)]:
        s = C.shell(mod, *g, *sh, r=RAD[mod], lam=lam)
        R0 = ref.Ref(ref.Geo.of(s), 9, 9)
        s.nx = s.ny = 9
        n = R0.g.size
        V = field(ABD, 9, 9)
        for r0 in (0, 3, 12, 31):
            for extra in (0, 1, 7):
                size = n + r0 + extra
                cg = C.vec(size, 4, 0.4)
                c = cg[r0:r0 + n]
                N = R0.resultants(V, c, False)[:, :3]
                for sz in (size, '+%d' % (r0 + extra)):
                    r.close((mod, sh, r0, extra, str(sz), 'kC'), dense(s.calc_kC(size=sz, row0=r0, col0=r0, ABDnxny=V)), C.embed(R0.kC(V), size, r0),
                            R0.kC_scale(V).max(), 1e-9, fkey='kC-num/embed')
                    r.close((mod, sh, r0, extra, str(sz), 'kG'), dense(s.calc_kG(size=sz, row0=r0, col0=r0, ABDnxny=V, c=cg)), C.embed(R0.kG(N), size, r0),
                            R0.kG_scale(N).max(), 1e-9, fkey='kG-num/embed')
    return r
