"""Internal forces = gradient of the strain energy, tangent stiffness = its Jacobian"""
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x {18 unit stiffness terms, full laminates, per-point laminates} x displacement states (every pair of degrees of '
        'freedom of a small basis excited, so every monomial of the energy; generic states) x flags x shapes x embeddings; all entries of '
        'internal forces, linear and tangent stiffness; non-trivial: reference not zero')
ASSUMPTIONS = ['the shear strain of the geometric-stiffness, internal-force and strain-field routines doubles the w,x*w,y term: listed known finding; '
               'everything else of those routines is still compared, against the reference with that one factor changed']
GEOS = [(1.3, 0.7), (0.6, 1.9)]
RAD = {C.PLATE: None, C.CYL: 0.9}


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            for k in range(6):
                out.append(('units', (mod, g, k)))
            out.append(('flags', (mod, g, 0)))
            out.append(('flags', (mod, g, 1)))
            out.append(('shapes', (mod, g)))
        out.append(('pairs', (mod, GEOS[0], 0)))
        out.append(('pairs', (mod, GEOS[1], 1)))
        out.append(('embeds', (mod, GEOS[0])))
        out.append(('jacobian', (mod, GEOS[0])))
        out.append(('parts', (mod, GEOS[0])))
    return out


def nl_close(r, key, got, f1, scale, rtol, site, fkey):
    """compare with the true reference f1(1); the listed finding is f1(2)"""
    e1 = f1(1.)
    g = np.asarray(got)
    if g.shape == e1.shape and not np.all(abs(g - e1) <= rtol*scale):
        e2 = f1(2.)
        if np.all(abs(g - e2) <= rtol*scale):
            r.close(key, g, e2, scale, rtol)
            r.fail('nl-shear-doubled/' + site, 'shear strain has 2*w,x*w,y instead of w,x*w,y', case=key)
            return
    r.close(key, g, e1, scale, rtol, fkey=fkey)


def all_three(r, s, R0, ABD, c, key, mod, kw, rtol=1e-9):
    m = 'plate' if mod == C.PLATE else 'cyl'
    f = np.asarray(s.calc_fint(c, **kw))
    nl_close(r, key + ('fint',), f, lambda k: R0.fint(ABD, c, True, k), R0.fint_scale(ABD, c).max() + 1e-30, rtol, m + '/fint', 'fint/' + m)
    kC = dense(s.calc_kC(c=c, NLgeom=True, **kw))
    r.close(key + ('kC',), kC, R0.kC(ABD, c, True), R0.kC_scale(ABD, c, True).max(), rtol, fkey='kC-NL/' + m)

    def kg(k):
        return R0.kG(R0.resultants(ABD, c, True, k)[:, :3])
    sc = R0.kG_scale(abs(R0._abd(ABD)[:, :3])@np.ones(6)*(abs(R0.strain(c, True)).max() + abs(R0.strain(c, False)).max())).max() + 1e-30
    kG = dense(s.calc_kG(c=c, NLgeom=True, **kw))
    nl_close(r, key + ('kG',), kG, kg, sc, rtol, m + '/kG', 'kG-NL/' + m)
    kT = dense(s.calc_kT(c=c, **kw))
    r.close(key + ('kT',), kT, kC + kG, abs(kC).max() + abs(kG).max() + 1e-30, 1e-11, fkey='kT/' + m)


def units(mod, g, k):
    r = R()
    for ui, M in enumerate(C.abd_units()):
        if ui % 6 != k:
            continue
        s = C.shell(mod, *g, 3, 2, r=RAD[mod])
        for nx, ny in ((6, 5), (4, 7)):
            R0 = ref.Ref(ref.Geo.of(s), nx, ny)
            i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
            V = (1.3 + 0.37*i - 0.21*j)[..., None, None]*M
            for q in range(3):
                c = C.vec(R0.g.size, q, 0.5)
                all_three(r, s, R0, M, c, (mod, g, ui, nx, ny, q, 'cte'), mod, dict(nx=nx, ny=ny, ABDnxny=M))
                all_three(r, s, R0, V, c, (mod, g, ui, nx, ny, q, 'var'), mod, dict(nx=nx, ny=ny, ABDnxny=V))
    return r


def flags(mod, g, k):
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 2 != k:
            continue
        s = C.shell(mod, *g, 4, 3, r=RAD[mod], flags=fl, lam=lam)
        R0 = ref.Ref(ref.Geo.of(s), 8, 6)
        for q in range(2):
            all_three(r, s, R0, ABD, C.vec(R0.g.size, q, 0.5), (mod, g, fn, q), mod, {})
    return r


def shapes(mod, g):
    r = R()
    lam = C.laminates()[7]
    ABD = C.lam_abd(*lam)
    for sh in [(1, 1), (2, 3), (3, 2), (1, 5), (5, 1), (5, 4), (4, 5), (6, 6)]:
        s = C.shell(mod, *g, *sh, r=RAD[mod], lam=lam)
        R0 = ref.Ref(ref.Geo.of(s), 2*sh[0], 2*sh[1])
        all_three(r, s, R0, ABD, C.vec(R0.g.size, 0, 0.5), (mod, g, sh), mod, {})
    return r


def pairs(mod, g, k):
    """zero state, every single and every pair of excited degrees of freedom: all monomials up to what two can make"""
    r = R()
    lam = C.laminates()[11 + k]
    ABD = C.lam_abd(*lam)
    s = C.shell(mod, *g, 2, 2, r=RAD[mod], lam=lam)
    R0 = ref.Ref(ref.Geo.of(s), 7, 6)
    n = R0.g.size
    for i in range(n):
        for j in range(i, n):
            for sg in (1., -1.):
                c = np.zeros(n)
                c[i] += 0.7
                c[j] += 0.4*sg
                all_three(r, s, R0, ABD, c, (mod, g, i, j, sg), mod, dict(nx=7, ny=6))
    all_three(r, s, R0, ABD, np.zeros(n), (mod, g, 'zero'), mod, dict(nx=7, ny=6))
    return r


def embeds(mod, g):
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    m = 'plate' if mod == C.PLATE else 'cyl'
    for sh in [(3, 2), (2, 4)]:
        s = C.shell(mod, *g, *sh, r=RAD[mod], lam=lam)
        R0 = ref.Ref(ref.Geo.of(s), 7, 8)
        n = R0.g.size
        kw = dict(nx=7, ny=8)
        for r0 in (0, 3, 12, 31):
            for extra in (0, 5):
                size = n + r0 + extra
                cg = C.vec(size, 4, 0.4)
                c = cg[r0:r0 + n]
                for sz in (size, '+%d' % (r0 + extra)):
                    key = (mod, sh, r0, extra, str(sz))
                    f = np.asarray(s.calc_fint(cg, size=sz, col0=r0, **kw))

                    def F(k):
                        out = np.zeros(size)
                        out[r0:r0 + n] = R0.fint(ABD, c, True, k)
                        return out
                    nl_close(r, key + ('fint',), f, F, R0.fint_scale(ABD, c).max(), 1e-9, m + '/fint', 'fint/embed')
                    K = dense(s.calc_kC(c=cg, NLgeom=True, size=sz, row0=r0, col0=r0, **kw))
                    r.close(key + ('kC',), K, C.embed(R0.kC(ABD, c, True), size, r0), R0.kC_scale(ABD, c, True).max(), 1e-9, fkey='kC-NL/embed')
                    K = dense(s.calc_kG(c=cg, NLgeom=True, size=sz, row0=r0, col0=r0, **kw))
                    nl_close(r, key + ('kG',), K, lambda k: C.embed(R0.kG(R0.resultants(ABD, c, True, k)[:, :3]), size, r0),
                             abs(K).max(), 1e-9, m + '/kG', 'kG-NL/embed')
                    T = dense(s.calc_kT(c=cg, size=sz, row0=r0, col0=r0, **kw))
                    r.close(key + ('kT',), T, dense(s.calc_kC(c=cg, NLgeom=True, size=sz, row0=r0, col0=r0, **kw)) + K, abs(T).max(), 1e-11, fkey='kT/embed')
    return r


def jacobian(mod, g):
    """directional derivatives of the internal forces, exact: the force is cubic in the step, so five
    steps determine its derivative; compared with kT"""
    r = R()
    m = 'plate' if mod == C.PLATE else 'cyl'
    for li in (0, 11, 7):
        lam = C.laminates()[li]
        s = C.shell(mod, *g, 2, 3, r=RAD[mod], lam=lam)
        n = 18
        kw = dict(nx=8, ny=8)
        for q in range(2):
            c = C.vec(n, q, 0.5)
            T = dense(s.calc_kT(c=c, **kw))
            st = [-2., -1., 0., 1., 2.]
            for d in range(n):
                e = np.zeros(n)
                e[d] = 0.3
                F = [np.asarray(s.calc_fint(c + t*e, **kw)) for t in st]
                D = (F[0] - 8*F[1] + 8*F[3] - F[4])/12/0.3
                sc = max(abs(f).max() for f in F)
                got = T[:, d]
                key = (mod, li, q, d)
                # the listed finding also breaks this equality, by a term known exactly
                if np.all(abs(got - D) <= 1e-8*sc):
                    r.close(key, got, D, sc, 1e-8)
                    continue
                R0 = ref.Ref(ref.Geo.of(s), 8, 8)
                ABD = C.lam_abd(*lam)
                t2 = R0.kC(ABD, c, True) + R0.kG(R0.resultants(ABD, c, True, 2.)[:, :3])
                if np.all(abs(got - t2[:, d]) <= 1e-8*abs(t2).max()):
                    r.close(key, got, t2[:, d], abs(t2).max(), 1e-8)
                    r.fail('nl-shear-doubled/%s/kT' % m, 'tangent stiffness is not the Jacobian of the internal forces (doubled shear term)', case=key)
                else:
                    r.close(key, got, D, sc, 1e-8, fkey='jacobian/' + m)
    return r


def parts(mod, g):
    r = R()
    lam = C.laminates()[11]
    ABD = C.lam_abd(*lam)
    cuts = [(None, None), ((0., 0.4), None), ((0.4, 1.3), None), (None, (0., 0.3)), (None, (0.3, 0.7)), ((0.2, 0.9), (0.1, 0.5)), ((0., 1.3), (0., 0.7))]
    for x, y in cuts:
        s = C.shell(mod, *g, 3, 4, r=RAD[mod], lam=lam)
        if x:
            s.x1, s.x2 = x
        if y:
            s.y1, s.y2 = y
        R0 = ref.Ref(ref.Geo.of(s, partial=True), 8, 8)
        for q in range(2):
            all_three(r, s, R0, ABD, C.vec(R0.g.size, q, 0.5), (mod, x, y, q), mod, dict(nx=8, ny=8))
    return r
