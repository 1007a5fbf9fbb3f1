"""Displacement, strain and stress fields = definition, at any set of points"""
import itertools
import numpy as np
import common as C
import ref
from harness import R
from checks.C08 import nl_close

LEVEL = 'exploration'
RULE = ('product of models x every single degree of freedom and every pair of them (the fields are linear, resp. quadratic in the Ritz '
        'constants) x boundary flags x series sizes (all up to 6, and 30) x point sets of several shapes incl. edges and corners x linear and '
        'non-linear strains x stress for the 18 unit stiffness terms; every component at every point; non-trivial: reference not zero')
ASSUMPTIONS = ['non-linear membrane shear strain is doubled in the strain routine: listed known finding, compared with the reference with that one factor changed']
GEOS = [(1.3, 0.7), (0.6, 1.9)]
RAD = {C.PLATE: None, C.CYL: 0.9}
COMP = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
RES = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            out.append(('dofs', (mod, g)))
            out.append(('flags', (mod, g)))
            out.append(('shapes', (mod, g)))
        out.append(('pairs', (mod, GEOS[0])))
        out.append(('grids', (mod, GEOS[1])))
        out.append(('stress', (mod, GEOS[0])))
        out.append(('big', (mod, GEOS[0])))
    return out


def pts(g):
    x = np.array([0., .13, .37, .5, .71, .92, 1.])*g[0]
    y = np.array([0., .08, .29, .5, .66, .97, 1.])*g[1]
    X, Y = np.meshgrid(x, y)
    return X.ravel(), Y.ravel()


def elsewhere(s, c):
    """fields at another point, so that its mesh cannot be taken for that of the next call"""
    s.uvw(c, np.array([.123*s.a]), np.array([.456*s.b]))


def mesh_ok(r, mesh, X, Y, key):
    r.close(key + ('X',), mesh['Xs'], X, fkey='mesh')
    r.close(key + ('Y',), mesh['Ys'], Y, fkey='mesh')


def fields(r, s, geo, c, X, Y, key, fk, o=None, rtol=1e-10):
    x, y = np.ravel(X), np.ravel(Y)
    o = o or geo.ops(x, y)
    shp = np.shape(X)
    mesh, f = s.uvw(c, X, Y)
    mesh_ok(r, mesh, X, Y, key)
    for nm, op, sg in (('u', 'u', 1), ('v', 'v', 1), ('w', 'w', 1), ('phix', 'wx', -1), ('phiy', 'wy', -1)):
        r.close(key + (nm,), f[nm], (sg*(o[op]@c)).reshape(shp), (abs(o[op])@abs(c)).max() + 1e-30, rtol, fkey='uvw/%s/%s' % (nm, fk))
    lin = np.einsum('spi,i->sp', o['B'], c)
    sc = np.einsum('spi,i->sp', abs(o['B']), abs(c))
    elsewhere(s, c)
    mesh, f = s.strain(c, X, Y, NLgeom=False)
    mesh_ok(r, mesh, X, Y, key + ('strain',))
    for k, nm in enumerate(COMP):
        r.close(key + (nm,), f[nm], lin[k].reshape(shp), sc[k].max() + 1e-30, rtol, fkey='strain/%s/%s' % (nm, fk))
    wx, wy = o['wx']@c, o['wy']@c
    swx, swy = (abs(o['wx'])@abs(c)).max(), (abs(o['wy'])@abs(c)).max()
    nl = [0.5*wx**2, 0.5*wy**2, wx*wy, 0*wx, 0*wx, 0*wx]
    sn = [.5*swx**2, .5*swy**2, swx*swy, 0., 0., 0.]
    mesh, f = s.strain(c, X, Y, NLgeom=True)
    for k, nm in enumerate(COMP):
        def e(kap):
            return (lin[k] + nl[k]*(kap if k == 2 else 1.)).reshape(shp)
        nl_close(r, key + (nm, 'NL'), f[nm], e, sc[k].max() + sn[k] + 1e-30, rtol, 'strain', 'strainNL/%s/%s' % (nm, fk))
    return lin, nl, sc, sn


def dofs(mod, g):
    r = R()
    X, Y = pts(g)
    s = C.shell(mod, *g, 5, 4, r=RAD[mod])
    geo = ref.Geo.of(s)
    o = geo.ops(X, Y)
    for i in range(geo.size):
        c = np.zeros(geo.size)
        c[i] = 0.8
        fields(r, s, geo, c, X, Y, (mod, g, 'dof', i), 'dof', o)
    return r


def pairs(mod, g):
    r = R()
    X, Y = pts(g)
    s = C.shell(mod, *g, 3, 2, r=RAD[mod])
    geo = ref.Geo.of(s)
    o = geo.ops(X, Y)
    for i, j in itertools.combinations(range(geo.size), 2):
        c = np.zeros(geo.size)
        c[i], c[j] = 0.8, -0.5
        fields(r, s, geo, c, X, Y, (mod, g, 'pair', i, j), 'pair', o)
    return r


def flags(mod, g):
    r = R()
    X, Y = pts(g)
    for fn, fl in C.all_flagsets():
        s = C.shell(mod, *g, 5, 4, r=RAD[mod], flags=fl)
        geo = ref.Geo.of(s)
        for q in range(2):
            fields(r, s, geo, C.vec(geo.size, q), X, Y, (mod, g, fn, q), fn)
    return r


def shapes(mod, g):
    r = R()
    X, Y = pts(g)
    for m in range(1, 7):
        for n in range(1, 7):
            s = C.shell(mod, *g, m, n, r=RAD[mod])
            geo = ref.Geo.of(s)
            fields(r, s, geo, C.vec(geo.size), X, Y, (mod, g, m, n), 'shape')
    return r


def big(mod, g):
    r = R()
    X, Y = pts(g)
    for m, n in ((30, 2), (2, 30), (12, 13), (30, 30)):
        s = C.shell(mod, *g, m, n, r=RAD[mod])
        geo = ref.Geo.of(s)
        fields(r, s, geo, C.vec(geo.size), X, Y, (mod, g, m, n), 'big', rtol=1e-6 if m == 30 or n == 30 else 1e-9)
    return r


def grids(mod, g):
    """points given in any shape, number and order; and the default grids"""
    r = R()
    s = C.shell(mod, *g, 4, 3, r=RAD[mod])
    geo = ref.Geo.of(s)
    c = C.vec(geo.size)
    base = [(0.1*k*g[0] % g[0], (0.37*k) % 1.*g[1]) for k in range(1, 40)]
    for npt in list(range(1, 18)) + [39]:
        P = np.array(base[:npt])
        fields(r, s, geo, c, P[:, 0], P[:, 1], (mod, 'list', npt), 'grid')
        fields(r, s, geo, c, P[::-1, 0], P[::-1, 1], (mod, 'reversed', npt), 'grid')
    for shp in ((1, 1), (2, 3), (3, 2), (1, 5), (5, 1), (2, 2, 3)):
        k = int(np.prod(shp))
        P = np.array(base[:k])
        fields(r, s, geo, c, P[:, 0].reshape(shp), P[:, 1].reshape(shp), (mod, 'array', shp), 'grid')
    P = np.array(base[:12]).reshape(3, 4, 2)
    fields(r, s, geo, c, np.asfortranarray(P[..., 0]), np.asfortranarray(P[..., 1]), (mod, 'fortran'), 'grid')
    for gx, gy in ((2, 3), (7, 4), (1, 5)):
        X, Y = np.meshgrid(np.linspace(0, g[0], gx), np.linspace(0, g[1], gy))
        mesh, f = s.uvw(c, gridx=gx, gridy=gy)
        r.close((mod, 'default', gx, gy), mesh['Xs'], X, fkey='mesh')
        r.close((mod, 'default', gx, gy), mesh['Ys'], Y, fkey='mesh')
        o = geo.ops(X.ravel(), Y.ravel())
        r.close((mod, 'default', gx, gy, 'w'), f['w'], (o['w']@c).reshape(X.shape), 1., 1e-10, fkey='uvw/default')
        elsewhere(s, c)
        mesh, f = s.strain(c, gridx=gx, gridy=gy, NLgeom=False)
        mesh_ok(r, mesh, X, Y, (mod, 'default strain', gx, gy))
        elsewhere(s, c)
        mesh, f = s.stress(c, gridx=gx, gridy=gy, NLgeom=False)
        mesh_ok(r, mesh, X, Y, (mod, 'default stress', gx, gy))
        r.close((mod, 'default', gx, gy, 'kxy'), f['kxy'], (o['B'][5]@c).reshape(X.shape), abs(o['B'][5]).max(), 1e-9, fkey='strain/default')
    return r


def stress(mod, g):
    r = R()
    X, Y = pts(g)
    lam = C.laminates()[11]
    full = C.lam_abd(*lam)
    s = C.shell(mod, *g, 3, 4, r=RAD[mod], lam=lam)
    geo = ref.Geo.of(s)
    o = geo.ops(X, Y)
    for ui, M in enumerate(C.abd_units() + [None]):
        D = full if M is None else M
        for q in range(2):
            c = C.vec(geo.size, q)
            lin = np.einsum('spi,i->sp', o['B'], c)
            wx, wy = o['wx']@c, o['wy']@c
            for NL in (False, True):
                elsewhere(s, c)
                mesh, f = s.stress(c, ABD=M, xs=X, ys=Y, NLgeom=NL)
                mesh_ok(r, mesh, X, Y, (mod, g, ui, q, NL))

                def N(kap):
                    e = lin.copy()
                    if NL:
                        e[0] += .5*wx**2
                        e[1] += .5*wy**2
                        e[2] += kap*wx*wy
                    return D@e
                sc = (abs(D)@(abs(lin) + abs(wx) + wx**2 + wy**2)).max() + 1e-30
                for k, nm in enumerate(RES):
                    nl_close(r, (mod, g, ui, q, NL, nm), f[nm], lambda kap: N(kap)[k], sc, 1e-10, 'stress', 'stress/%s/%d' % (nm, ui))
                for k, nm in enumerate(COMP):
                    if not NL:
                        r.close((mod, g, ui, q, nm), f[nm], lin[k], abs(lin).max(), 1e-10, fkey='stress/strain')
    return r
