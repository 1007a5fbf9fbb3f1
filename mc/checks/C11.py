"""Penalty stiffness of prescribed displacements and point constraints"""
import itertools
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x {point, line of constant x, line of constant y, point constraint} x unit and mixed penalties (the matrices are linear in '
        'them) x positions incl. edges and corners x boundary flags (every single flag, distinct values) x lengths x all series sizes up to 6 x 6 x '
        'placements; all entries; non-trivial: reference not zero')
GEOS = [(1.3, 0.7), (0.6, 1.9), (1., 1.)]
RAD = {C.PLATE: None, C.CYL: 0.9}
POS = [0., 0.21, 0.5, 0.87, 1.]
PEN = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (2.3, 0.7, 5.1), (0., 0., 0.)]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for g in GEOS:
            out += [('positions', (mod, g)), ('flags', (mod, g, 0)), ('flags', (mod, g, 1)), ('shapes', (mod, g))]
        out += [('embeds', (mod, GEOS[0])), ('constraints', (mod, GEOS[0])), ('constraints', (mod, GEOS[1]))]
        if tier != 'quick':
            out += [('big', (mod, g, m)) for g in GEOS for m in (2, 11, 19, 30)]
    out += [('constants', (0,)), ('equilibrium', (GEOS[0],)), ('equilibrium', (GEOS[1],))]
    return out


def Q(geo, kind, pos, k):
    """second variation of 1/2 sum k_i u_i^2"""
    if kind == 'p':
        x, y, W = np.array([pos[0]]), np.array([pos[1]]), np.ones(1)
    else:
        p, w = ref.gauss(40)
        L = geo.b if kind == 'x' else geo.a
        t, W = (p + 1)/2*L, w*L/2
        c = np.full(40, pos)
        x, y = (c, t) if kind == 'x' else (t, c)
    K = S = 0.
    for f, ki in zip('uvw', k):
        A = geo.rows(x, y, f)
        K = K + ki*(A*W[:, None]).T@A
        A = abs(A)
        S = S + (A*W[:, None]).T@A
    return K, S


def cmp(r, key, s, geo, kind, pos, k, fkey, size=None, r0=0):
    from panels.multidomain import connections as cn
    sz = size or s.get_size()
    if kind == 'p':
        U = cn.fkCpd(*k, s, *pos, sz, r0, r0)
    elif kind == 'x':
        U = cn.fkCld_xcte(*k, s, pos, sz, r0, r0)
    else:
        U = cn.fkCld_ycte(*k, s, pos, sz, r0, r0)
    U = dense(U)
    E, S = Q(geo, kind, pos, k)
    S = (S + 1e-4*S.max() + 1e-4)*max(1., max(k))
    # the upper triangle is given, and made symmetric as everywhere in the library
    K = np.triu(U) + np.triu(U, 1).T
    r.close(key, K, C.embed(E, sz, r0), C.embed(S, sz, r0), 1e-10 if max(geo.m, geo.n) < 14 else 1e-6, fkey=fkey)
    low = np.tril(U, -1)
    if np.any(low) and not np.allclose(low, np.tril(C.embed(E, sz, r0), -1), rtol=1e-9, atol=1e-9*S.max()):
        r.fail(fkey, 'entries below the diagonal', case=key)


def positions(mod, g):
    r = R()
    s = C.shell(mod, *g, 4, 3, r=RAD[mod])
    geo = ref.Geo.of(s)
    for k in PEN:
        for fx, fy in itertools.product(POS, POS):
            cmp(r, (mod, g, 'p', fx, fy, k), s, geo, 'p', (fx*g[0], fy*g[1]), k, 'point/%s' % mod[:3])
        for f in POS:
            cmp(r, (mod, g, 'x', f, k), s, geo, 'x', f*g[0], k, 'line-x/%s' % mod[:3])
            cmp(r, (mod, g, 'y', f, k), s, geo, 'y', f*g[1], k, 'line-y/%s' % mod[:3])
    return r


def flags(mod, g, part):
    r = R()
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 2 != part:
            continue
        s = C.shell(mod, *g, 5, 5, r=RAD[mod], flags=fl)
        geo = ref.Geo.of(s)
        for fx, fy in ((.3, .6), (0., 1.), (1., 0.)):
            cmp(r, (mod, g, fn, 'p', fx, fy), s, geo, 'p', (fx*g[0], fy*g[1]), PEN[3], 'point/%s' % fn)
            cmp(r, (mod, g, fn, 'x', fx), s, geo, 'x', fx*g[0], PEN[3], 'line-x/%s' % fn)
            cmp(r, (mod, g, fn, 'y', fy), s, geo, 'y', fy*g[1], PEN[3], 'line-y/%s' % fn)
    return r


def shapes(mod, g):
    r = R()
    for m in range(1, 7):
        for n in range(1, 7):
            s = C.shell(mod, *g, m, n, r=RAD[mod])
            geo = ref.Geo.of(s)
            cmp(r, (mod, g, m, n, 'p'), s, geo, 'p', (.3*g[0], .8*g[1]), PEN[3], 'shapes/point')
            cmp(r, (mod, g, m, n, 'x'), s, geo, 'x', .3*g[0], PEN[3], 'shapes/line-x')
            cmp(r, (mod, g, m, n, 'y'), s, geo, 'y', .8*g[1], PEN[3], 'shapes/line-y')
    return r


def big(mod, g, m):
    r = R()
    for n in (1, 3, 13):
        for m1, n1 in ((m, n), (n, m)):
            s = C.shell(mod, *g, m1, n1, r=RAD[mod])
            geo = ref.Geo.of(s)
            for kind, pos in (('p', (.37*g[0], .81*g[1])), ('x', .37*g[0]), ('y', .81*g[1])):
                cmp(r, (mod, g, m1, n1, kind), s, geo, kind, pos, PEN[3], 'big/' + kind)
    return r


def embeds(mod, g):
    r = R()
    for m, n in ((3, 4), (2, 2)):
        s = C.shell(mod, *g, m, n, r=RAD[mod])
        geo = ref.Geo.of(s)
        for r0 in (0, 1, 3, 7, 36):
            for extra in (0, 1, 5):
                size = r0 + geo.size + extra
                for kind, pos in (('p', (.3*g[0], .6*g[1])), ('x', .3*g[0]), ('y', .6*g[1])):
                    cmp(r, (mod, m, n, r0, extra, kind), s, geo, kind, pos, PEN[3], 'embed/' + kind, size, r0)
    return r


def constraints(mod, g):
    r = R()
    for m, n in ((4, 3), (3, 5), (1, 2)):
        for fn, fl in C.all_flagsets(False):
            for fx, fy in ((0., 0.), (1., .3), (.4, .7), (.2, 1.)):
                s = C.shell(mod, *g, m, n, r=RAD[mod], flags=fl)
                geo = ref.Geo.of(s)
                x, y = fx*g[0], fy*g[1]
                rows = [geo.rows([x], [y], k)[0] for k in ('u', 'v', 'w', 'wx', 'wy')]
                for on in itertools.product((False, True), repeat=5):
                    for kt, kr in ((2., 3.), (None, None)):
                        kw = {} if kt is None else dict(kuvw=kt, kphi=kr)
                        K = dense(s.calc_stiffness_point_constraint(x, y, *on, **kw))
                        kt2, kr2 = (1e6, 1e5) if kt is None else (kt, kr)
                        E = np.zeros((geo.size,)*2)
                        for o, q, kk in zip(on, rows, (kt2,)*3 + (kr2,)*2):
                            if o:
                                E += kk*np.outer(q, q)
                        r.close((mod, g, m, n, fn, fx, fy, on, kt), K, E, (1e-4 + sum(abs(np.outer(q, q)) for q in rows))*max(kt2, kr2), 1e-10, fkey='constraint/%s' % mod[:3])
    s = C.shell(mod, *g, 4, 3, r=RAD[mod])
    geo = ref.Geo.of(s)
    K = dense(s.calc_stiffness_point_constraint(.2, .3))
    E = 1e6*sum(np.outer(q, q) for q in (geo.rows([.2], [.3], k)[0] for k in 'uvw'))
    r.close((mod, g, 'default'), K, E, abs(E).max(), 1e-11, fkey='constraint/default')
    return r


def constants(_):
    """penalty constants from the laminate and the dimensions, as documented"""
    from panels.multidomain import connections as cn
    r = R()
    for mod in C.MODELS:
        for g in GEOS:
            for li, lam in enumerate(C.laminates()):
                s = C.shell(mod, *g, 3, 4, r=RAD[mod], lam=lam)
                s.calc_kC()
                A = C.lam_abd(*lam)
                k = np.array([A[0, 0], A[1, 1], A[0, 0]])
                for nm, e in (('point_pd', k), ('line_pd_xcte', k/g[1]), ('line_pd_ycte', k/g[0])):
                    r.close((mod, g, li, nm), np.array(getattr(cn, 'calc_ku_kv_kw_' + nm)(s)), e, None, 1e-12, fkey='constants/' + nm)
    return r


def equilibrium(g):
    """stiffness and force of the same prescribed displacement vanish together at the prescribed state"""
    from panels.multidomain import connections as cn
    r = R()
    for mod in C.MODELS:
        for k in PEN[:4]:
            s = C.shell(mod, *g, 4, 4, r=RAD[mod], flags=C.flags_const(1))
            geo = ref.Geo.of(s)
            c = C.vec(geo.size)
            x, y = .3*g[0], .8*g[1]
            up = [float((geo.rows([x], [y], f)@c)[0]) for f in 'uvw']
            s.add_point_pd(x, y, k[0], up[0], k[1], up[1], k[2], up[2])
            U = dense(cn.fkCpd(*k, s, x, y, geo.size, 0, 0))
            r.close((mod, g, k, 'p'), (np.triu(U) + np.triu(U, 1).T)@c, s.calc_fext(), 20., 1e-10, fkey='equilibrium/point')
            for kind in 'xy':
                s = C.shell(mod, *g, 4, 4, r=RAD[mod], flags=C.flags_const(1), nx=8, ny=8)
                pos = x if kind == 'x' else y
                fs = [(lambda t, f=f: float((geo.rows([pos], [t], f) if kind == 'x' else geo.rows([t], [pos], f))[0]@c)) for f in 'uvw']
                ks = [q if q else None for q in k]
                fs = [f if q else None for f, q in zip(fs, k)]
                (s.add_distr_pd_fixed_x if kind == 'x' else s.add_distr_pd_fixed_y)(pos, *ks, *fs)
                U = dense((cn.fkCld_xcte if kind == 'x' else cn.fkCld_ycte)(*k, s, pos, geo.size, 0, 0))
                r.close((mod, g, k, kind), (np.triu(U) + np.triu(U, 1).T)@c, s.calc_fext(), 20., 1e-10, fkey='equilibrium/line-' + kind)
    return r
