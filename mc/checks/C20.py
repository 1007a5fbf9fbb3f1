"""Adding terms to the series: nested matrices, frequencies from above, rigid-body motion"""
import numpy as np
import scipy.linalg as sl
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x laminates x boundary flag sets x all pairs of numbers of terms (m, n) up to the bound, plus narrow shells up to the last term (30): every matrix and '
        'vector of each size against the corresponding part of the largest, no reference model; all frequencies, buckling multipliers and the compliance along every added row and '
        'column of terms; strain energy of all rigid-body motions for all sizes; non-trivial: part not identically zero')
GEOS = [(1.3, 0.7), (0.6, 1.9)]
RAD = {C.PLATE: None, C.CYL: 0.9}
ALL = ('kC', 'kCn', 'kCv', 'kG0', 'kG', 'kGc', 'kM', 'kMv', 'kA', 'cA', 'kT', 'fint', 'fext', 'uvw', 'strain')


def jobs(tier, seed):
    big = tier == 'thorough'
    fls = [f for f in C.all_flagsets(big)]
    out = []
    for mod in C.MODELS:
        for gi, g in enumerate(GEOS):
            for fi, (fn, fl) in enumerate(fls):
                for li in ((11,) if not big and gi else (2,) if not big else (2, 7, 11)):
                    out.append(('nested', (mod, g, fn, li, (8, 7) if big else (6, 5) if gi else (5, 6))))
            for sh in ((30, 2), (2, 30), (13, 4), (4, 13)) + (((30, 4), (4, 30), (14, 14)) if big else ()):
                out.append(('narrow', (mod, g, sh)))
            out.append(('bounds', (mod, g, 9 if big else 7)))
            out.append(('rigid', (mod, g, 12 if big else 8)))
    return out


def part(m, n, M):
    """degrees of freedom of an (m, n) series among those with M terms along x"""
    return np.array([3*(j*M + i) + k for j in range(n) for i in range(m) for k in range(3)])


def mk(mod, g, sh, fl, lam, q=(7, 6)):
    s = C.shell(mod, *g, *sh, r=RAD[mod], lam=lam, flags=fl)
    s.nx, s.ny = q
    s.beta, s.gamma, s.flow, s.aeromu = 1.3, .4, 'x', .8
    s.add_point_load(.3*g[0], .6*g[1], 1.1, -.7, 2.3, cte=True)
    s.add_point_load(.8*g[0], .1*g[1], -.4, .9, -1.3, cte=False)
    s.add_distr_load_fixed_x(.4*g[0], lambda y: 1 + y, lambda y: y*y, None, cte=True)
    s.add_distr_load_fixed_y(.7*g[1], None, lambda x: x, lambda x: 2 - x, cte=False)
    return s


def quantities(s, c, ABD, names, x, y, q):
    """every matrix and vector of one shell"""
    V = np.broadcast_to(ABD, q + (6, 6))*(1 + .05*np.arange(q[0]))[:, None, None, None]*(1 - .02*np.arange(q[1]))[None, :, None, None]
    for nm in names:
        s.Nxx, s.Nyy, s.Nxy = 0., 0., 0.
        s.Nxx_cte = s.Nyy_cte = s.Nxy_cte = 0.
        if nm == 'kC':
            yield nm, dense(s.calc_kC())
        elif nm == 'kCn':
            s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = -.8, .6, 1.2
            yield nm, dense(s.calc_kC(c=c, NLgeom=True))
        elif nm == 'kCv':
            yield nm, dense(s.calc_kC(ABDnxny=V))
        elif nm == 'kG0':
            s.Nxx, s.Nyy, s.Nxy = -1.1, .7, .3
            yield nm, dense(s.calc_kG())
        elif nm == 'kG':
            s.Nxx, s.Nyy, s.Nxy = -1.1, .7, .3
            yield nm, dense(s.calc_kG(c=c, NLgeom=True))
        elif nm == 'kGc':
            yield nm, dense(s.calc_kG(c=c, ABDnxny=V))
        elif nm == 'kM':
            yield nm, dense(s.calc_kM())
        elif nm == 'kMv':
            yield nm, dense(s.calc_kM(h_nxny=1 + .1*np.arange(q[0]*q[1]).reshape(q)))
        elif nm == 'kA':
            yield nm, dense(s.calc_kA())
        elif nm == 'cA':
            yield nm, dense(s.calc_cA(s.aeromu)).imag
        elif nm == 'kT':
            yield nm, dense(s.calc_kT(c=c))
        elif nm == 'fint':
            yield nm, np.array(s.calc_fint(c))
        elif nm == 'fext':
            yield nm, np.array(s.calc_fext(inc=.6))
        elif nm == 'uvw':
            f = s.uvw(c, xs=x, ys=y)[1]
            yield nm, np.array([f[k] for k in ('u', 'v', 'w', 'phix', 'phiy')])
        elif nm == 'strain':
            f = s.strain(c, xs=x, ys=y, NLgeom=True)[1]
            yield nm, np.array([f[k] for k in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')])


def compare(r, key, mod, g, sh, SH, fl, lam, names, fk):
    """the quantities of the series sh inside those of the series SH"""
    m, n = sh
    M, N = SH
    ABD = C.lam_abd(*lam)
    D = part(m, n, M)
    cs = C.vec(3*m*n, 1, .3)
    cl = np.zeros(3*M*N)
    cl[D] = cs
    x = np.array([.1, .45, .9])*g[0]
    y = np.array([.2, .7, .35])*g[1]
    q = max(7, M), max(6, N)
    a = quantities(mk(mod, g, sh, fl, lam, q), cs, ABD, names, x, y, q)
    b = quantities(mk(mod, g, SH, fl, lam, q), cl, ABD, names, x, y, q)
    for (nm, A), (_, B) in zip(a, b):
        if nm in ('uvw', 'strain'):
            E = B
        elif B.ndim == 1:
            E = B[D]
        else:
            E = B[np.ix_(D, D)]
        if E.ndim == 2 and nm not in ('uvw', 'strain'):
            d = np.sqrt(abs(np.diag(E))) if nm not in ('kG', 'kG0', 'kGc', 'kA') else np.full(D.size, np.sqrt(abs(E).max()))
            S = np.outer(d, d)
            S = np.maximum(S, abs(E)) + 1e-3*abs(E).max() + 1e-30
        else:
            S = abs(E).max() + 1e-30
        r.close(key + (nm,), A, E, S, 1e-10, fkey='%s/%s/%s' % (fk, mod[:3], nm))


def nested(mod, g, fn, li, SH):
    r = R()
    fl = dict(C.all_flagsets())[fn]
    lam = C.laminates()[li]
    for m in range(1, SH[0] + 1):
        for n in range(1, SH[1] + 1):
            if (m, n) != SH:
                compare(r, (mod, g, fn, li, m, n), mod, g, (m, n), SH, fl, lam, ALL, 'nested')
    return r


def narrow(mod, g, SH):
    """up to the last term, each length of the series"""
    r = R()
    lam = C.laminates()[11]
    names = ('kC', 'kCv', 'kG0', 'kGc', 'kM', 'kA', 'fint', 'fext', 'uvw', 'strain')
    for fn, fl in C.all_flagsets(False)[:2]:
        for m in sorted({SH[0]} | {k for k in range(1, SH[0]) if SH[0] == 13 or k in (5, 12, 19, 29)}) if SH[0] > 4 else [SH[0]]:
            for n in sorted({SH[1]} | {k for k in range(1, SH[1]) if SH[1] == 13 or k in (5, 12, 19, 29)}) if SH[1] > 4 else [SH[1]]:
                if (m, n) != SH:
                    compare(r, (mod, g, fn, 'narrow', SH, m, n), mod, g, (m, n), SH, fl, lam, names, 'narrow')
    return r


def bounds(mod, g, K):
    """frequencies, buckling multipliers and compliance along every chain of sizes"""
    r = R()
    fls = dict(default=C.flags_default(), cantilever=dict(C.flags_const(1), **{'x1' + f + s: 0. for f in 'uvw' for s in ('', 'r')}),
               clamped=C.flags_const(0))
    for fn, fl in fls.items():
        for li in (2, 7, 11):
            val = {}
            for m in range(4, K + 1):
                for n in range(4, K + 1):
                    s = mk(mod, g, (m, n), fl, C.laminates()[li])
                    s.Nxx, s.Nyy, s.Nxy = -1., -.2, .3
                    k, M, G, f = dense(s.calc_kC()), dense(s.calc_kM()), dense(s.calc_kG()), np.array(s.calc_fext(inc=1.))
                    act = np.diag(M) > 0
                    if not act.any():
                        continue
                    k, M, G, f = k[np.ix_(act, act)], M[np.ix_(act, act)], G[np.ix_(act, act)], f[act]
                    d = 1/np.sqrt(np.diag(k))
                    k, M, G, f = k*np.outer(d, d), M*np.outer(d, d), G*np.outer(d, d), f*d
                    L = np.linalg.cholesky(k)
                    A = sl.solve_triangular(L, M, lower=True)
                    A = sl.solve_triangular(L, A.T, lower=True)
                    B = sl.solve_triangular(L, -G, lower=True)
                    B = sl.solve_triangular(L, B.T, lower=True)
                    val[m, n] = (np.linalg.eigvalsh((A + A.T)/2)[::-1][:12], np.linalg.eigvalsh((B + B.T)/2)[::-1][:6], sl.solve_triangular(L, f, lower=True)@sl.solve_triangular(L, f, lower=True))
                    r.case((mod, g, fn, li, m, n))
            for (m, n), (w, b, q) in val.items():
                for m2, n2 in ((m + 1, n), (m, n + 1)):
                    if (m2, n2) not in val:
                        continue
                    W, B, Q = val[m2, n2]
                    r.transitions += 1
                    for nm, lo, hi in (('frequency', w, W), ('buckling', b, B), ('compliance', np.array([q]), np.array([Q]))):
                        z = min(len(lo), len(hi))
                        pos = lo[:z] > 1e-9*abs(lo).max()
                        if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))) or np.any((hi[:z] < lo[:z]*(1 - 1e-8))[pos]):
                            r.fail('bounds/' + nm, '%s of (%d, %d) terms is not bounded by that of (%d, %d) terms' % (nm, m, n, m2, n2), case=(mod, g, fn, li), less=lo[:z], more=hi[:z])
    return r


def rigid(mod, g, K):
    """strain energy of the rigid-body motions, no edge restrained"""
    r = R()
    a, b = g
    zero = lambda x, y: 0*x
    one = lambda x, y: 0*x + 1
    spin = (lambda x, y: -(y - .3*b), lambda x, y: x - .2*a, zero)
    if mod == C.PLATE:
        mot = dict(u=(one, zero, zero), v=(zero, one, zero), w=(zero, zero, one), rx=(zero, zero, lambda x, y: x/a), ry=(zero, zero, lambda x, y: y/b), spin=spin)
    else:
        mot = dict(u=(one, zero, zero), v=(zero, one, zero), spin=spin)
    X, Y = [q.ravel() for q in np.meshgrid(np.linspace(0, a, 14), np.linspace(0, b, 14))]
    for m in range(4, K + 1):
        for n in range(4, K + 1):
            for li in (2, 7, 11):
                lam = C.laminates()[li]
                s = C.shell(mod, *g, m, n, r=RAD[mod], lam=lam, flags=C.flags_const(1))
                s.nx, s.ny = m + 1, n + 1
                geo = ref.Geo.of(s)
                ks = dict(kC=dense(s.calc_kC()), kCv=dense(s.calc_kC(ABDnxny=np.broadcast_to(C.lam_abd(*lam), (m + 1, n + 1, 6, 6)).copy())))
                M = dense(s.calc_kM())
                rows = np.concatenate([geo.rows(X, Y, f) for f in 'uvw'])
                for nm, fs in mot.items():
                    tgt = np.concatenate([f(X, Y) for f in fs])
                    c = np.linalg.lstsq(rows, tgt, rcond=None)[0]
                    if abs(rows@c - tgt).max() > 1e-9*(abs(tgt).max() + 1e-30):
                        raise RuntimeError('rigid-body motion not represented')
                    for kn, k in ks.items():
                        sc = np.sqrt(abs(np.diag(k))) @ abs(c)
                        r.close((mod, g, m, n, li, nm, kn), k@c, 0*c, np.sqrt(abs(np.diag(k)))*sc + 1e-30, 1e-10, fkey='rigid/%s/%s/%s' % (mod[:3], kn, nm))
                        r.keys.add(str((mod, g, m, n, li, nm, kn)))
                    fi = (np.array(s.calc_fint(1e-7*c)) - np.array(s.calc_fint(-1e-7*c)))/2e-7
                    sc = np.sqrt(abs(np.diag(k)))@abs(c)
                    r.close((mod, g, m, n, li, nm, 'fint'), fi, 0*c, np.sqrt(abs(np.diag(k)))*sc + 1e-30, 1e-10, fkey='rigid/%s/fint/%s' % (mod[:3], nm))
                    # the kinetic energy is that of the mass moving rigidly
                    gx, wx = np.polynomial.legendre.leggauss(6)
                    px, py = (gx + 1)/2*a, (gx + 1)/2*b
                    PX, PY = [q.ravel() for q in np.meshgrid(px, py)]
                    W = np.outer(wx, wx).ravel()*a*b/4
                    h, off = sum(lam[1]), lam[3]
                    u, v, w = [f(PX, PY) for f in fs]
                    wX = (fs[2](PX + 1e-3, PY) - fs[2](PX - 1e-3, PY))/2e-3
                    wY = (fs[2](PX, PY + 1e-3) - fs[2](PX, PY - 1e-3))/2e-3
                    I0, I1, I2 = 1.7*h, 1.7*h*off, 1.7*(h**3/12 + h*off**2)
                    T = (W*(I0*(u*u + v*v + w*w) - 2*I1*(u*wX + v*wY) + I2*(wX**2 + wY**2))).sum()
                    r.close((mod, g, m, n, li, nm, 'kinetic'), np.array([c@M@c]), np.array([T]), np.array([T]), 1e-8, fkey='rigid/%s/kM/%s' % (mod[:3], nm))
    return r
