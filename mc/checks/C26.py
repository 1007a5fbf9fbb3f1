"""Closed-form solutions of simply supported panels"""
import itertools
import numpy as np
import scipy.linalg as sl
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('both models x flat and curved x cross-ply (symmetric, antisymmetric, with offset), isotropic and antisymmetric angle-ply laminates x aspect ratios x pre-loads x buckling loads x aerodynamic stiffness, '
        'as one panel, as a bay divided in strips and as an assembly of connected panels: all eigenvalues up to a bound, and the displacement, strain and stress fields of the eigenvectors, against the exact solutions')
MATP = (14.3, 1.1, .29, .71, .53, .37)
ISO = (2.6, 2.6, .3, 1., 1., 1.)
T = .017
THIN = 1.1e-4    # the joints of assemblies are springs: their compliance is that of a length of the order of the thickness


def laminates(tier):
    out = {
        'cross sym': ([0., 90., 0.], MATP, 0.), 'cross sym 90': ([90., 0., 0., 90.], MATP, 0.), 'cross anti': ([0., 90.], MATP, 0.), 'one': ([0.], MATP, 0.),
        'iso': ([0., 0.], ISO, 0.), 'iso turned': ([30., 71.], ISO, 0.), 'offset': ([0., 90., 0.], MATP, .02), 'offset below': ([90., 0.], MATP, -.013),
        'angle anti': ([35., -35.], MATP, 0.), 'angle anti 4': ([20., -50., 50., -20.], MATP, 0.),
    }
    return out


def shell(model, lam, a, b, r, m, n, bc, t=T):
    from panels import Shell
    st, mat, off = laminates(None)[lam]
    s = Shell(a=a, b=b, r=r, m=m, n=n, stack=st, plyt=t, laminaprop=mat, rho=1.7, offset=off*t/T)
    s.model = model
    support(s, bc)
    return s


def support(s, bc):
    """1: normal displacement free, tangential fixed; 2: the other way round"""
    for e in ('x1', 'x2', 'y1', 'y2'):
        fixed = {'x1': 'v', 'y1': 'u'}[e[0] + '1'] if bc == 1 else {'x1': 'u', 'y1': 'v'}[e[0] + '1']
        for f in 'uvw':
            setattr(s, e + f, 0. if f in ('w', fixed) else 1.)
            setattr(s, e + f + 'r', 1.)


def exact(lam, a, b, r, bc, N=(0., 0.), gamma=0., NB=None, count=40, t=T):
    """[(eigenvalue, i, j, (U, V, W))] of K + K(N) - gamma and the mass, or of the buckling loads NB"""
    st, mat, off = laminates(None)[lam]
    h, off = t*len(st), off*t/T
    ABD = C.lam_abd(st, [t]*len(st), [mat]*len(st), off)
    rho = 1.7
    I0, I1, I2 = rho*h, rho*h*off, rho*(h**3/12. + h*off**2)
    out = []
    for i, j in itertools.product(range(count), repeat=2):
        al, be = i*np.pi/a, j*np.pi/b
        if i == 0 and j == 0:
            continue
        if bc == 1:
            S = np.array([[-al, 0, 0], [0, -be, 1./r if r else 0.], [be, al, 0], [0, 0, al**2], [0, 0, be**2], [0, 0, -2*al*be]])
            grp = ([0, 1, 3, 4], [2, 5])
            live = [0, 1, 2] if i and j else [0] if i == 0 else [1]
            cpl = [al, be]
        else:
            S = np.array([[al, 0, 0], [0, be, 0], [-be, -al, 0], [0, 0, al**2], [0, 0, be**2], [0, 0, -2*al*be]])
            grp = ([0, 1, 5], [2, 3, 4])
            live = [0, 1, 2] if i and j else [1] if i == 0 else [0]
            cpl = [0., 0.]
        K = np.zeros((3, 3))
        for g in grp:
            K += S[g].T.dot(ABD[np.ix_(g, g)]).dot(S[g])
        rest = ABD.copy()
        for g in grp:
            rest[np.ix_(g, g)] = 0.
        assert abs(rest).max() < 1e-9*abs(ABD).max() or (bc == 2 and off), 'no closed form'
        K[2, 2] += N[0]*al**2 + N[1]*be**2 - gamma
        if NB is None:
            Mm = np.diag([I0, I0, I0 + I2*(al**2 + be**2)])
            Mm[0, 2] = Mm[2, 0] = -I1*cpl[0]
            Mm[1, 2] = Mm[2, 1] = -I1*cpl[1]
            w, v = sl.eigh(K[np.ix_(live, live)], Mm[np.ix_(live, live)])
            for k in range(len(live)):
                q = np.zeros(3)
                q[live] = v[:, k]
                out.append((w[k], i, j, q))
        elif i and j:
            g = NB[0]*al**2 + NB[1]*be**2
            if g != 0:
                k33 = K[2, 2] - K[2, :2].dot(np.linalg.solve(K[:2, :2], K[:2, 2]))
                q = np.r_[-np.linalg.solve(K[:2, :2], K[:2, 2]), 1.]
                out.append((-k33/g, i, j, q))
    if NB is None:
        out.sort(key=lambda t: t[0])
    else:
        out = sorted([t for t in out if t[0] > 0], key=lambda t: t[0])
    return out


def values(K, X, buckling, num=8):
    """the lowest eigenvalues: K v = w M v, or the positive ones of (K + l G) v = 0"""
    act = np.where(abs(K).sum(0) > 0)[0]
    K, X = K[np.ix_(act, act)], X[np.ix_(act, act)]
    if not buckling:
        w, v = sl.eigh(K, X, subset_by_index=[0, num - 1])
    else:
        n = len(act)
        mu, v = sl.eigh(-X, K, subset_by_index=[n - num, n - 1])     # -G v = (1/l) K v
        k = mu > 1e-9*abs(mu).max()
        w, v = 1./mu[k], v[:, k]
        o = np.argsort(w)
        w, v = w[o], v[:, o]
    return w, v, act


def compare(r, key, w, ex, tols, fkey):
    """the eigenvalues well below the first mode of more half waves than the approximation resolves; tols: accuracy by number of half waves"""
    e = np.array([t[0] for t in ex])
    q = np.array([max(t[1:3]) for t in ex])
    bad = np.where(q > max(tols))[0]
    top = e[bad[0]]*.99 if len(bad) else np.inf
    num = int((e < top).sum())
    num = min(num, len(w))
    if not num:
        return
    tol = np.array([max(tols[z] for z in q[:num][abs(e[:num] - e[k]) <= .02*e[k]]) for k in range(num)])
    r.close(key, w[:num], e[:num], scale=abs(e[:num])*tol, rtol=1., fkey=fkey)


def fields(r, key, s, c, ex, bc, a, b, rr, ABD, tol):
    """the fields of an eigenvector against those of the exact mode"""
    lam, i, j, q = ex
    al, be = i*np.pi/a, j*np.pi/b
    x, y = np.meshgrid(np.linspace(.07, .93, 5)*a, np.linspace(.11, .89, 4)*b)
    sx, cx, sy, cy = np.sin(al*x), np.cos(al*x), np.sin(be*y), np.cos(be*y)
    f = {}
    if bc == 1:
        f['u'], f['v'] = q[0]*cx*sy, q[1]*sx*cy
        f['exx'], f['eyy'], f['gxy'] = -al*q[0]*sx*sy, -be*q[1]*sx*sy, (be*q[0] + al*q[1])*cx*cy
    else:
        f['u'], f['v'] = q[0]*sx*cy, q[1]*cx*sy
        f['exx'], f['eyy'], f['gxy'] = al*q[0]*cx*cy, be*q[1]*cx*cy, -(be*q[0] + al*q[1])*sx*sy
    f['w'] = q[2]*sx*sy
    f['phix'], f['phiy'] = -al*q[2]*cx*sy, -be*q[2]*sx*cy
    if rr:
        f['eyy'] = f['eyy'] + f['w']/rr
    f['kxx'], f['kyy'], f['kxy'] = al**2*q[2]*sx*sy, be**2*q[2]*sx*sy, -2*al*be*q[2]*cx*cy
    E = np.array([f[k] for k in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')])
    S = np.einsum('ij,jkl->ikl', ABD, E)
    for k, n in enumerate(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')):
        f[n] = S[k]
    got = {}
    for m in ('uvw', 'strain', 'stress'):
        kw = {} if m == 'uvw' else dict(NLgeom=False)
        got.update({k: np.array(v) for k, v in getattr(s, m)(c, xs=x.copy(), ys=y.copy(), **kw)[1].items() if v is not None})
    # amplitude by the displacements
    A = np.concatenate([f[k].ravel() for k in 'uvw'])
    B = np.concatenate([got[k].ravel() for k in 'uvw'])
    amp = A.dot(B)/A.dot(A)
    if not np.isfinite(amp) or amp == 0:
        r.fail('mode', 'the eigenvector has nothing of the exact mode', case=key)
        return
    for kk, sc in (('u v w', None), ('phix phiy', None), ('exx eyy gxy', None), ('kxx kyy kxy', None), ('Nxx Nyy Nxy', None), ('Mxx Myy Mxy', None)):
        ns = kk.split()
        sc = max(abs(f[n]).max() for n in ns)
        if kk[0] in 'eg':
            sc = max(sc, (al + be)*max(abs(f[n]).max() for n in 'uvw'))
        if kk[0] == 'k':
            sc = max(sc, (al + be)**2*max(abs(f[n]).max() for n in 'uvw'))
        eps = (al + be)*max(abs(f[n]).max() for n in 'uvw')
        if kk[0] == 'N':
            sc = max(sc, abs(ABD[:3, :3]).max()*eps, abs(ABD[:3, :3]).max()*max(abs(E[k]).max() for k in range(3)), abs(ABD[:3, 3:]).max()*max(abs(E[k]).max() for k in range(3, 6)))
        if kk[0] == 'M':
            sc = max(sc, abs(ABD[3:, 3:]).max()*eps*(al + be), abs(ABD[:3, 3:]).max()*eps, abs(ABD[3:, 3:]).max()*max(abs(E[k]).max() for k in range(3, 6)), abs(ABD[:3, 3:]).max()*max(abs(E[k]).max() for k in range(3)))
        if sc == 0:
            continue
        for n in ns:
            r.close((key, n), got[n]/amp, f[n], scale=sc, rtol=tol, fkey='field/%s' % n)


def cases(tier):
    out = []
    geo = [(1.3, .9), (.8, 1.7)] + ([(2.9, .7), (1., 1.01)] if tier == 'thorough' else [])
    rads = [None, 1.1, 4.] + ([.6, 40.] if tier == 'thorough' else [])
    for lam in laminates(tier):
        for (a, b), r in itertools.product(geo, rads):
            if 'angle' in lam and r:
                continue
            for bc in ((2,) if 'angle' in lam else (1,) if r or 'offset' in lam else (1, 2)):
                if bc == 2 and lam in ('cross anti', 'offset', 'offset below'):
                    continue
                for model in ((C.CYL,) if r else (C.PLATE, C.CYL)):
                    if model == C.CYL and r is None:
                        continue
                    out.append((model, lam, a, b, r, bc))
    return out


def t_panel(cs, m, n, tol):
    r = R()
    for model, lam, a, b, rad, bc in cs:
        st, mat, off = laminates(None)[lam]
        ABD = C.lam_abd(st, [T]*len(st), [mat]*len(st), off)
        for pre, gamma in (((0., 0.), 0.), ((3e-5, -1e-5), 0.), ((-2e-5, 0.), 2e-6), ((0., 1e-5), -3e-6)):
            s = shell(model, lam, a, b, rad, m, n, bc)
            s.Nxx_cte, s.Nyy_cte = pre
            s.beta, s.gamma = 0., gamma
            K = dense(s.calc_kC()).real
            if gamma:
                K = K + dense(s.calc_kA()).real
            Mm = dense(s.calc_kM())
            w, v, act = values(K, Mm, False)
            ex = exact(lam, a, b, rad, bc, pre, gamma, count=14)
            key = ('panel', model, lam, a, b, rad, bc, pre, gamma)
            compare(r, key, w, ex, tol, 'frequencies')
            r.transitions += 1
            if pre == (0., 0.):
                e = np.array([t[0] for t in ex[:6]])
                for k in range(4):
                    if max(ex[k][1:3]) <= 3 and min(abs(e[k] - e[z]) for z in range(6) if z != k) > 1e-2*e[k]:
                        c = np.zeros(3*m*n)
                        c[act] = v[:, k]
                        fields(r, key + (k,), s, c, ex[k], bc, a, b, rad, ABD, {1: 1e-6, 2: 3e-5, 3: 5e-3}[max(ex[k][1:3])])
        for NB in ((-1., 0.), (0., -1.), (-1., -.5), (-1., .3)):
            s = shell(model, lam, a, b, rad, m, n, bc)
            s.Nxx, s.Nyy = NB
            w, v, act = values(dense(s.calc_kC()), dense(s.calc_kG()), True)
            key = ('buckling', model, lam, a, b, rad, bc, NB)
            compare(r, key, w, exact(lam, a, b, rad, bc, NB=NB, count=14), tol, 'buckling')
            r.transitions += 1
    return r


def t_bay(cs, m, n, tol):
    """the same panel as a bay of strips"""
    from panels.stiffpanelbay import StiffPanelBay
    r = R()
    for model, lam, a, b, rad, bc in cs:
        st, mat, off = laminates(None)[lam]
        for cuts in ((), (.37,), (.2, .55)):
            K = None
            for NB in (None, (-1., 0.), (-1., -.5)):
                s = StiffPanelBay()
                s.a, s.b, s.m, s.n, s.stack, s.plyt, s.laminaprop, s.rho, s.model = a, b, m, n, st, T, mat, 1.7, model
                s.r = rad
                support(s, bc)
                ed = [0.] + [c*b for c in cuts] + [b]
                for y1, y2 in zip(ed, ed[1:]):
                    p = s.add_panel(y1=y1, y2=y2)
                    p.offset = off
                    if NB:
                        p.Nxx, p.Nyy = NB
                key = ('bay', model, lam, a, b, rad, bc, cuts, NB)
                r.transitions += 1
                if K is None:
                    K = dense(s.calc_kC(silent=True))
                if NB is None:
                    w, v, act = values(K, dense(s.calc_kM(silent=True)), False)
                    compare(r, key, w, exact(lam, a, b, rad, bc, count=14), tol, 'bay')
                else:
                    w, v, act = values(K, dense(s.calc_kG(silent=True)), True)
                    compare(r, key, w, exact(lam, a, b, rad, bc, NB=NB, count=14), tol, 'bay')
    return r


def t_md(cs, m, n, tol):
    """the same panel as an assembly of panels connected side by side"""
    from panels.multidomain import MultiDomain
    r = R()
    for model, lam, a, b, rad, bc in cs:
        rad = rad and rad*T/THIN    # keeps the ratio of membrane to bending
        for nx, ny in ((2, 1), (1, 2), (2, 2), (3, 1)):
            for flip in (False, True):
                P = {}
                fx = [0.] + [.45, 1.] if nx == 2 else [0., 1.] if nx == 1 else [0., .3, .7, 1.]
                fy = [0., .6, 1.] if ny == 2 else [0., 1.]
                for i, j in itertools.product(range(nx), range(ny)):
                    s = shell(model, lam, a*(fx[i + 1] - fx[i]), b*(fy[j + 1] - fy[j]), rad, m, n, bc, THIN)
                    for e, inner in (('x1', i > 0), ('x2', i < nx - 1), ('y1', j > 0), ('y2', j < ny - 1)):
                        if inner:
                            for f in 'uvw':
                                setattr(s, e + f, 1.)
                    s.group, s.x0, s.y0 = 'g', a*fx[i], b*fy[j]
                    P[i, j] = s
                con = []
                for (i, j), s in P.items():
                    if (i + 1, j) in P:
                        q = P[i + 1, j]
                        con.append(dict(p1=s, p2=q, func='SSxcte', xcte1=s.a, xcte2=0.) if not flip else dict(p1=q, p2=s, func='SSxcte', xcte1=0., xcte2=s.a))
                    if (i, j + 1) in P:
                        q = P[i, j + 1]
                        con.append(dict(p1=s, p2=q, func='SSycte', ycte1=s.b, ycte2=0.) if not flip else dict(p1=q, p2=s, func='SSycte', ycte1=0., ycte2=s.b))
                ps = list(P.values())
                md = MultiDomain(ps[::-1] if flip else ps, con)
                K = dense(md.calc_kC(silent=True))
                for NB in (None, (-1., 0.), (-1., -.5)):
                    if NB:
                        for p in ps:
                            p.Nxx, p.Nyy = NB
                    key = ('assembly', model, lam, a, b, rad, bc, nx, ny, flip, NB)
                    r.transitions += 1
                    if NB is None:
                        w, v, act = values(K, dense(md.calc_kM(silent=True)), False)
                        compare(r, key, w, exact(lam, a, b, rad, bc, count=14, t=THIN), tol, 'assembly')
                    else:
                        w, v, act = values(K, dense(md.calc_kG(silent=True)), True)
                        compare(r, key, w, exact(lam, a, b, rad, bc, NB=NB, count=14, t=THIN), tol, 'assembly')
    return r


def jobs(tier, seed):
    cs = cases(tier)
    out = []
    k = 16 if tier == 'quick' else 48
    m = 12 if tier == 'quick' else 15
    for q in range(k):
        out.append(('t_panel', (cs[q::k], m, m, {1: 1e-8, 2: 1e-8, 3: 1e-5, 4: 3e-4} if tier == 'quick' else {1: 1e-8, 2: 1e-8, 3: 1e-7, 4: 1e-5, 5: 1e-4})))
    sub = cs[seed % 2::2] if tier == 'thorough' else cs[seed % 3::3]
    for q in range(8):
        out.append(('t_bay', (sub[q::8], 10, 10, {1: 2e-6, 2: 2e-4, 3: 2e-3})))
        out.append(('t_md', (sub[q::8], 8, 8, {1: 5e-3, 2: 5e-3})))
    return out
