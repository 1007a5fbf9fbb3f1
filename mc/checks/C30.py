"""Rigid-body motions: no strain energy, the total mass, the resultants of the loads"""
import itertools
import numpy as np
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('shells (laminates x offsets x numbers of terms x partial domains), every assembly of two and three panels joined by every pair of connection kinds in every order of the panels, bays with every set of one or two stiffeners; '
        'all six rigid-body motions (those that the model can represent, for cylinders): zero stiffness, penalty energy, strains, stresses and internal forces; mass, damping and geometric stiffness of the motion and work of all loads against the geometry')
SIX = np.eye(6)


class Frame:
    """position and directions of a panel"""

    def __init__(self, o=(0., 0., 0.), axes=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))):
        self.o, self.e = np.array(o, float), np.array(axes, float)

    def at(self, x, y, z=0.):
        return self.o + x*self.e[0] + y*self.e[1] + z*self.e[2]

    def local(self, q, x, y, z=0.):
        """displacement of a motion q = translation, small rotation, in the directions of the panel"""
        return self.e.dot(q[:3] + np.cross(q[3:], self.at(x, y, z)))


def line(m, v0, v1):
    """terms of the function that goes linearly from v0 to v1 (all edges free)"""
    c = np.zeros(m)
    c[:4] = v0, v1 - v0, v1, v1 - v0
    # f2, f4 are 1/2 of the slope in xi: slope (v1 - v0)/2 times 2
    return c


def bilinear(m, n, f, a, b):
    """terms of a function linear in x and y"""
    f00, fx, fy = f(0., 0.), f(a, 0.) - f(0., 0.), f(0., b) - f(0., 0.)
    X, Y, one_x, one_y = line(m, 0., 1.), line(n, 0., 1.), line(m, 1., 1.), line(n, 1., 1.)
    return f00*np.outer(one_y, one_x) + fx*np.outer(one_y, X) + fy*np.outer(Y, one_x)


def motion(s, fr, q):
    """constants of a panel that moves with q"""
    out = np.zeros((s.n, s.m, 3))
    for k in range(3):
        out[:, :, k] = bilinear(s.m, s.n, lambda x, y: fr.local(q, x, y)[k], s.a, s.b)
    return out.ravel()


def gauss2(x1, x2, y1, y2):
    p, w = np.polynomial.legendre.leggauss(3)
    for i, j in itertools.product(range(3), repeat=2):
        yield (x1 + (p[i] + 1)/2*(x2 - x1), y1 + (p[j] + 1)/2*(y2 - y1), w[i]*w[j]*(x2 - x1)*(y2 - y1)/4)


def inertia(fr, dom, h, off, rho, Q):
    """mass matrix of the motions: a plate with its middle surface at off; the rotation about its normal moves no more than its middle surface"""
    M = np.zeros((6, 6))
    g, gw = np.polynomial.legendre.leggauss(2)
    for x, y, w in gauss2(*dom):
        for t, tw in zip(g, gw):
            z = off + t*h/2
            U = np.array([fr.local(q, x, y, z) for q in Q])
            M += rho*w*h/2*tw*U.dot(U.T)
    return M


def free(s):
    for f in C.FLAGNAMES:
        setattr(s, f, 1.)
    return s


def cl(r, key, got, want, scale, fkey, tol=1e-9):
    r.transitions += 1
    r.close(key, got, want, scale=scale, rtol=tol, fkey=fkey)


def quad(K, B):
    return B.dot(K.dot(B.T))


def size_of(K, B):
    """magnitude of the terms that cancel"""
    return max((abs(B).dot(abs(K)).dot(abs(B).T)).max(), 1e-300)


def null(r, key, K, B, fkey):
    F = K.dot(B.T)
    S = abs(K).dot(abs(B).T)
    r.transitions += 1
    r.close(key, F, 0*F, scale=S + 1e-4*S.max() + 1e-300, rtol=1e-9, fkey=fkey)


def loads_on(s, k):
    """loads; returns [(x, y, force)] of constant and incremented ones"""
    P = [(.31*s.a, .64*s.b, (1., -2., 3.), True), (.77*s.a, .2*s.b, (.5, .7, -1.1), False)]
    for x, y, f, cte in P[:1 + k % 2]:
        s.add_point_load(x, y, *f, cte=cte)
    out = [(x, y, np.array(f), cte) for x, y, f, cte in P[:1 + k % 2]]
    g, gw = np.polynomial.legendre.leggauss(6)
    for ax, at, cte in (('x', .4*s.a, False), ('y', .85*s.b, True)):
        L = s.b if ax == 'x' else s.a
        fs = [lambda t: 1. + t, lambda t: .3 - t*t, lambda t: 2.*t]
        getattr(s, 'add_distr_load_fixed_' + ax)(at, *fs, cte=cte)
        for t, w in zip((g + 1)/2*L, gw*L/2):
            x, y = (at, t) if ax == 'x' else (t, at)
            out.append((x, y, w*np.array([f(t) for f in fs]), cte))
    return out


def work(loads, fr, Q, inc):
    return np.array([sum((1. if cte else inc)*f.dot(fr.local(q, x, y)) for x, y, f, cte in loads) for q in Q])


# shells -----------------------------------------------------------------
def t_shell(model, i0, step, mns):
    r = R()
    fr = Frame((.2, -.3, .1))
    Q = SIX
    if model == C.CYL:
        # axial translation, rotation about the axis
        Q = None
    for i in range(i0, 24, step):
        lam = C.laminates()[i]
        for m, n in mns:
            for part in (None, (.1, .7, .2, .5), (0., .4, .3, .6)):
                a, b = 1.1 + .1*(i % 3), .7 + .05*(i % 4)
                s = free(C.shell(model, a, b, m, n, r=.9 if model == C.CYL else None, lam=lam))
                s.nx, s.ny = max(m, n) + 4, max(m, n) + 4
                dom = (0., a, 0., b)
                if part:
                    s.x1, s.x2, s.y1, s.y2 = dom = part[0]*a, part[1]*a, part[2]*b, part[3]*b
                if model == C.CYL:
                    B = np.zeros((2, m*n*3))
                    for k in range(2):
                        z = np.zeros((n, m, 3))
                        z[:, :, k] = np.outer(line(n, 1., 1.), line(m, 1., 1.))
                        B[k] = z.ravel()
                else:
                    B = np.array([motion(s, fr, q) for q in SIX])
                key = (model, i, m, n, part)
                loads = loads_on(s, i)
                K = dense(s.calc_kC())
                null(r, key, K, B, 'shell/kC')
                c = .05*C.vec(len(K), i)
                null(r, key + ('c',), dense(s.calc_kC(c=c)), B, 'shell/kC c')
                T = B[:3] if model != C.CYL else B
                s.Nxx, s.Nyy, s.Nxy = 1.1, -.7, .4
                for nm, G in (('kG', s.calc_kG()), ('kG c', s.calc_kG(c=c)), ('kG NL', s.calc_kG(c=c, NLgeom=True)), ('kT', s.calc_kT(c=c))):
                    null(r, key + (nm,), dense(G), T, 'shell/' + nm)
                for nm, f in (('fint', lambda v: np.array(s.calc_fint(v))),):
                    f0, f1 = f(c), f(c + .3*T.sum(0))
                    sc = abs(K).dot(abs(c) + .3*abs(T).sum(0)).max()
                    cl(r, key + (nm,), f1, f0, sc, 'shell/' + nm)
                    F = np.array([f(t) for t in T])
                    cl(r, key + (nm, 'rigid'), F, 0*F, sc, 'shell/' + nm)
                    # the internal forces of any state have no resultant
                    cl(r, key + (nm, 'resultant'), T.dot(f0), 0*T.dot(f0), (abs(T).dot(abs(f0))).max(), 'shell/resultant')
                # mass
                h = sum(lam[1])
                M = quad(dense(s.calc_kM()), B)
                if model == C.CYL:
                    want = np.eye(2)*1.7*h*(dom[1] - dom[0])*(dom[3] - dom[2])
                else:
                    want = inertia(fr, dom, h, lam[3], 1.7, SIX)
                    # no rotary inertia about the normal through the thickness is missed: z does not move in the plane rotation
                cl(r, key, M, want, abs(want).max(), 'shell/kM')
                # membrane forces work through rotations of the normal only
                if model != C.CYL:
                    G = quad(dense(s.calc_kG()), B)
                    A = (dom[1] - dom[0])*(dom[3] - dom[2])
                    g = np.array([[-q[4], q[3]] for q in SIX])   # w,x  w,y
                    want = A*g.dot(np.array([[1.1, .4], [.4, -.7]])).dot(g.T)
                    cl(r, key, G, want, size_of(dense(s.calc_kG()), B), 'shell/kG work')
                    if not part:
                        D = quad(dense(s.calc_cA(.6)), B)
                        want = np.zeros((6, 6), complex)
                        for x, y, w in gauss2(*dom):
                            u = np.array([fr.local(q, x, y)[2] for q in SIX])
                            want += -1j*.6*w*np.outer(u, u)
                        cl(r, key, D, want, abs(want).max(), 'shell/cA')
                    for inc in (1., .3):
                        want = work(loads, fr, SIX, inc)
                        cl(r, key + (inc,), B.dot(s.calc_fext(inc=inc)), want, 10., 'shell/fext')
                    # fields
                    for k, q in enumerate(SIX):
                        xs, ys = np.array([.1, .5, .83])*a, np.array([.9, .2, .47])*b
                        f = s.uvw(B[k], xs=xs, ys=ys)[1]
                        want = np.array([fr.local(q, x, y) for x, y in zip(xs, ys)]).T
                        cl(r, key + (k,), np.array([f[z] for z in 'uvw']), want, 2., 'shell/uvw')
                        cl(r, key + (k, 'phi'), np.array([f['phix'], f['phiy']]), np.array([[q[4]]*3, [-q[3]]*3]), 1., 'shell/phi')
                        f = s.strain(B[k], xs=xs, ys=ys, NLgeom=False)[1]
                        cl(r, key + (k, 'strain'), np.array([f[z] for z in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')]), np.zeros((6, 3)), 30., 'shell/strain')
                else:
                    for inc in (1., .3):
                        want = [sum((1. if cte else inc)*f[k] for x, y, f, cte in loads) for k in range(2)]
                        cl(r, key + (inc,), B.dot(s.calc_fext(inc=inc)), want, 10., 'shell/fext')
    return r


# assemblies ---------------------------------------------------------------
KINDS = ('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB')


def panel(k, a, b):
    s = free(C.shell(C.PLATE, a, b, *((4, 5), (5, 4), (4, 4))[k % 3], lam=C.laminates()[(3, 8, 13, 17)[k % 4]]))
    s.group, s.nx, s.ny = 'g%d' % k, 9, 9
    return s


def attach(p1, f1, kind, k, where):
    """panel joined to another one, its frame and the connection"""
    a, b = p1.a, p1.b
    if kind == 'SB':
        p2 = panel(k, a, b)
        d = (sum(p1.plyts) + sum(p2.plyts))/2
        return p2, Frame(f1.at(0., 0., -d), f1.e), dict(p1=p1, p2=p2, func='SB')
    e = kind[2:]
    p2 = panel(k, *((a*.6, b) if e == 'xcte' else (a, b*.6)))
    L1, L2 = (p1.a, p2.a) if e == 'xcte' else (p1.b, p2.b)
    q1, q2 = ((1., 0.), (.5, 1.), (0., .25))[where]
    q1, q2 = q1*L1, q2*L2
    ex, ey, ez = f1.e
    if kind.startswith('SS'):
        ax = (ex, ey, ez)
    elif e == 'ycte':
        ax = (ex, -ez, ey)
    else:
        ax = (-ez, ey, ex)
    common = f1.at(q1, 0.) if e == 'xcte' else f1.at(0., q1)
    f2 = Frame((0., 0., 0.), ax)
    f2 = Frame(common - (f2.e[0] if e == 'xcte' else f2.e[1])*q2, ax)
    return p2, f2, {'p1': p1, 'p2': p2, 'func': kind, e + '1': q1, e + '2': q2}


def t_assembly(kinds, tree, wheres, orders):
    from panels.multidomain import MultiDomain
    r = R()
    for where in wheres:
        for order in orders:
            P = [panel(0, 1.2, .8)]
            F = [Frame((.3, .1, -.2), np.array([[.6, .8, 0.], [-.8, .6, 0.], [0., 0., 1.]]))]
            cn = []
            for i, kind in enumerate(kinds):
                j = 0 if tree else i
                p, f, c = attach(P[j], F[j], kind, i + 1, (where + i) % 3)
                P.append(p)
                F.append(f)
                cn.append(c)
            loads = [loads_on(p, i) for i, p in enumerate(P)]
            idx = [o for o in order if o < len(P)]
            if sorted(idx) != list(range(len(P))):
                continue
            md = MultiDomain([P[i] for i in idx], cn)
            B = np.array([np.concatenate([motion(P[i], F[i], q) for i in idx]) for q in SIX])
            key = (kinds, tree, where, order)
            K = dense(md.calc_kC(silent=True))
            n = len(K)
            c = .03*C.vec(n, where)
            null(r, key, K, B, 'assembly/kC')
            null(r, key + ('conn',), dense(md.get_kC_conn()), B, 'assembly/conn ' + '+'.join(kinds) if len(kinds) == 1 else 'assembly/conn')
            null(r, key + ('c',), dense(md.calc_kC(c=c, silent=True)), B, 'assembly/kC c')
            T = B[:3]
            null(r, key + ('kG',), dense(md.calc_kG(c=c, silent=True)), T, 'assembly/kG')
            null(r, key + ('kT',), dense(md.calc_kT(c=c, silent=True)), T, 'assembly/kT')
            f0, f1 = np.array(md.calc_fint(c, silent=True)), np.array(md.calc_fint(c + .3*T.sum(0), silent=True))
            sc = abs(K).dot(abs(c) + .3*abs(T).sum(0)).max()
            cl(r, key, f1, f0, sc, 'assembly/fint')
            cl(r, key, T.dot(f0), np.zeros(3), abs(T).dot(abs(f0)).max(), 'assembly/resultant')
            M = dense(md.calc_kM(silent=True))
            want = sum(inertia(F[i], (0., P[i].a, 0., P[i].b), sum(P[i].plyts), P[i].offset, 1.7, SIX) for i in idx)
            cl(r, key, quad(M, B), want, abs(want).max(), 'assembly/kM')
            for inc in (1., .3):
                want = sum(work(loads[i], F[i], SIX, inc) for i in idx)
                cl(r, key + (inc,), B.dot(md.calc_fext(inc=inc, silent=True)), want, 20., 'assembly/fext')
            for i in idx:
                for k, q in enumerate(SIX):
                    u = md.uvw(B[k], P[i].group, gridx=3, gridy=4)
                    xs, ys = np.linspace(0, P[i].a, 3), np.linspace(0, P[i].b, 4)
                    want = np.array([[F[i].local(q, x, y) for x in xs] for y in ys])
                    cl(r, key + (i, k), np.stack([u[z][0] for z in 'uvw'], -1), want, 4., 'assembly/uvw')
                    e = md.strain(B[k], P[i].group, gridx=3, gridy=4, NLterms=False)
                    for z in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'):
                        cl(r, key + (i, k, z), np.array(e[z]), 0*np.array(e[z]), 30., 'assembly/strain')
    return r


# bays ------------------------------------------------------------------------
def t_bay(stiffs, strips):
    from panels.stiffpanelbay import StiffPanelBay
    r = R()
    s = StiffPanelBay()
    s.a, s.b, s.m, s.n, s.model, s.rho = 1.3, .9, 5, 4, C.PLATE, 1.2
    for f in C.FLAGNAMES:
        setattr(s, f, 1.)
    s.stack, s.plyt, s.laminaprop = [25., -10.], .03, C.MAT
    Y = np.linspace(0, .9, strips + 1)
    M = np.zeros((6, 6))
    O = Frame((.2, -.3, .1))
    for i in range(strips):
        lam = C.laminates()[i + 3]
        s.add_panel(y1=Y[i], y2=Y[i + 1], stack=list(lam[0]), plyts=list(lam[1]), laminaprops=list(lam[2]), rho=1. + i, offset=lam[3], Nxx=-1. - i, Nyy=.4, Nxy=.3)
        M += inertia(O, (0., s.a, Y[i], Y[i + 1]), sum(lam[1]), lam[3], 1. + i, SIX)
    flanges = []
    for j, (kind, pos) in enumerate(stiffs):
        ys = Y[pos]
        kw = dict(ys=ys, rho=2. + j)
        if 'b' in kind:
            kw.update(bb=.12, bstack=[5., 60.], bplyt=.02, blaminaprop=C.MAT2)
        if 'f' in kind:
            kw.update(bf=.2 + .03*j, fstack=[0., 30.], fplyt=.015, flaminaprop=C.MAT)
        near = [min(max(pos - 1, 0), strips - 1), min(pos, strips - 1)]
        h = sum(sum(C.laminates()[q + 3][1]) for q in near)/2
        hb = .04 if 'b' in kind else 0.
        if 'b' in kind:
            M += inertia(O, (0., s.a, ys - .06, ys + .06), hb, -h/2 - hb/2, 2. + j, SIX)
        if kind[0] == '1':
            s.add_bladestiff1d(**kw)
            if 'f' in kind:
                # a line of material along the normal
                bf = kw['bf']
                z0, z1 = -h/2 - hb, -h/2 - hb - bf
                g, gw = np.polynomial.legendre.leggauss(3)
                for p, w in zip(g, gw):
                    for t, tw in zip(g, gw):
                        U = np.array([O.local(q, (p + 1)/2*s.a, ys, z0 + (t + 1)/2*(z1 - z0)) for q in SIX])
                        # plane rotations of the skin do not turn the line about itself: they move it with the point of the skin
                        M += (2. + j)*.03*w*tw*s.a/2*bf/2*U.dot(U.T)
        else:
            t = s.add_bladestiff2d(mf=4, nf=5, **kw)
            if 'f' in kind:
                for f in C.FLAGNAMES:
                    setattr(t.flange, f, 1.)
                t.flange.Nxx = -.5
                fr = Frame(O.at(0., ys), (O.e[0], -O.e[2], O.e[1]))
                t.forces_flange.append([.4, .1, 1., 2., 3.])
                flanges.append((t, fr))
                M += inertia(fr, (0., s.a, 0., kw['bf']), .03, 0., 2. + j, SIX)
    s.forces_skin.append([.3, .5, 1., -2., 3.])
    s.forces_skin.append([1.1, .2, .5, 2., -.4])

    class Skin:
        a, b, m, n = s.a, s.b, s.m, s.n
    parts = [(Skin, O)] + [(t.flange, fr) for t, fr in flanges]
    B = np.array([np.concatenate([motion(p, fr, q) for p, fr in parts]) for q in SIX])
    key = (stiffs, strips)
    K = dense(s.calc_kC(silent=True))
    null(r, key, K, B, 'bay/kC')
    null(r, key + ('kG',), dense(s.calc_kG(silent=True)), B[:3], 'bay/kG')
    cl(r, key, quad(dense(s.calc_kM(silent=True)), B), M, abs(M).max(), 'bay/kM')
    want = np.array([sum(np.array(f[2:]).dot(fr.local(q, f[0], f[1])) for fs, fr in [(s.forces_skin, O)] + [(t.forces_flange, fr) for t, fr in flanges] for f in fs) for q in SIX])
    cl(r, key, B.dot(s.calc_fext(silent=True)), want, 20., 'bay/fext')
    for k, q in enumerate(SIX):
        X, Z = np.linspace(0, s.a, 3), np.linspace(0, s.b, 4)
        u = s.uvw_skin(B[k], gridx=3, gridy=4)
        cl(r, key + (k, 'skin'), np.stack(u[:3], -1), np.array([[O.local(q, x, y) for x in X] for y in Z]), 4., 'bay/skin')
        for t, fr in flanges:
            u = s.uvw_stiffener(B[k], s.stiffeners.index(t), region='flange', gridx=3, gridy=4)
            cl(r, key + (k, 'flange'), np.stack(u[:3], -1), np.array([[fr.local(q, x, y) for x in X] for y in np.linspace(0, t.flange.b, 4)]), 4., 'bay/flange')
    return r


def jobs(tier, seed):
    out = []
    mns = [(4, 5), (5, 4), (6, 6)] if tier == 'quick' else [(4, 4), (4, 7), (7, 4), (6, 5), (9, 8), (12, 4)]
    for model in C.MODELS:
        for i in range(8):
            out.append(('t_shell', (model, i, 8, mns)))
    orders = [(0, 1, 2), (2, 1, 0), (1, 0, 2), (2, 0, 1), (0, 2, 1), (1, 2, 0)]
    for k in KINDS:
        out.append(('t_assembly', ((k,), False, (0, 1, 2), [(0, 1), (1, 0)])))
    for ks in itertools.product(KINDS, repeat=2):
        for tree in (False, True):
            out.append(('t_assembly', (ks, tree, (0,) if tier == 'quick' else (0, 1, 2), orders if tier != 'quick' else orders[:2] + orders[4:5])))
    if tier != 'quick':
        for ks in itertools.product(KINDS, repeat=3):
            out.append(('t_assembly', (ks, False, (0, 1), [(0, 1, 2, 3), (3, 1, 0, 2)])))
            out.append(('t_assembly', (ks, True, (2,), [(2, 0, 3, 1)])))
    kinds = ('1f', '1b', '1bf', '2f', '2b', '2bf')
    for strips in (1, 2, 3):
        out.append(('t_bay', ((), strips)))
        one = [(k, p) for k in kinds for p in (range(1, strips) if strips > 1 else ())] + [(k, p) for k in ('1f', '2f') for p in (0, strips)]
        for st in one:
            out.append(('t_bay', ((st,), strips)))
        for st in itertools.product(one, repeat=2):
            if strips < 3 or tier != 'quick':
                out.append(('t_bay', (st, strips)))
    return out
