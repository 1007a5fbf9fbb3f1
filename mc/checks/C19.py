"""The ready-made assemblies against a description of the structure"""
import itertools
import numpy as np
import scipy.linalg as sl
import asm
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('all parameter sets of a grid for every builder: number of panels, different loads, laminates and widths per panel, term numbers, stiffener positions, defects, radii, '
        'air flows; the assembly is found by group and position; every entry of the matrices, forces and static solutions against independently composed panels and '
        'connections, every returned eigenpair against the independent matrices and the first eigenvalue against a dense solution')
MATP = (14.3, 1.1, .29, .71, .53, .37)
PLYT = .011
XR = {e + f + 'r': 1. for e in ('x1', 'x2', 'y1', 'y2') for f in 'uvw'}


class Spec:
    """A structure: panels (key: group, x0, y0), connections, loads"""

    def __init__(self):
        self.P, self.keys, self.conn = [], [], []

    def add(self, group, x0, y0, a, b, r, m, n, stack, restrained=(), **kw):
        from panels import Shell
        s = Shell(a=a, b=b, m=m, n=n, r=r, stack=list(stack), plyt=PLYT, laminaprop=MATP)
        s.plyts = [PLYT]*len(stack)
        s.offset = 0.
        s.laminaprops = [MATP]*len(stack)
        s.nx = s.ny = 14
        for e in ('x1', 'x2', 'y1', 'y2'):
            for f in 'uvw':
                setattr(s, e + f, 0. if e + f in restrained else 1.)
                setattr(s, e + f + 'r', 1.)
        for k, v in kw.items():
            setattr(s, k, v)
        self.P.append(s)
        self.keys.append((group, x0, y0))
        return s

    def con(self, func, p1, p2, **kw):
        self.conn.append(dict(p1=p1, p2=p2, func=func, **kw))

    def place(self, fn, vec=False):
        off, size = asm.offsets(self.P)
        out = np.zeros(size) if vec else np.zeros((size, size))
        for k, (o, p) in enumerate(zip(off, self.P)):
            B = fn(k, p)
            if B is None:
                continue
            s = 3*p.m*p.n
            if vec:
                out[o:o + s] += B
            else:
                out[o:o + s, o:o + s] += dense(B)
        return out

    def K0(self):
        ab = [C.lam_abd(p.stack, p.plyts, p.laminaprops, 0.) for p in self.P]
        S = asm.conn_matrix(self.P, ab, self.conn, True)
        K = self.place(lambda k, p: p.calc_kC())
        return K + asm.conn_matrix(self.P, ab, self.conn), S + abs(K)

    def parts(self, c):
        off, size = asm.offsets(self.P)
        return [np.ascontiguousarray(c[o:o + 3*p.m*p.n]) for o, p in zip(off, self.P)]

    def find(self, r, key, assy):
        """permutation: library dof of every dof of mine; None when the panels do not correspond"""
        left = list(assy.panels)
        idx = []
        off, size = asm.offsets(self.P)
        assy.get_size()
        for (g, x0, y0), p in zip(self.keys, self.P):
            q = [z for z in left if z.group == g and abs(z.x0 - x0) < 1e-9 and abs(z.y0 - y0) < 1e-9]
            if len(q) != 1:
                r.fail('panels', '%d panels of group %s at (%g, %g) instead of 1' % (len(q), g, x0, y0), case=key)
                return None
            q = q[0]
            left.remove(q)
            if (q.m, q.n) != (p.m, p.n) or abs(q.a - p.a) > 1e-9 or abs(q.b - p.b) > 1e-9:
                r.fail('dimensions', 'panel %s at (%g, %g): a, b, m, n = %r instead of %r' % (g, x0, y0, (q.a, q.b, q.m, q.n), (p.a, p.b, p.m, p.n)), case=key)
                return None
            idx += list(range(q.col_start, q.col_start + 3*p.m*p.n))
        if left:
            r.fail('panels', '%d panels too many' % len(left), case=key)
            return None
        r.case((key, 'panels'))
        return np.array(idx)


def close(r, key, got, exp, scale=None, rtol=1e-8):
    s = abs(exp) if scale is None else scale
    return r.close(key, got, exp, s + 1e-4*s.max() + 1e-300, rtol, fkey=key[0] + '/' + key[-1])


def reduced(K, S):
    return np.where(abs(S).max(axis=0) > 1e-12*abs(S).max())[0]


def pairs(r, key, A, B, lam, vec, count, sA=None):
    """A v + lam B v = 0 for every pair, count of them"""
    lam, vec = np.asarray(lam), np.asarray(vec)
    if lam.shape[0] < 1 or vec.shape[1] != lam.shape[0]:
        r.fail(key[0] + '/eigen-count', '%d eigenvalues, %r eigenvectors' % (lam.size, vec.shape), case=key)
        return
    for i in range(min(count, lam.size)):
        v = vec[:, i]
        if not np.isfinite(lam[i]):
            continue
        x, y = A@v, lam[i]*(B@v)
        s = np.linalg.norm(x) + np.linalg.norm(y)
        r.case((key, i))
        if not s > 0 or not np.linalg.norm(x + y) <= 2e-5*s:
            r.fail(key[0] + '/eigenpair', 'eigenpair %d (%r): relative residual %g' % (i, complex(lam[i]), np.linalg.norm(x + y)/(s + 1e-300)), case=key)
            return


def lowest_buckling(K, KG, keep):
    mu = sl.eigh(KG[np.ix_(keep, keep)], K[np.ix_(keep, keep)], eigvals_only=True)
    return -1/mu[0] if mu[0] < 0 else None


# ---------------------------------------------------------------- cylinders
def cyl_spec(height, rad, stack, npan, m, n, blades=None, x2u=0):
    s = Spec()
    b = 2*np.pi*rad/npan
    R8 = ['x1u', 'x1v', 'x1w', 'x2v', 'x2w'] + ([] if x2u else ['x2u'])
    for i in range(npan):
        s.add('skin', 0., i*b, height, b, rad, m, n, stack, R8)
    if blades:
        for i in range(npan):
            s.add('blade_%02d' % i, 0., i*b, height, blades[1][i], None, m, n, blades[0][i], R8)
    for i in range(npan):
        j = (i + 1) % npan
        s.con('SSycte', s.P[i], s.P[j], ycte1=b, ycte2=0.)
    if blades:
        for i in range(npan):
            s.con('BFycte', s.P[i], s.P[npan + i], ycte1=0., ycte2=0.)
    return s


def cyl_par(k):
    """(height, r, npanels, m, n, stack, blades, Nskin, Nblade)"""
    npan = (2, 3, 5)[k % 3]
    m, n = ((4, 4), (5, 4), (4, 5), (3, 6))[k % 4]
    st = ([30., -20., 75.], [0., 90.], [45., 10., 0., -60.])[(k//2) % 3]
    bl = ([([0., 90.], [15., 15., -30.], [60.])[(i + k) % 3] for i in range(npan)], [.11 + .03*((i*2 + k) % 4) for i in range(npan)])
    ns = [-1. - .2*((3*i + k) % 5) for i in range(npan)]
    nb = [-.7 - .15*((2*i + k) % 4) for i in range(npan)]
    return (.9, 1.3, .6)[k % 3], (.5, .8)[k % 2], npan, m, n, st, bl, ns, nb


def mapped(M, idx):
    M = dense(M)
    return M[np.ix_(idx, idx)] if M.ndim == 2 else M[idx]


def cyl_create(k, stiff):
    import panels.multidomain as md
    from panels.multidomain.cylinder import create_cylinder_assy
    from panels.multidomain.cylinder_blade_stiffened import create_cylinder_blade_stiffened
    r = R()
    h, rad, npan, m, n, st, bl, ns, nb = cyl_par(k)
    key = ('cylinder' + '-blades'*stiff, k)
    kw = dict(height=h, r=rad, stack=st, plyt=PLYT, laminaprop=MATP, npanels=npan, m=m, n=n)
    if stiff:
        f = create_cylinder_blade_stiffened
        kw.update(stack_blades=bl[0], width_blades=bl[1])
    else:
        f = create_cylinder_assy
    assy, conns = f(**kw)
    s = cyl_spec(h, rad, st, npan, m, n, bl if stiff else None)
    idx = s.find(r, key, assy)
    if idx is None:
        return r
    K, S = s.K0()
    close(r, key + ('kC',), mapped(assy.calc_kC(conns, silent=True), idx), K, S)
    assy.conn = conns
    close(r, key + ('kC',), mapped(assy.calc_kC(silent=True), idx), K, S)
    # what is not a cylinder is refused
    bad = [dict(npanels=1), dict(npanels=0)]
    if stiff:
        bad += [dict(stack_blades=bl[0][:-1]), dict(stack_blades=bl[0] + [[0.]]), dict(width_blades=bl[1][:-1]), dict(width_blades=bl[1] + [.1])]
    for d in bad:
        refused(r, key, f, dict(kw, **d))
    # default number of terms
    if k == 0:
        kw.pop('m'), kw.pop('n')
        assy, conns = f(**kw)
        s = cyl_spec(h, rad, st, npan, 8, 8, bl if stiff else None)
        s.find(r, key + ('default',), assy)
    return r


def refused(r, key, f, kw):
    r.case((key, 'refused', sorted((a, repr(b)) for a, b in kw.items())))
    try:
        f(**kw)
    except ValueError:
        return
    r.fail(key[0] + '/not-refused', 'invalid parameters were accepted', case=key, parameters=kw)


def cyl_lb(k, stiff, static):
    import panels.multidomain as md
    r = R()
    h, rad, npan, m, n, st, bl, ns, nb = cyl_par(k)
    key = ('cylinder' + '-blades'*stiff + ('-static' if static else '-cte'), k)
    kw = dict(height=h, r=rad, stack=st, plyt=PLYT, laminaprop=MATP, npanels=npan, m=m, n=n, num_eigvalues=6)
    if stiff:
        kw.update(stack_blades=bl[0], width_blades=bl[1], Nxxs_skin=ns, Nxxs_blade=nb)
        names = ('Nxxs_skin', 'Nxxs_blade')
        f = md.cylinder_blade_stiffened_compression_lb_Nxx_from_static if static else md.cylinder_blade_stiffened_compression_lb_Nxx_cte
    else:
        kw.update(Nxxs=ns)
        names = ('Nxxs',)
        f = md.cylinder_compression_lb_Nxx_from_static if static else md.cylinder_compression_lb_Nxx_cte
    out = f(**kw)
    s = cyl_spec(h, rad, st, npan, m, n, bl if stiff else None, x2u=1)
    assy = out[0]
    idx = s.find(r, key, assy)
    if idx is None:
        return r
    N = ns + nb
    K, S = s.K0()
    keep = reduced(K, S)
    if static:
        c = np.asarray(out[1])
        for p, q in zip(s.P, N):
            p.add_distr_load_fixed_x(p.a, lambda y, q=q: q, None, None)
        fe = s.place(lambda j, p: p.calc_fext(), True)
        close(r, key + ('fext',), mapped(assy.calc_fext(silent=True), idx), fe)
        x = np.zeros(fe.size)
        x[keep] = np.linalg.solve(K[np.ix_(keep, keep)], fe[keep])
        r.close(key + ('c',), c[idx], x, abs(x).max(), 1e-6, fkey=key[0] + '/c')
        cs = s.parts(c[idx])
        KG = s.place(lambda j, p: p.calc_kG(c=cs[j]))
        got = assy.calc_kG(c=c, silent=True)
    else:
        for p, q in zip(s.P, N):
            p.Nxx = q
        KG = s.place(lambda j, p: p.calc_kG())
        got = assy.calc_kG(silent=True)
        close(r, key + ('kG',), mapped(got, idx), KG)
    lam, vec = out[-2], np.asarray(out[-1])[idx]
    pairs(r, key, K, KG, lam, vec, 6)
    lo = lowest_buckling(K, KG, keep)
    if lo is not None:
        r.close(key + ('first',), lam[0], lo, abs(lo), 1e-5, fkey=key[0] + '/first')
    for nm in names:
        refused(r, key, f, dict(kw, **{nm: kw[nm][:-1]}))
        refused(r, key, f, dict(kw, **{nm: kw[nm] + [-1.]}))
    return r


def cyl_spla(k):
    from panels.multidomain import MultiDomain
    from panels.multidomain.cylinder import cylinder_spla
    r = R()
    h, rad, npan, m, n, st, bl, ns, nb = cyl_par(k)
    key = ('spla', k)
    Nxx, P = (-2e-3, -4e-3)[k % 2], (1e-5, 3e-5, -2e-5)[k % 3]
    assy, incs, cs = cylinder_spla(height=h, r=rad, stack=st, plyt=PLYT, laminaprop=MATP, npanels=npan, Nxx=Nxx, SPLA=P, m=m, n=n)
    s = cyl_spec(h, rad, st, npan, m, n, x2u=1)
    idx = s.find(r, key, assy)
    if idx is None:
        return r
    for i, p in enumerate(s.P):
        p.nx = p.ny = 10
        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
        if i == 0:
            p.add_point_load(p.a/2, p.b/2, 0, 0, -P, cte=True)
    own = MultiDomain(s.P, s.conn)
    for inc in (1., .4, 0.):
        close(r, key + ('fext',), np.asarray(assy.calc_fext(inc=inc, silent=True))[idx], s.place(lambda j, p: p.calc_fext(inc=inc), True))
    if len(incs) != len(cs) or not len(cs) or abs(incs[-1] - 1) > 1e-9:
        r.fail('spla/increments', 'load factors %r for %d solutions' % (list(incs), len(cs)), case=key)
        return r
    for inc, c in [(incs[-1], cs[-1])]:     # the solver also scales the constant load before
        c = np.ascontiguousarray(np.asarray(c)[idx])
        fe = np.asarray(own.calc_fext(inc=inc, silent=True))
        fi = np.asarray(own.calc_fint(c, silent=True))
        sc = max(abs(fe).max(), abs(fi).max())
        r.close(key + ('equilibrium', inc), fi, fe, sc, 1e-5, fkey='spla/equilibrium')
    return r


# ---------------------------------------------------------------- T-stiffened panels
TST = dict(stack_skin=[0., 40., -35., 90.], stack_base=[0., 70.], stack_flange=[20., -10., 0.])


def t_spec(a, b, ys, bb, bf, defect_a, r, mn, loaded_free, air=None, N=None):
    m, n, mb, nb, mf, nf = mn
    s = Spec()
    d = defect_a*a or .33*a
    al = (a - d)/2
    X = [(0., al), (al, d), (al + d, al)]
    Y = [(0., ys - bb/2), (ys - bb/2, bb), (ys + bb/2, b - ys - bb/2)]

    def edge(i, flange=False):
        out = []
        if i == 0:
            out += ['x1v', 'x1w'] + ([] if loaded_free else ['x1u'])
        if i == 2:
            out += ['x2u', 'x2v', 'x2w']
        return out
    sk, ba, fl = {}, {}, {}
    for i, (x0, la) in enumerate(X):
        for j, (y0, lb) in enumerate(Y):
            res = edge(i) + (['y1v', 'y1w'] if j == 0 else []) + (['y2v', 'y2w'] if j == 2 else [])
            sk[i, j] = s.add('skin', x0, y0, la, lb, r, m, n, TST['stack_skin'], res, rho=1.4, **(air or {}))
        ba[i] = s.add('base', x0, Y[1][0], la, bb, r, mb, nb, TST['stack_base'], [], rho=1.4)
        fl[i] = s.add('flange', x0, 0., la, bf, None, mf, nf, TST['stack_flange'], edge(i), rho=1.4)
    for i in range(3):
        for j in range(2):
            s.con('SSycte', sk[i, j + 1], sk[i, j], ycte1=0., ycte2=Y[j][1])
    for i in range(2):
        for j in range(3):
            s.con('SSxcte', sk[i + 1, j], sk[i, j], xcte1=0., xcte2=X[i][1])
        for q in (ba, fl):
            s.con('SSxcte', q[i + 1], q[i], xcte1=0., xcte2=X[i][1])
    for i in range(3):
        if i != 1 or defect_a == 0:
            s.con('SB', sk[i, 1], ba[i])
        s.con('BFycte', ba[i], fl[i], ycte1=bb/2, ycte2=0.)
    s.loaded = [(sk[0, 0], 0), (sk[0, 1], 0), (sk[0, 2], 0), (ba[0], 1), (fl[0], 2)]
    s.kind = {id(p): (0 if g == 'skin' else 1 if g == 'base' else 2) for p, (g, x, y) in zip(s.P, s.keys)}
    return s


TGEO = [dict(a=2., b=1., ys=.5, bb=.2, bf=.15), dict(a=1.6, b=1.1, ys=.35, bb=.3, bf=.1)]
TMN = [(4, 4, 4, 4, 4, 4), (4, 5, 5, 4, 3, 4)]
TN = [(-1., -1., -1.), (-.8, -1.3, -.5), (-1., 0., -2.)]


def t_kw(g, defect, r, mn):
    kw = dict(TGEO[g], defect_a=defect, rho=1.4, plyt=PLYT, laminaprop=MATP, r=r, **TST)
    kw.update(zip(('m', 'n', 'mb', 'nb', 'mf', 'nf'), TMN[mn]))
    return kw


def static_N(r, key, s, N, K, S, c, idx, assy):
    keep = reduced(K, S)
    for p, k in s.loaded:
        p.add_distr_load_fixed_x(0., lambda y, q=N[k]: -q, None, None)
    fe = s.place(lambda j, p: p.calc_fext(), True)
    close(r, key + ('fext',), mapped(assy.calc_fext(silent=True), idx), fe)
    x = np.zeros(fe.size)
    x[keep] = np.linalg.solve(K[np.ix_(keep, keep)], fe[keep])
    r.close(key + ('c',), c[idx], x, abs(x).max(), 1e-6, fkey=key[0] + '/c')
    return s.parts(x)


def t_compression(g, defect, rad, mn, run):
    from panels.multidomain import tstiff2d_1stiff_compression
    r = R()
    for N in TN:
        key = ('compression-static' if run else 'compression-cte', g, defect, rad, mn, N)
        kw = t_kw(g, defect, rad, mn)
        out = tstiff2d_1stiff_compression(Nxx_skin=N[0], Nxx_base=N[1], Nxx_flange=N[2], run_static_case=run, nx=10, ny=11, nxb=9, nyb=12, nxf=10, nyf=10, **kw)
        s = t_spec(defect_a=defect, r=rad, mn=TMN[mn], loaded_free=run, **TGEO[g])
        assy = out[0]
        idx = s.find(r, key, assy)
        if idx is None:
            return r
        K, S = s.K0()
        keep = reduced(K, S)
        close(r, key + ('kC',), mapped(assy.kC, idx), K, S)
        close(r, key + ('kM',), mapped(assy.calc_kM(silent=True), idx), s.place(lambda j, p: p.calc_kM()))
        if run:
            cs = static_N(r, key, s, N, K, S, np.asarray(out[1]), idx, assy)
            KG = s.place(lambda j, p: p.calc_kG(c=cs[j]))
        else:
            for p in s.P:
                p.Nxx = N[s.kind[id(p)]]
            KG = s.place(lambda j, p: p.calc_kG())
            close(r, key + ('kG',), mapped(assy.calc_kG(silent=True), idx), KG)
        lam, vec = out[-2], np.asarray(out[-1])[idx]
        pairs(r, key, K, KG, lam, vec, 25)
        lo = lowest_buckling(K, KG, keep)
        r.close(key + ('first',), lam[0], lo, abs(lo), 1e-5, fkey=key[0] + '/first')
    return r


def t_freq(g, defect, rad, mn):
    from panels.multidomain import tstiff2d_1stiff_freq
    r = R()
    key = ('freq', g, defect, rad, mn)
    assy, lam, vec = tstiff2d_1stiff_freq(**t_kw(g, defect, rad, mn))
    s = t_spec(defect_a=defect, r=rad, mn=TMN[mn], loaded_free=True, **TGEO[g])
    idx = s.find(r, key, assy)
    if idx is None:
        return r
    K, S = s.K0()
    M = s.place(lambda j, p: p.calc_kM())
    close(r, key + ('kC',), mapped(assy.kC, idx), K, S)
    close(r, key + ('kM',), mapped(assy.kM, idx), M)
    pairs(r, key, K, M, lam, np.asarray(vec)[idx], 25)
    keep = reduced(K, S)
    lo = sl.eigh(K[np.ix_(keep, keep)], M[np.ix_(keep, keep)], eigvals_only=True)[0]
    r.close(key + ('first',), lam[0], -lo, abs(lo), 1e-5, fkey='freq/first')
    return r


AIR = [dict(V=3., rho_air=.02, Mach=2., speed_sound=1.5), dict(V=1.7, rho_air=.05, Mach=1.4, speed_sound=1.2), dict(V=3., rho_air=0., Mach=2., speed_sound=1.5)]


def t_flutter(g, defect, rad, mn, flow, ia):
    from panels.multidomain import tstiff2d_1stiff_flutter
    r = R()
    air = AIR[ia]
    for run, N in ((True, None), (True, TN[1]), (False, TN[1]), (False, (0., 0., 0.))):
        if N is not None:
            N = tuple(.01*x for x in N)
        key = ('flutter', g, defect, rad, mn, flow, ia, run, N)
        kw = t_kw(g, defect, rad, mn)
        if N is not None:
            kw.update(Nxx_skin=N[0], Nxx_base=N[1], Nxx_flange=N[2])
        out = tstiff2d_1stiff_flutter(air_speed=air['V'], rho_air=air['rho_air'], Mach=air['Mach'], speed_sound=air['speed_sound'], flow=flow, run_static_case=run, **kw)
        s = t_spec(defect_a=defect, r=rad, mn=TMN[mn], loaded_free=True, air=dict(air, flow=flow), **TGEO[g])
        assy = out[0]
        idx = s.find(r, key, assy)
        if idx is None:
            return r
        K, S = s.K0()
        M = s.place(lambda j, p: p.calc_kM())
        close(r, key + ('kC',), mapped(assy.kC, idx), K, S)
        close(r, key + ('kM',), mapped(assy.kM, idx), M)
        if run and N is not None:
            for p in s.P:
                p.nx = p.ny = 10
            cs = static_N(r, key, s, N, K, S, np.asarray(out[1]), idx, assy)
            KG = s.place(lambda j, p: p.calc_kG(c=cs[j]))
        elif run:
            if out[1] is not None:
                r.fail('flutter/c', 'a static solution without a load', case=key)
            KG = 0*K
        else:
            for p in s.P:
                p.Nxx = N[s.kind[id(p)]]
            KG = s.place(lambda j, p: p.calc_kG())
        KA = s.place(lambda j, p: p.calc_kA() if s.kind[id(p)] == 0 else None)
        A = K + KG + KA
        lam, vec = out[-2], np.asarray(out[-1])[idx]
        pairs(r, key, A, M, lam, vec, 25)
        keep = reduced(K, S)
        w2 = sl.eigvals(A[np.ix_(keep, keep)], M[np.ix_(keep, keep)])
        w2 = w2[np.sqrt(w2).real > 1e-6*np.sqrt(abs(w2))]      # freq returns no unstable modes
        w2 = w2[np.argsort(abs(w2))]
        r.close(key + ('first',), abs(lam).min(), abs(w2[0]), abs(w2[0]), 1e-5, fkey='flutter/first')
    return r


SER = ('mb', 'nb', 'mf', 'nf')
INT = ('nx', 'ny', 'nxb', 'nyb', 'nxf', 'nyf')


def t_run(what, run, **kw):
    from panels import multidomain as M
    kw = dict(TGEO[0], defect_a=.2, rho=1.4, plyt=PLYT, laminaprop=MATP, r=None, **TST, **kw)
    if what == 'flutter':
        kw.update(air_speed=3., rho_air=.02, Mach=2., speed_sound=1.5)
    if what != 'freq':
        kw['run_static_case'] = run
    return getattr(M, 'tstiff2d_1stiff_' + what)(**kw)


def same(r, key, A, B):
    r.close(key + ('lam',), np.asarray(A[-2])[:3], np.asarray(B[-2])[:3], None, 1e-6, fkey=key[0] + '/eigenvalues')
    for q in ('kC', 'kM', 'kG'):
        if getattr(A[0], q, None) is not None:
            close(r, key + (q,), dense(getattr(A[0], q)), dense(getattr(B[0], q)))


def t_defaults(what, run, part):
    """every subset of the optional numbers of terms: those not given are those of the skin"""
    r = R()
    load = {} if what == 'freq' else dict(Nxx_skin=-.01, Nxx_base=-.02, Nxx_flange=-.015)
    for bits in list(itertools.product((0, 1), repeat=4))[part::4]:
        m, n = 4, 3
        dflt = dict(mb=m, nb=n, mf=m, nf=n)
        given = {k: v for k, v, b in zip(SER, (3, 4, 5, 2), bits) if b}
        A = t_run(what, run, m=m, n=n, **given, **load)
        B = t_run(what, run, m=m, n=n, **dict(dflt, **given), **load)
        key = ('%s-defaults' % what, run, bits)
        for p, q in zip(A[0].panels, B[0].panels):
            if (p.m, p.n) != (q.m, q.n) or p.group != q.group:
                r.fail('defaults/terms', 'with %r given the panels %s have %r terms instead of %r' % (given, p.group, (p.m, p.n), (q.m, q.n)), case=key)
        want = {'skin': (m, n), 'base': (given.get('mb', m), given.get('nb', n)), 'flange': (given.get('mf', m), given.get('nf', n))}
        for p in A[0].panels:
            r.case((key, p.group))
            if (p.m, p.n) != want[p.group]:
                r.fail('defaults/terms', 'with %r given the panels %s have %r terms instead of %r' % (given, p.group, (p.m, p.n), want[p.group]), case=key)
        if [p.m for p in A[0].panels] == [p.m for p in B[0].panels] and [p.n for p in A[0].panels] == [p.n for p in B[0].panels]:
            same(r, key, A, B)
    return r


def t_points(run, part):
    """every subset of the optional numbers of integration points: the others are as if nothing was given"""
    r = R()
    load = dict(Nxx_skin=-.01, Nxx_base=-.02, Nxx_flange=-.015)
    own = {'skin': ('nx', 'ny'), 'base': ('nxb', 'nyb'), 'flange': ('nxf', 'nyf')}
    base = {p.group: (p.nx, p.ny) for p in t_run('compression', run, m=3, n=3, **load)[0].panels}
    for bits in list(itertools.product((0, 1), repeat=6))[part::8]:
        given = {k: v for k, v, b in zip(INT, (7, 8, 9, 10, 11, 12), bits) if b}
        A = t_run('compression', run, m=3, n=3, **given, **load)
        for p in A[0].panels:
            r.case((run, bits, p.group))
            want = tuple(given.get(k, d) for k, d in zip(own[p.group], base[p.group]))
            if (p.nx, p.ny) != want:
                r.fail('defaults/points', 'with %r given the panels %s have %r points instead of %r' % (given, p.group, (p.nx, p.ny), want), case=(run, bits))
    return r


def t_loads(run, part):
    """flutter with every subset of the loads given: those not given are zero"""
    r = R()
    for bits in list(itertools.product((0, 1), repeat=3))[part::4]:
        N = dict(zip(('Nxx_skin', 'Nxx_base', 'Nxx_flange'), (-.011, -.02, -.015)))
        given = {k: v for (k, v), b in zip(N.items(), bits) if b}
        A = t_run('flutter', run, m=4, n=3, **given)
        if given or not run:
            B = t_run('flutter', run, m=4, n=3, **{k: given.get(k, 0.) for k in N})
        else:
            B = t_run('flutter', False, m=4, n=3, **{k: 0. for k in N})
            if A[1] is not None:
                r.fail('flutter/c', 'a static solution without a load', case=bits)
        same(r, ('flutter-loads', run, bits), A, B)
        if given and run:
            r.close(('flutter-loads', bits, 'c'), A[1], B[1], None, 1e-7, fkey='flutter-loads/c')
    return r


def jobs(tier, seed):
    big = tier == 'thorough'
    ks = range(24 if big else 12)
    out = []
    for g, d, rad, mn in itertools.product((0, 1), (0., .2, .5), (None, 1.5), (0, 1)):
        if not big and (g + (d == .2) + (rad is None) + mn) % 2:
            continue
        for fl, ia in itertools.product('xy', range(3)):
            if big or (ia + (fl == 'y') + mn + (d > 0)) % 3 == 0:
                out.append(('t_flutter', (g, d, rad, mn, fl, ia)))
    for g, d, rad, mn in itertools.product((0, 1), (0., .2, .5), (None, 1.5), (0, 1)):
        out.append(('t_freq', (g, d, rad, mn)))
        if big or (g + (d == .2) + mn) % 2 == 0:
            out += [('t_compression', (g, d, rad, mn, run)) for run in (True, False)]
    for k in ks:
        for st in (False, True):
            out.append(('cyl_create', (k, st)))
            out += [('cyl_lb', (k, st, q)) for q in (False, True)]
    out += [('cyl_spla', (k,)) for k in ks]
    for what, run in (('freq', None), ('flutter', True), ('flutter', False), ('compression', True), ('compression', False)):
        out += [('t_defaults', (what, run, i)) for i in range(4)]
    out += [('t_points', (run, i)) for run in (True, False) for i in range(8)]
    out += [('t_loads', (run, i)) for run in (True, False) for i in range(4)]
    return out
