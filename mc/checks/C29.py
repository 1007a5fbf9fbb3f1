"""The results do not depend on the choice of units and axes"""
import itertools
import numpy as np
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('units: powers of two of length, force and time in all combinations within the bound, for every calculation of shells, assemblies with every connection and stiffened bays; '
        'axes: x and y exchanged, x reversed, y reversed, z reversed and their products, for every calculation of shells and assemblies; edge flags, laminates, loads and numbers of terms enumerated; results against those of the first choice, transformed')
E = ('x1', 'x2', 'y1', 'y2')
DOF = 'uvw'


def base(k, model):
    """k-th definition; all numbers different"""
    stacks = [[17., -38., 61.], [0., 90.], [45.], [33., 33., -71., 12.]]
    d = dict(a=1.7 + .2*k, b=.9 + .1*k, r=None if model == C.PLATE else 1.3 + .3*k, m=5 - k % 2, n=4 + k % 3, stack=stacks[k % 4], t=.04 + .01*(k % 3), laminaprop=C.MAT, rho=1.3, offset=(0., .03, -.02)[k % 3],
             Nxx=-1.3, Nyy=.7, Nxy=.45, Nxx_cte=.2, Nyy_cte=-.15, Nxy_cte=.1, beta=.6, gamma=.25 if model == C.CYL else 0., aeromu=.4, flow='xy'[k % 2], model=model,
             loads=((.3, .2, 1., -2., 3.), (.9, .1, .5, .4, -1.2)), lines=(('x', .6, (1., .5), (0., 2.), (.3, -1.)), ('y', .45, (.2, .7), (1., 0.), (-1., .4))), pds=((.4, .5, 30., .1, 20., -.2, 40., .3),), part=None)
    d['flags'] = {}
    for i, q in enumerate(itertools.product(E, 'uvw', ('', 'r'))):
        d['flags'][''.join(q)] = (1., 0., .5, 1., .7, 1., 0.3)[(i*(k + 3) + k) % 7]
    if k % 4 == 3:
        d['part'] = (.1, .8, .25, .7)
    return d


def make(d):
    from panels import Shell
    s = Shell(a=d['a'], b=d['b'], r=d['r'], m=d['m'], n=d['n'], stack=list(d['stack']), plyt=d['t'], laminaprop=d['laminaprop'], rho=d['rho'], offset=d['offset'])
    for k in ('Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'beta', 'gamma', 'aeromu', 'flow', 'model'):
        setattr(s, k, d[k])
    for k, v in d['flags'].items():
        setattr(s, k, v)
    s.nx, s.ny = d.get('nx', 9), d.get('ny', 9)
    s.out_num_cores = 1
    if d['part']:
        s.x1, s.x2, s.y1, s.y2 = d['part']
    for i, l in enumerate(d['loads']):
        s.add_point_load(*l, cte=bool(i))
    for ax, at, *fs in d['lines']:
        # linear functions
        getattr(s, 'add_distr_load_fixed_' + ax)(at, *[lambda z, f=f: f[0] + f[1]*z for f in fs])
    for x, y, ku, u, kv, v, kw, w in d['pds']:
        s.add_point_pd(x, y, ku, u, kv, v, kw, w)
    return s


# units ------------------------------------------------------------------
def units(d, L, F, T):
    e = dict(d)
    for k in ('a', 'b', 'r', 't', 'offset'):
        e[k] = None if d[k] is None else d[k]*L
    p = d['laminaprop']
    e['laminaprop'] = tuple(v*F/L**2 if i != 2 else v for i, v in enumerate(p))
    e['rho'] = d['rho']*F*T**2/L**4
    for k in ('Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte'):
        e[k] = d[k]*F/L
    e['beta'], e['gamma'], e['aeromu'] = d['beta']*F/L**2, d['gamma']*F/L**3, d['aeromu']*F*T/L**3
    e['loads'] = tuple((x*L, y*L, fx*F, fy*F, fz*F) for x, y, fx, fy, fz in d['loads'])
    e['lines'] = tuple((ax, at*L) + tuple((f[0]*F/L, f[1]*F/L**2) for f in fs) for ax, at, *fs in d['lines'])
    e['pds'] = tuple((x*L, y*L, ku*F/L, u*L, kv*F/L, v*L, kw*F/L, w*L) for x, y, ku, u, kv, v, kw, w in d['pds'])
    e['part'] = d['part'] and tuple(v*L for v in d['part'])
    return e


FIELD = dict(u='l', v='l', w='l', phix='1', phiy='1', exx='1', eyy='1', gxy='1', kxx='k', kyy='k', kxy='k', Nxx='n', Nyy='n', Nxy='n', Mxx='f', Myy='f', Mxy='f')


def shell_results(s, c, xs, ys):
    """name -> (array, dimension)"""
    out = {'kC': (dense(s.calc_kC()), 's'), 'kC c': (dense(s.calc_kC(c=c)), 's'), 'kC NL': (dense(s.calc_kC(c=c, NLgeom=True)), 's'), 'kG': (dense(s.calc_kG()), 's'), 'kG c': (dense(s.calc_kG(c=c)), 's'),
           'kG NL': (dense(s.calc_kG(c=c, NLgeom=True)), 's'), 'kM': (dense(s.calc_kM()), 'm'), 'kA': (dense(s.calc_kA()), 's'), 'cA': (dense(s.calc_cA(s.aeromu)), 'c'), 'kT': (dense(s.calc_kT(c=c)), 's'),
           'fint': (np.array(s.calc_fint(c)), 'f'), 'fext': (np.array(s.calc_fext(inc=.5)), 'f'), 'kC cte': (dense(s.calc_kC(c_cte=c)), 's')}
    s.calc_kC()
    for q in ('uvw', 'strain', 'stress'):
        for nl in ((False,) if q == 'uvw' else (False, True)):
            kw = {} if q == 'uvw' else dict(NLgeom=nl)
            f = getattr(s, q)(c, xs=xs.copy(), ys=ys.copy(), **kw)[1]
            for k, v in f.items():
                if v is not None and k in FIELD and k in dict(uvw='u v w phix phiy', strain='exx eyy gxy kxx kyy kxy', stress='Nxx Nyy Nxy Mxx Myy Mxy')[q].split():
                    out['%s %s' % (k, nl)] = (np.array(v), FIELD[k])
    return out


def factor(dim, L, F, T):
    return {'s': F/L, 'm': F*T**2/L, 'c': F*T/L, 'f': F, 'l': L, '1': 1., 'k': 1/L, 'n': F/L, 'e': F*L}[dim]


def vec(size, k):
    return .02*C.vec(size, k)


def t_units(k, model, scales):
    r = R()
    d = base(k, model)
    c = vec(3*d['m']*d['n'], k)
    xs, ys = np.linspace(.05, .95, 6).reshape(2, 3)*d['a'], np.array([[.1, .8, .45], [.33, .9, .02]])*d['b']
    ref = shell_results(make(d), c, xs, ys)
    for L, F, T in scales:
        got = shell_results(make(units(d, L, F, T)), c*L, xs*L, ys*L)
        for q, (v, dim) in ref.items():
            r.transitions += 1
            r.close((q, k, model, L, F, T), got[q][0]/factor(dim, L, F, T), v, rtol=1e-12, fkey='units/' + q)
    return r


def assembly(ds, conns, L=1., F=1., T=1.):
    from panels.multidomain import MultiDomain
    P = []
    for d in ds:
        p = make(units(d, L, F, T))
        p.group = 'g'
        P.append(p)
    con = [dict({kk: v*L for kk, v in kw.items()}, p1=P[i], p2=P[j], func=f) for i, j, f, kw in conns]
    return MultiDomain(P, con)


CONNS = {'SSxcte': lambda a, b: dict(xcte1=a['a'], xcte2=0.), 'SSycte': lambda a, b: dict(ycte1=.25, ycte2=b['b']), 'BFxcte': lambda a, b: dict(xcte1=.5, xcte2=0.), 'BFycte': lambda a, b: dict(ycte1=.375, ycte2=b['b']), 'SB': lambda a, b: {}}


def md_results(a, c):
    out = {'kC': (dense(a.calc_kC(silent=True)), 's'), 'kC c': (dense(a.calc_kC(c=c, silent=True)), 's'), 'kG': (dense(a.calc_kG(c=c, silent=True)), 's'), 'kM': (dense(a.calc_kM(silent=True)), 'm'), 'kT': (dense(a.calc_kT(c=c, silent=True)), 's'),
           'fint': (np.array(a.calc_fint(c, silent=True)), 'f'), 'fext': (np.array(a.calc_fext(silent=True)), 'f'), 'conn': (dense(a.get_kC_conn()), 's')}
    for q in ('uvw', 'strain', 'stress'):
        f = getattr(a, q)(c, 'g', gridx=3, gridy=4)
        for k, v in f.items():
            if k in FIELD:
                out['field ' + k] = (np.array(v), FIELD[k])
    return out


def t_md_units(name, scales):
    r = R()
    ds = [base(k, C.CYL if k == 2 else C.PLATE) for k in (0, 1, 2)]
    if name == 'SB':
        ds[1].update(a=ds[0]['a'], b=ds[0]['b'])
    conns = [(0, 1, name, CONNS[name](ds[0], ds[1])), (2, 0, 'SSycte', dict(ycte1=.1, ycte2=.2))]
    a = assembly(ds, conns)
    c = vec(a.get_size(), 3)
    ref = md_results(a, c)
    for L, F, T in scales:
        got = md_results(assembly(ds, conns, L, F, T), c*L)
        for q, (v, dim) in ref.items():
            r.transitions += 1
            r.close((name, q, L, F, T), got[q][0]/factor(dim, L, F, T), v, rtol=1e-12, fkey='units/assembly ' + q)
    return r


def bay(L, F, T, model, one=True):
    from panels.stiffpanelbay import StiffPanelBay
    s = StiffPanelBay()
    mat = tuple(v*F/L**2 if i != 2 else v for i, v in enumerate(C.MAT))
    s.a, s.b, s.m, s.n, s.model = 1.7*L, .9*L, 4, 5, model
    s.r = 1.3*L if model == C.CYL else None
    s.stack, s.plyt, s.laminaprop, s.rho = [17., -38.], .04*L, mat, 1.3*F*T**2/L**4
    s.x1u, s.y2v, s.y1w, s.x1wr = 1., 0., .5, .25
    s.beta, s.gamma, s.aeromu = .6*F/L**2, .2*F/L**3, .4*F*T/L**3
    for y1, y2 in ((0., .3), (.3, .9)):
        s.add_panel(y1=y1*L, y2=y2*L, Nxx=-1.*F/L, Nyy=.3*F/L, Nxy=.2*F/L)
    kw = dict(ys=.3*L, rho=2.1*F*T**2/L**4, bb=.12*L, bstack=[5., 60.], bplyt=.03*L, blaminaprop=mat, bf=.2*L, fstack=[0., 30.], fplyt=.02*L, flaminaprop=mat)
    if one:
        t1 = s.add_bladestiff1d(**kw)
        t1.Fx = .7*F
    else:
        s.add_bladestiff1d(**dict(kw, bf=None, fstack=None, fplyt=None, flaminaprop=None))
    t2 = s.add_bladestiff2d(mf=4, nf=3, **kw)
    t2.flange.Nxx = -.4*F/L
    s.forces_skin.append([.5*L, .4*L, 1.*F, 2.*F, -3.*F])
    t2.forces_flange.append([.5*L, .1*L, 1.*F, 2.*F, -3.*F])
    return s


def bay_results(s, c):
    out = {'kC': (dense(s.calc_kC(silent=True)), 's'), 'kG': (dense(s.calc_kG(silent=True)), 's'), 'kM': (dense(s.calc_kM(silent=True)), 'm'), 'kA': (dense(s.calc_kA(silent=True)), 's'), 'cA': (dense(s.calc_cA(silent=True)), 'c'), 'fext': (np.array(s.calc_fext(silent=True)), 'f')}
    for nm, f in (('skin', s.uvw_skin(c, gridx=4, gridy=3)), ('flange', s.uvw_stiffener(c, 1, region='flange', gridx=4, gridy=3))):
        for k, v, dim in zip('u v w phix phiy'.split(), f, 'lll11'):
            out[nm + ' ' + k] = (np.array(v), dim)
    return out


def t_bay_units(model, scales, one):
    r = R()
    s = bay(1., 1., 1., model, one)
    c = vec(s.get_size(), 2)
    ref = bay_results(s, c)
    J = 0.
    if one:
        # listed finding: the torsion term of the flange of a 1D stiffener has no modulus, it goes with L^2 and not F/L; everything else must be right
        f = 2.**20
        J = (bay_results(bay(1., 1/f, 1., model), c)['kC'][0]*f - ref['kC'][0])/(f - 1.)
        r.transitions += 1
        r.close((model, 'kC'), J, 0.*J, scale=abs(ref['kC'][0]).max(), rtol=1e-12, fkey='units/bay-kC-torsion-1d')
        if abs(J).max() < 1e-11*abs(ref['kC'][0]).max():
            J = 0.
    for L, F, T in scales:
        got = bay_results(bay(L, F, T, model, one), c*L)
        for q, (v, dim) in ref.items():
            r.transitions += 1
            g = got[q][0]/factor(dim, L, F, T)
            x = 0.
            if q == 'kC' and one and np.ndim(J):
                x = (L**3/F - 1.)*J
            r.close((model, one, q, L, F, T), g, v + x, scale=max(abs(v).max(), np.abs(x).max()), rtol=1e-11, fkey='units/bay ' + q)
    return r


# axes -------------------------------------------------------------------
def mirror_terms(m):
    """f(-xi) in terms of the functions of the reversed edge"""
    P = np.zeros((m, m))
    for i in range(m):
        if i < 4:
            P[i, (2, 3, 0, 1)[i]] = (1., -1.)[i % 2]
        else:
            P[i, i] = (-1.)**i
    return P


def axes(d, op):
    """definition seen from the other axes, matrix of the constants (new = Q old), how points and fields change"""
    e = dict(d)
    m, n = d['m'], d['n']
    fl = d['flags']
    I = [np.eye(m), np.eye(n)]
    S = dict(u=1., v=1., w=1.)
    if op == 'swap':
        e['a'], e['b'], e['m'], e['n'] = d['b'], d['a'], n, m
        e['stack'] = [90. - t for t in d['stack']]
        for k in ('N%s', 'N%s_cte'):
            e[k % 'xx'], e[k % 'yy'] = d[k % 'yy'], d[k % 'xx']
        sw = dict(u='v', v='u', w='w')
        e['flags'] = {'yx'['xy'.index(k[0])] + k[1] + sw[k[2]] + k[3:]: v for k, v in fl.items()}
        e['flow'] = 'yx'['xy'.index(d['flow'])]
        e['loads'] = tuple((y, x, fy, fx, fz) for x, y, fx, fy, fz in d['loads'])
        e['lines'] = tuple(('yx'['xy'.index(ax)], at, fy, fx, fz) for ax, at, fx, fy, fz in d['lines'])
        e['pds'] = tuple((y, x, kv, v, ku, u, kw, w) for x, y, ku, u, kv, v, kw, w in d['pds'])
        e['part'] = d['part'] and d['part'][2:] + d['part'][:2]
        Q = np.zeros((3*m*n, 3*m*n))
        for i in range(m):
            for j in range(n):
                for p, q in ((0, 1), (1, 0), (2, 2)):
                    Q[3*(i*n + j) + p, 3*(j*m + i) + q] = 1.
        nm = dict(u='v', v='u', w='w', phix='phiy', phiy='phix', exx='eyy', eyy='exx', gxy='gxy', kxx='kyy', kyy='kxx', kxy='kxy', Nxx='Nyy', Nyy='Nxx', Nxy='Nxy', Mxx='Myy', Myy='Mxx', Mxy='Mxy')
        return e, Q, (lambda x, y: (y, x)), {k: (v, 1.) for k, v in nm.items()}
    sg = lambda **k: {q: (q, k.get(q, 1.)) for q in FIELD}
    if op == 'z':
        e['stack'] = d['stack'][::-1]
        e['offset'] = -d['offset']
        e['loads'] = tuple((x, y, fx, fy, -fz) for x, y, fx, fy, fz in d['loads'])
        e['lines'] = tuple((ax, at, fx, fy, (-fz[0], -fz[1])) for ax, at, fx, fy, fz in d['lines'])
        e['pds'] = tuple((x, y, ku, u, kv, v, kw, -w) for x, y, ku, u, kv, v, kw, w in d['pds'])
        Q = np.kron(np.eye(m*n), np.diag([1., 1., -1.]))
        return e, Q, (lambda x, y: (x, y)), sg(w=-1., phix=-1., phiy=-1., kxx=-1., kyy=-1., kxy=-1., Mxx=-1., Myy=-1., Mxy=-1.)
    ax = op
    L = d['a'] if ax == 'x' else d['b']
    e['stack'] = [-t for t in d['stack']]
    e['Nxy'], e['Nxy_cte'] = -d['Nxy'], -d['Nxy_cte']
    e['flags'] = {(k[0] + '21'['12'.index(k[1])] + k[2:] if k[0] == ax else k): v for k, v in fl.items()}
    s = (-1., 1.) if ax == 'x' else (1., -1.)
    if d['flow'] == ax:
        e['beta'] = -d['beta']   # the flow goes the other way
    e['loads'] = tuple(((L - x, y) if ax == 'x' else (x, L - y)) + (s[0]*fx, s[1]*fy, fz) for x, y, fx, fy, fz in d['loads'])

    def line(l):
        a, at, *fs = l
        out = []
        for f, z in zip(fs, s + (1.,)):
            g = (f[0], f[1]) if a == ax else (f[0] + f[1]*L, -f[1])
            out.append((g[0]*z, g[1]*z))
        return (a, L - at if a == ax else at) + tuple(out)
    e['lines'] = tuple(line(l) for l in d['lines'])
    e['pds'] = tuple(((L - x, y) if ax == 'x' else (x, L - y)) + (ku, s[0]*u, kv, s[1]*v, kw, w) for x, y, ku, u, kv, v, kw, w in d['pds'])
    if d['part']:
        p = d['part']
        e['part'] = (L - p[1], L - p[0]) + p[2:] if ax == 'x' else p[:2] + (L - p[3], L - p[2])
    Pm = mirror_terms(m) if ax == 'x' else np.eye(m)
    Pn = mirror_terms(n) if ax == 'y' else np.eye(n)
    Q = np.kron(np.kron(Pn, Pm), np.diag([s[0], s[1], 1.]))
    pts = (lambda x, y: (L - x, y)) if ax == 'x' else (lambda x, y: (x, L - y))
    f = sg(u=s[0], v=s[1], phix=s[0], phiy=s[1], gxy=-1., kxy=-1., Nxy=-1., Mxy=-1.)
    return e, Q, pts, f


def chain(d, ops):
    Q, pts, f = np.eye(3*d['m']*d['n']), (lambda x, y: (x, y)), {k: (k, 1.) for k in FIELD}
    for op in ops:
        d, Q1, p1, f1 = axes(d, op)
        Q = Q1.dot(Q)
        pts = (lambda x, y, p1=p1, p0=pts: p1(*p0(x, y)))
        # new[k'] = sign * old[k]
        f = {k: (f1[v[0]][0], v[1]*f1[v[0]][1]) for k, v in f.items()}
    return d, Q, pts, f


def transformed(v, Q, q):
    if v.ndim == 2 and v.shape[0] == v.shape[1] == len(Q):
        return Q.dot(v).dot(Q.T)
    return Q.dot(v)


def t_axes(k, model, chains, flags=None):
    r = R()
    d = base(k, model)
    if flags:
        d['flags'] = dict(flags)
    c = vec(3*d['m']*d['n'], k)
    xs, ys = np.linspace(.05, .95, 6).reshape(2, 3)*d['a'], np.array([[.1, .8, .45], [.33, .9, .02]])*d['b']
    ref = shell_results(make(d), c, xs, ys)
    for ops in chains:
        e, Q, pts, f = chain(d, ops)
        got = shell_results(make(e), Q.dot(c), *pts(xs, ys))
        for q, (v, dim) in ref.items():
            r.transitions += 1
            nm = q.split(' ')[0]
            if nm in FIELD:
                k2, sign = f[nm]
                g = sign*got[q.replace(nm, k2, 1)][0]
                fam = [z for z in ref if z[0] == q[0] and z.split(' ')[-1] == q.split(' ')[-1] and z.split(' ')[0] in FIELD and FIELD[z.split(' ')[0]] == dim]
                sc = max(abs(ref[z][0]).max() for z in fam)
                r.close((q, k, model, ops), g, v, scale=sc, rtol=1e-10, fkey='axes/' + nm)
            else:
                r.close((q, k, model, ops, str(flags)), got[q][0], transformed(v, Q, q), scale=max(abs(v).max(), 1e-5), rtol=1e-10, fkey='axes/' + q)
    return r


def t_md_axes(name, chains):
    """SS connections keep their kind under reversals; BF connections only under the exchange of x and y; SB is not kept by a reversal of z (which is below?), and its penalty
    stiffness is defined by A11 (documented), so that x and y are exchanged only with laminates for which A11 = A22"""
    from panels.multidomain import MultiDomain
    r = R()
    ds = [base(k, C.PLATE) for k in (0, 1, 2)]
    if name == 'SB':
        ds[1].update(a=ds[0]['a'], b=ds[0]['b'])
        ds[0]['stack'], ds[1]['stack'] = [90., 0., 0., 90.], [45.]
        chains = [z for z in chains if 'z' not in z]
    conns = [(0, 1, name, CONNS[name](ds[0], ds[1])), (2, 0, 'SSycte', dict(ycte1=.1, ycte2=.2))]

    def build(ds, conns):
        P = []
        for d in ds:
            p = make(d)
            p.group = 'g'
            P.append(p)
        return MultiDomain(P, [dict(kw, p1=P[i], p2=P[j], func=f) for i, j, f, kw in conns])
    a = build(ds, conns)
    c = vec(a.get_size(), 3)
    ref = md_results(a, c)
    for ops in chains:
        es, Qs, cs = [], [], []
        for d in ds:
            e, Q, _, _ = chain(d, ops)
            es.append(e)
            Qs.append(Q)
        for i, j, f, kw in conns:
            kw = dict(kw)
            f2 = f
            dims = [[ds[i]['a'], ds[i]['b']], [ds[j]['a'], ds[j]['b']]]
            for op in ops:
                if op == 'swap':
                    f2 = f2.replace('xcte', '?').replace('ycte', 'xcte').replace('?', 'ycte')
                    kw = {('y' if q[0] == 'x' else 'x') + q[1:]: v for q, v in kw.items()}
                    dims = [z[::-1] for z in dims]
                elif op in 'xy' and f2.endswith(op + 'cte'):
                    kw = {q: dims[int(q[-1]) - 1]['xy'.index(op)] - v for q, v in kw.items()}
            cs.append((i, j, f2, kw))
        n = sum(len(Q) for Q in Qs)
        Q = np.zeros((n, n))
        k = 0
        for q in Qs:
            Q[k:k + len(q), k:k + len(q)] = q
            k += len(q)
        got = md_results(build(es, cs), Q.dot(c))
        for q, (v, dim) in ref.items():
            if q.startswith('field'):
                continue
            r.transitions += 1
            r.close((name, q, ops), got[q][0], transformed(v, Q, q), rtol=1e-10, fkey='axes/assembly ' + q)
    return r


def jobs(tier, seed):
    out = []
    P = (-20, 0, 13) if tier == 'quick' else (-30, -20, -7, 0, 5, 13, 24)
    scales = [(2.**l, 2.**f, 2.**t) for l in P for f in P for t in P if (l, f, t) != (0, 0, 0)]
    scales += [(2.**-10, 1., 1.), (2.**10, 1., 1.)]
    nk = 4 if tier == 'quick' else 12
    for model in C.MODELS:
        for k in range(nk):
            out.append(('t_units', (k, model, scales if tier == 'quick' else scales[k % 3::3])))
        for one in (False, True):
            out.append(('t_bay_units', (model, scales, one)))
    for name in CONNS:
        out.append(('t_md_units', (name, scales)))
    one = [('x',), ('y',), ('x', 'y')]
    plate = one + [('z',), ('swap',), ('swap', 'x'), ('x', 'swap'), ('swap', 'y', 'z'), ('x', 'z'), ('y', 'z'), ('x', 'y', 'z'), ('swap', 'z'), ('x', 'y', 'swap'), ('swap', 'swap')]
    for k in range(8 if tier == 'quick' else 24):
        out.append(('t_axes', (k, C.PLATE, plate)))
        out.append(('t_axes', (k, C.CYL, one)))
    for k in (0, 1) if tier == 'quick' else range(6):
        for i in range(0, 24, 8):
            out.append(('t_flags', (k, i)))
    for name in CONNS:
        bf = name.startswith('BF')
        out.append(('t_md_axes', (name, [('swap',)] if bf else plate)))
    return out


def t_flags(k, i0):
    """one edge flag at a time"""
    r = R()
    for i in range(i0, i0 + 8):
        fl = C.flags_single(i)
        r.merge(t_axes(k, C.PLATE, [('x',), ('y',), ('swap',)], fl))
        r.merge(t_axes(k, C.CYL, [('x',), ('y',)], fl))
    return r
