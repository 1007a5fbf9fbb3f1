"""A stiffened bay = skin strips + stiffener bases + flanges"""
import itertools
import numpy as np
import asm
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('all bays of a menu: models x divisions of the skin into one to three different strips x every sequence of up to two stiffeners (three at thorough) of each kind (beam or panel flange; '
        'base, flange or both; properties per ply, common or inherited from the bay) at every strip border x restraints x {kC, kG, kG of a displacement state, kM, kA, cA, fext, '
        'skin and flange fields, size}; every entry against independently integrated energies; non-trivial: reference not zero')
ASSUMPTIONS = ['the load of the stiffener base is carried by the flange (no geometric stiffness of the base), as stated in the code',
               'coupling S1 and torsion Jxx of a beam flange as defined in BladeStiff1D']
KINDS = ('1f', '1b', '1bf', '2f', '2b', '2bf')
DIV = {1: (0., 1.), 2: (0., .35, 1.), 3: (0., .3, .6, 1.)}
A, B = 1.3, .9
MN = (4, 3)
LAM = [([20., -50.], (.05, .08), (C.MAT, C.MAT2), .03), ([65.], (.11,), (C.MAT2,), 0.), ([0., 30., 80.], (.03, .04, .05), (C.MAT, C.MAT, C.MAT), -.02)]


def stiffs(ndiv, nst):
    pos = list(range(1, ndiv)) if ndiv > 1 else []
    opts = [(k, p) for p in pos for k in KINDS]
    opts += [(k, p) for p in (0, ndiv) for k in ('1f', '2f')]
    return itertools.product(opts, repeat=nst)


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for nd in (1, 2, 3):
            out.append(('bays', (mod, nd, 0, 0, 1)))
            out.append(('bays', (mod, nd, 1, 0, 1)))
            k = 1 if nd == 1 else 4 if nd == 2 else 16
            for i in range(k):
                out.append(('bays', (mod, nd, 2, i, k)))
        for i in range(4):
            out.append(('restraints', (mod, i, 4)))
        out.append(('inherit', (mod,)))
        out.append(('shapes', (mod,)))
        out.append(('order', (mod,)))
        if tier != 'quick':
            for i in range(64):
                out.append(('bays', (mod, 2, 3, i, 64)))
    return out


class Rec:
    pass


def geo(bay, y=None):
    return ref.Geo(bay.a, bay.b, bay.m, bay.n, bay.r, {f: getattr(bay, f) for f in ref.FLAGNAMES}, None, y)


def q_red(th, p):
    """reduced stiffnesses of a rotated lamina"""
    M = C.lam_abd([th], [1.], [p], 0.)
    return M[:3, :3]


def build(mod, nd, st, fl=None, mn=MN, mnf=((3, 2), (2, 4)), style=0):
    from panels.stiffpanelbay import StiffPanelBay
    bay = StiffPanelBay()
    bay.a, bay.b, bay.m, bay.n, bay.model = A, B, mn[0], mn[1], mod
    bay.r = .8 if mod == C.CYL else None
    bay.out_num_cores = 1
    bay.rho = 1.3
    for k, v in (fl or C.flags_distinct()).items():
        setattr(bay, k, v)
    bay.stack, bay.plyt, bay.laminaprop = [25., -10.], .06, C.MAT
    rec = Rec()
    rec.strips, rec.bases, rec.beams, rec.flanges, rec.order = [], [], [], [], []
    d = DIV[nd]
    for i in range(nd):
        stack, pl, ms, off = LAM[i]
        N = (1.1 - i, .3*i, -.4)
        kw = dict(Nxx=N[0], Nyy=N[1], Nxy=N[2], Nxx_cte=.2*i, Nyy_cte=.1, offset=off)
        rho = 1.1 + .4*i
        if style == 0 or i:
            p = bay.add_panel(d[i]*B, d[i + 1]*B, stack=list(stack), plyts=list(pl), laminaprops=list(ms), rho=rho, **kw)
        else:
            # the bay's own laminate and density
            p = bay.add_panel(d[i]*B, d[i + 1]*B, **kw)
            stack, pl, ms, rho = bay.stack, [.06, .06], [C.MAT]*2, 1.3
        p.nx = p.ny = 11
        rec.strips.append(dict(y=(d[i]*B, d[i + 1]*B), ABD=C.lam_abd(stack, pl, ms, off), N=N, Nc=(.2*i, .1, 0.), h=sum(pl), off=off, rho=rho))
    for j, (kind, pos) in enumerate(st):
        ys = d[pos]*B
        bstack, bpl, bms = [15. + j, 70.], [.03, .02 + .01*j], [C.MAT2, C.MAT]
        fstack, fpl, fms = [10., 40. - j, -75.], [.02, .03, .025 + .01*j], [C.MAT, C.MAT2, C.MAT]
        bb, bf, rho = .11 + .02*j, .14 + .03*j, 2.1 + j
        kw = dict(rho=rho)
        if style == 1:
            bms, fms, bpl, fpl = [C.MAT2]*2, [C.MAT]*3, [.03]*2, [.025]*3
            rho = 1.3
            kw = {}
        b, f = 'b' in kind, 'f' in kind
        if b:
            kw.update(bb=bb, bstack=list(bstack))
            kw.update(dict(bplyts=list(bpl), blaminaprops=list(bms)) if style == 0 else dict(bplyt=.03, blaminaprop=C.MAT2))
        if f:
            kw.update(bf=bf, fstack=list(fstack))
            kw.update(dict(fplyts=list(fpl), flaminaprops=list(fms)) if style == 0 else dict(fplyt=.025, flaminaprop=C.MAT))
        p1, p2 = max(pos - 1, 0), min(pos, nd - 1)
        if ys == 0:
            p1 = p2
        h = .5*rec.strips[p1]['h'] + .5*rec.strips[p2]['h']
        hb = sum(bpl) if b else 0.
        base = None
        if b:
            base = dict(y=(ys - bb/2, ys + bb/2), ABD=C.lam_abd(bstack, bpl, bms, -h/2 - hb/2), h=hb, off=-h/2 - hb/2, rho=rho)
            rec.bases.append(base)
        if kind[0] == '1':
            s = bay.add_bladestiff1d(ys, **kw)
            if f:
                s.Fx = .7 + j
                Q = [q_red(t, p) for t, p in zip(fstack, fms)]
                E1 = sum(t*(q[0, 0] - q[0, 1]**2/q[1, 1]) for t, q in zip(fpl, Q))
                z = np.cumsum(fpl) - np.array(fpl)/2
                S1 = -sum(y*t*(q[0, 2] - q[0, 1]*q[0, 2]/q[1, 1]) for y, t, q in zip(z, fpl, Q))
                hf = sum(fpl)
                rec.beams.append(dict(ys=ys, E1=E1, S1=S1, J=hf*bf**3/12 + bf*hf**3/12, bf=bf, hf=hf, z0=h/2 + hb, Fx=.7 + j, rho=rho))
            rec.order.append(None)
        else:
            m, n = mnf[j % 2]
            s = bay.add_bladestiff2d(ys, mf=m, nf=n, **kw)
            if f:
                s.flange.out_num_cores = 1
                s.flange.nx = s.flange.ny = 10
                for k, v in C.flags_distinct(7 + 5*j).items():
                    setattr(s.flange, k, v)
                s.flange.Nxx, s.flange.Nxy = .9 + j, -.3
                s.forces_flange += [[.3, .02 + .01*j, 1., 2., 3. + j], [.9, .1, -1., .5, 0.]]
                abd = C.lam_abd(fstack, fpl, fms, 0.)
                rec.flanges.append(dict(s=s, g=ref.Geo(A, bf, m, n, 0., {k: getattr(s.flange, k) for k in ref.FLAGNAMES}), ABD=abd, h=sum(fpl), rho=rho, ys=ys,
                                        N=(.9 + j, 0., -.3), forces=list(s.forces_flange), other=base if b else rec.strips[p1], idx=len(rec.order)))
            rec.order.append(s)
    bay.forces_skin = [[.2, .1, 1., -2., .5], [1.1, .8, .3, .1, -4.]]
    rec.g = geo(bay)
    off = rec.g.size
    for f in rec.flanges:
        f['r0'] = off
        off += f['g'].size
    rec.size = off
    return bay, rec


def moments(h, off, rho):
    return rho*h, rho*h*off, rho*(h**3/12 + h*off**2)


class Sum:
    def __init__(self, n):
        self.K, self.S = np.zeros((n, n)), np.zeros((n, n))

    def add(self, K, S, r0=0):
        k = K.shape[0]
        self.K[r0:r0 + k, r0:r0 + k] += K
        self.S[r0:r0 + k, r0:r0 + k] += abs(S)


def mats(bay, rec, c):
    """independent kC, kG, kG(c), kM, and their scales"""
    out = {k: Sum(rec.size) for k in ('kC', 'kG', 'kG(c)', 'kM')}
    cs = c[:rec.g.size]
    for p in rec.strips:
        X = ref.Ref(geo(bay, p['y']))
        out['kC'].add(X.kC(p['ABD']), X.kC_scale(p['ABD']))
        out['kC'].add(X.kG(p['Nc']), X.kG_scale(p['Nc']))
        N = np.broadcast_to(p['N'], (X.W.size, 3))
        out['kG'].add(X.kG(N), X.kG_scale(N))
        Nc = N + X.resultants(p['ABD'], cs, False)[:, :3]
        out['kG(c)'].add(X.kG(Nc), X.kG_scale(Nc))
        I = moments(p['h'], p['off'], p['rho'])
        out['kM'].add(X.kM(*I), X.kM(*map(abs, I), scale=True))
    for p in rec.bases:
        X = ref.Ref(geo(bay, p['y']))
        out['kC'].add(X.kC(p['ABD']), X.kC_scale(p['ABD']))
        I = moments(p['h'], p['off'], p['rho'])
        out['kM'].add(X.kM(*I), X.kM(*map(abs, I), scale=True))
    xg, wg = ref.gauss(24)
    x, w = (xg + 1)/2*A, wg*A/2
    for p in rec.beams:
        row = lambda k: rec.g.rows(x, np.full(x.size, p['ys']), k)
        df = p['z0'] + p['bf']/2
        q = lambda a, b: (a*w[:, None]).T@b
        ax, sg = row('ux') + df*row('wxx'), abs(row('ux')) + df*abs(row('wxx'))
        F1 = p['bf']**2/12*p['E1']
        sym = q(ax, row('wxy'))
        out['kC'].add(p['bf']*(p['E1']*q(ax, ax) + F1*q(row('wxx'), row('wxx')) + p['J']*q(row('wxy'), row('wxy')) - p['S1']*(sym + sym.T)),
                      p['bf']*(p['E1']*q(sg, sg) + abs(p['J'])*q(abs(row('wxy')), abs(row('wxy')))))
        g = q(row('wx'), row('wx'))
        out['kG'].add(p['Fx']*g, p['Fx']*q(abs(row('wx')), abs(row('wx'))))
        zg, zw = ref.gauss(4)
        z, zw = p['z0'] + (zg + 1)/2*p['bf'], zw*p['bf']/2
        for zi, wi in zip(z, zw):
            for a, b in (('u', 'wx'), ('v', 'wy'), ('w', None)):
                D = row(a) + (zi*row(b) if b else 0.)
                E = abs(row(a)) + (zi*abs(row(b)) if b else 0.)
                out['kM'].add(p['rho']*p['hf']*wi*q(D, D), p['rho']*p['hf']*wi*q(E, E))
    for p in rec.flanges:
        X = ref.Ref(p['g'])
        cf = c[p['r0']:p['r0'] + p['g'].size]
        out['kC'].add(X.kC(p['ABD']), X.kC_scale(p['ABD']), p['r0'])
        out['kG'].add(X.kG(p['N']), X.kG_scale(p['N']), p['r0'])
        N = np.broadcast_to(p['N'], (X.W.size, 3)) + X.resultants(p['ABD'], cf, False)[:, :3]
        out['kG(c)'].add(X.kG(N), X.kG_scale(N), p['r0'])
        I = moments(p['h'], 0., p['rho'])
        out['kM'].add(X.kM(*I), X.kM(*map(abs, I), scale=True), p['r0'])
        # joined to the base, or to the first of the two strips
        o = p['other']
        H = o['h'] + p['h']
        kt = 4*o['ABD'][1, 1]*p['ABD'][1, 1]/((o['ABD'][1, 1] + p['ABD'][1, 1])*H)
        kr = 4*o['ABD'][4, 4]*p['ABD'][4, 4]/((o['ABD'][4, 4] + p['ABD'][4, 4])*H)
        for kk, W, R1, R2 in asm.mismatch('BFycte', rec.g, p['g'], p['ys'], 0.):
            for absolute in (0, 1):
                D = np.zeros((W.size, rec.size))
                D[:, :rec.g.size] += abs(R1) if absolute else R1
                D[:, p['r0']:p['r0'] + p['g'].size] += abs(R2) if absolute else R2
                K = (kt if kk == 't' else kr)*(D*W[:, None]).T@D
                if absolute:
                    out['kC'].S += K
                else:
                    out['kC'].K += K
    return out


def compare(r, key, bay, rec, what=None):
    c = C.vec(rec.size, 2, .05)
    E = mats(bay, rec, c)
    if bay.get_size() != rec.size:
        r.fail('size', 'size %r instead of %d' % (bay.get_size(), rec.size), case=key)
        return
    calls = dict([('kC', lambda: bay.calc_kC(silent=True)), ('kG', lambda: bay.calc_kG(silent=True)), ('kM', lambda: bay.calc_kM(silent=True))])
    if not bay.bladestiff1ds:
        calls['kG(c)'] = lambda: bay.calc_kG(silent=True, c=c)
    for nm, f in calls.items():
        S = E[nm].S
        r.close(key + (nm,), dense(f()), E[nm].K, S + 1e-4*S.max() + 1e-12, 1e-8, fkey='bay/' + nm)
    # point forces
    e = np.zeros(rec.size)
    for (x, y, *F) in bay.forces_skin:
        for f, v in zip('uvw', F):
            e[:rec.g.size] += v*rec.g.rows([x], [y], f)[0]
    for p in rec.flanges:
        for (x, y, *F) in p['forces']:
            for f, v in zip('uvw', F):
                e[p['r0']:p['r0'] + p['g'].size] += v*p['g'].rows([x], [y], f)[0]
    r.close(key + ('fext',), np.asarray(bay.calc_fext(silent=True)), e, abs(e).max(), 1e-10, fkey='bay/fext')
    # fields
    X, Y = np.meshgrid([0., .3, A, .77], [.01, .1, .45])
    given = [(rec.g, c[:rec.g.size], lambda: bay.uvw_skin(c, xs=X, ys=Y), 'skin')]
    for p in rec.flanges:
        given.append((p['g'], c[p['r0']:p['r0'] + p['g'].size], lambda p=p: bay.uvw_stiffener(c, p['idx'], xs=X, ys=Y), 'flange'))
    for g, cc, f, nm in given:
        got = f()
        for q, (ops, sg) in enumerate((('u', 1), ('v', 1), ('w', 1), ('wx', -1), ('wy', -1))):
            e = sg*(g.rows(X.ravel(), Y.ravel(), ops)@cc).reshape(X.shape)
            s = (abs(g.rows(X.ravel(), Y.ravel(), ops))@abs(cc)).reshape(X.shape)
            r.close(key + (nm, q), got[q], e, s + 1e-4*s.max() + 1e-12, 1e-9, fkey='bay/field-' + nm)
    # default grids
    for nm, f, b in [('skin', lambda: bay.uvw_skin(c, gridx=4, gridy=3), B)] + [('flange', lambda p=p: bay.uvw_stiffener(c, p['idx'], gridx=4, gridy=3), p['g'].b) for p in rec.flanges]:
        f()
        Xg, Yg = np.meshgrid(np.linspace(0, A, 4), np.linspace(0, b, 3))
        r.close(key + (nm, 'grid'), np.array([bay.Xs, bay.Ys]), np.array([Xg, Yg]), None, 1e-12, fkey='bay/grid-' + nm)


def aero(r, key, mod, nd, st, fl):
    for flow in 'xy':
        f2 = dict(fl, **{flow + '1w': 0., flow + '2w': 0.})
        for air in (dict(beta=.7), dict(beta=.6, gamma=.3, aeromu=.4), dict(Mach=1.6, rho_air=.5, V=1.4, speed_sound=1.2), dict(Mach=1, rho_air=.5, V=1.4, speed_sound=.9), dict(Mach=3., rho_air=.5, V=1.4)):
            bay, rec = build(mod, nd, st, f2)
            bay.flow = flow
            for k, v in air.items():
                setattr(bay, k, v)
            X = ref.Ref(rec.g)
            if 'beta' in air:
                be, ga, mu = air['beta'], air.get('gamma', 0.), air.get('aeromu', 0.)
            else:
                M = air['Mach'] if air['Mach'] != 1 else 1.0001
                be = air['rho_air']*air['V']**2/np.sqrt(M*M - 1)
                ga = be/(2*bay.r*np.sqrt(M*M - 1)) if bay.r else 0.
                mu = be/(M*air['speed_sound'])*(M*M - 2)/(M*M - 1) if 'speed_sound' in air else 0.
            K = be*X.q('w', 'w' + flow)
            if flow == 'x':
                K = K - ga*X.q('w', 'w')
            D = -1j*mu*X.q('w', 'w')
            for got, E, nm in ((bay.calc_kA(silent=True), K, 'kA'), (bay.calc_cA(silent=True), D, 'cA')):
                E = C.embed(E, rec.size, 0)
                r.close(key + (flow, str(air), nm), dense(got), E, max(abs(E).max(), be), 1e-8, fkey='bay/' + nm)
            for p in bay.panels:
                if (p.beta, p.gamma) != (None, None) or p.flow != 'x':
                    r.fail('bay/aero-left', 'aerodynamic attributes of a strip changed')


def bays(mod, nd, nst, part, parts):
    r = R()
    for i, st in enumerate(stiffs(nd, nst)):
        if i % parts != part:
            continue
        bay, rec = build(mod, nd, st)
        compare(r, (mod, nd, st), bay, rec)
        if nst < 2:
            aero(r, (mod, nd, st), mod, nd, st, C.flags_distinct())
    return r


def restraints(mod, part, parts):
    r = R()
    for i, (fn, fl) in enumerate(C.all_flagsets()):
        if i % parts != part:
            continue
        for st in ((('1bf', 1), ('2bf', 2)), (('2f', 1), ('1f', 2)), (('2bf', 1), ('2f', 2)), (('1b', 2), ('2b', 1))):
            bay, rec = build(mod, 3, st, fl)
            compare(r, (mod, fn, st), bay, rec)
    return r


def inherit(mod):
    """laminate and density of the bay, or common to all plies"""
    r = R()
    for nd in (1, 2, 3):
        for nst in (0, 1):
            for st in stiffs(nd, nst):
                bay, rec = build(mod, nd, st, style=1)
                compare(r, (mod, nd, st, 'inherit'), bay, rec)
    return r


def shapes(mod):
    r = R()
    for mn in itertools.product((2, 3, 5, 7), (2, 4, 6)):
        for mnf in (((2, 2), (3, 5)), ((5, 3), (2, 6)), ((6, 5), (4, 2))):
            for st in ((('1bf', 1), ('2bf', 1)), (('2f', 1), ('2bf', 1))):
                bay, rec = build(mod, 2, st, C.flags_distinct(4), mn, mnf)
                compare(r, (mod, mn, mnf, st), bay, rec)
    return r


def order(mod):
    """the order of stiffeners permutes the degrees of freedom; a second calculation gives the same"""
    r = R()
    for st in itertools.product([(k, p) for k in ('2f', '2bf', '1bf') for p in (1, 2)], repeat=2):
        bay, rec = build(mod, 3, st)
        ks = [dense(f(silent=True)) for f in (bay.calc_kC, bay.calc_kG, bay.calc_kM)]
        again = [dense(f(silent=True)) for f in (bay.calc_kC, bay.calc_kG, bay.calc_kM)]
        for nm, a, b in zip(('kC', 'kG', 'kM'), ks, again):
            r.close((mod, st, nm, 'again'), b, a, None, 1e-14, fkey='again/' + nm)
    # stiffeners exchanged in the lists
        if len(bay.bladestiff2ds) == 2:
            f0, f1 = rec.flanges
            idx = np.concatenate([np.arange(rec.g.size), np.arange(f1['r0'], f1['r0'] + f1['g'].size), np.arange(f0['r0'], f0['r0'] + f0['g'].size)])
            bay.bladestiff2ds.reverse()
            for nm, a, f in zip(('kC', 'kG', 'kM'), ks, (bay.calc_kC, bay.calc_kG, bay.calc_kM)):
                r.close((mod, st, nm, 'swap'), dense(f(silent=True)), a[np.ix_(idx, idx)], None, 1e-12, fkey='order/' + nm)
    return r
