"""Assembly = sum of panels and connections; fields by group"""
import itertools
import numpy as np
import asm
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('all ordered arrangements of one to four panels out of a menu of different panels (model, series size, flags, laminate, dimensions, loads, stress state, '
        'group) x connection sets x {kC, kG, kM, kT, fint, fext with displacement states and load factors; displacement, strain and stress fields of every '
        'group on several grids and given points}; every entry against the placed results of stand-alone panels; non-trivial: reference not zero')
KINDS = [dict(mod=C.PLATE, a=1.1, b=.8, m=3, n=4, lam=4, fl=0, group='s', N=(1.3, -.4, .2)),
         dict(mod=C.CYL, a=1.1, b=.6, m=4, n=3, lam=7, fl=5, group='t', N=(-.3, .9, .0)),
         dict(mod=C.PLATE, a=.9, b=.8, m=2, n=3, lam=10, fl=9, group='s', N=(0., 0., -.7)),
         dict(mod=C.CYL, a=.7, b=.6, m=3, n=3, lam=13, fl=14, group='u', N=(.5, .6, .7))]
COMP = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'), stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))


def jobs(tier, seed):
    arr = [p for n in (1, 2, 3) for p in itertools.permutations(range(4), n)] + list(itertools.permutations(range(4)))
    out = [('matrices', (p,)) for p in arr]
    out += [('fields', (p,)) for p in arr]
    out += [('permute', (p,)) for p in itertools.permutations(range(3))]
    out += [('finalize', (0,)), ('plotdata', (0,))]
    nl, nf = len(LOADS), len(FEATS)
    pairs = [(0, 1), (1, 0), (2, 3)]
    out += [('loadmix', (p, s)) for p in pairs for s in subsets(nl, tier)]
    out += [('features', (p, s)) for p in pairs for s in subsets(nf, tier)]
    return out


LOADS = [('point', lambda s, k: s.add_point_load(.3*s.a, .6*s.b, 1. + k, 2., -3.)),
         ('point inc', lambda s, k: s.add_point_load(.5*s.a, .1*s.b, .5, k - 1.5, 4., cte=False)),
         ('distr x', lambda s, k: s.add_distr_load_fixed_x(s.a, lambda y: 1. + y*k, None, lambda y: y**2)),
         ('distr x inc', lambda s, k: s.add_distr_load_fixed_x(.3*s.a, None, lambda y: 1. - y*k, None, cte=False)),
         ('distr y', lambda s, k: s.add_distr_load_fixed_y(s.b, lambda x: 1. + x*k, None, lambda x: x**2)),
         ('distr y inc', lambda s, k: s.add_distr_load_fixed_y(.2*s.b, None, lambda x: 2. - x*k, None, cte=False)),
         ('pd', lambda s, k: s.add_point_pd(.2*s.a, .7*s.b, 2., .1, 3., .2, 4., .3 + k)),
         ('pd inc', lambda s, k: s.add_point_pd(.7*s.a, .2*s.b, 5., .1, 6., .2 + k, 7., .3, cte=False)),
         ('distr pd', lambda s, k: s.add_distr_pd_fixed_x(.4*s.a, 1., 2., None, lambda y: y + k, lambda y: 1., None)),
         ('distr pd inc', lambda s, k: s.add_distr_pd_fixed_y(0., 2., None, None, lambda x: x + k, None, None, cte=False))]


def _set(**kw):
    return lambda s, k: [setattr(s, n, v(s, k)) for n, v in kw.items()]


FEATS = [('N', _set(Nxx=lambda s, k: 1.3 - k, Nyy=lambda s, k: .4 + k, Nxy=lambda s, k: -.7)),
         ('N_cte', _set(Nxx_cte=lambda s, k: .3 + k, Nyy_cte=lambda s, k: -.6, Nxy_cte=lambda s, k: .9)),
         ('part x', _set(x1=lambda s, k: .2*s.a, x2=lambda s, k: .7*s.a)),
         ('part y', _set(y1=lambda s, k: .1*s.b, y2=lambda s, k: .6*s.b)),
         ('orthotropic', _set(force_orthotropic_laminate=lambda s, k: True)),
         ('rhos', _set(rhos=lambda s, k: [2. + k + i for i in range(len(s.stack))])),
         ('offset', _set(offset=lambda s, k: s.offset + .04)),
         ('plies', _set(plyts=lambda s, k: [.03 + .01*i for i in range(len(s.stack))])),
         ('flags', _set(**{f: (lambda s, k: 1.) for f in ('x1w', 'y2u', 'x2vr', 'y1wr')}))]


def subsets(n, tier):
    """groups of subsets (as bit masks): all of them, or those with at most two members and those missing at most two"""
    al = [m for m in range(2**n) if tier == 'thorough' or bin(m).count('1') <= 2 or bin(m).count('1') >= n - 2]
    return [tuple(al[i::16]) for i in range(16)]


def bare(k, feats=(), loads=()):
    d = KINDS[k]
    s = C.shell(d['mod'], d['a'], d['b'], 3, 2, r=.9 if d['mod'] == C.CYL else None, lam=C.laminates()[d['lam']], flags=C.flags_distinct(d['fl']))
    s.group = d['group']
    s.nx, s.ny = 6, 5
    for i in feats:
        FEATS[i][1](s, k)
    for i in loads:
        LOADS[i][1](s, k)
    return s


def bits(m, n):
    return [i for i in range(n) if m >> i & 1]


def loadmix(pair, masks):
    """every subset of the kinds of load on the first panel, on the second one the complement"""
    from panels.multidomain import MultiDomain
    r = R()
    n = len(LOADS)
    for m in masks:
        on = bits(m, n)
        off_ = [i for i in range(n) if i not in on]
        P = [bare(pair[0], loads=on), bare(pair[1], loads=off_)]
        md = MultiDomain(P, [])
        off, size = asm.offsets(P)
        for inc in (1., 0., .37, -2.):
            e = place([bare(pair[0], loads=on).calc_fext(inc=inc), bare(pair[1], loads=off_).calc_fext(inc=inc)], off, size)
            r.close((pair, m, inc), np.asarray(md.calc_fext(inc=inc, silent=True)), e, abs(e).max() + 1e-300, 1e-12, fkey='loadmix')
    return r


def features(pair, masks):
    """every subset of the optional attributes on the first panel, on the second one the complement"""
    from panels.multidomain import MultiDomain
    r = R()
    n = len(FEATS)
    for m in masks:
        on = bits(m, n)
        sel = (on, [i for i in range(n) if i not in on])
        new = lambda: [bare(k, feats=s) for k, s in zip(pair, sel)]
        P = new()
        md = MultiDomain(P, [])
        off, size = asm.offsets(P)
        c = C.vec(size, 1, .05)
        cs = [np.ascontiguousarray(c[o:o + 3*p.m*p.n]) for o, p in zip(off, P)]

        def cmp(nm, got, blocks):
            e = place([np.asarray(dense(b)) for b in blocks], off, size)
            s = abs(e)
            r.close((pair, m, nm), np.asarray(dense(got)), e, s + 1e-6*s.max() + 1e-300, 1e-9, fkey='features/' + nm)
        cmp('kC', md.calc_kC(silent=True), [p.calc_kC() for p in new()])
        cmp('kG', md.calc_kG(silent=True), [p.calc_kG() for p in new()])
        cmp('kG(c)', md.calc_kG(c=c, silent=True), [p.calc_kG(c=q) for p, q in zip(new(), cs)])
        cmp('kM', md.calc_kM(silent=True), [p.calc_kM() for p in new()])
    return r


def panel(k):
    d = KINDS[k]
    s = C.shell(d['mod'], d['a'], d['b'], d['m'], d['n'], r=.9 if d['mod'] == C.CYL else None, lam=C.laminates()[d['lam']], flags=C.flags_distinct(d['fl']))
    s.group = d['group']
    s.nx, s.ny = 8, 9
    s.Nxx, s.Nyy, s.Nxy = d['N']
    s.rho = 1.1 + .3*k
    s.add_point_load(.3*s.a, .6*s.b, 1. + k, 2., -3.)
    s.add_point_load(.5*s.a, .1*s.b, .5, k - 1.5, 4., cte=False)
    s.add_distr_load_fixed_x(s.a, lambda y: 1. + y*k, None, lambda y: y**2)
    s.add_distr_pd_fixed_y(0., 2., None, None, lambda x: x + k, None, None, cte=False)
    return s


def conns(P, sel):
    """some connections of an arrangement: none, first-last, all neighbours both ways"""
    def c(f, p, q, **k):
        return dict(p1=p, p2=q, func=f, **k)
    if sel == 0 or len(P) == 1:
        return []
    if sel == 1:
        return [c('SSxcte', P[0], P[-1], xcte1=P[0].a, xcte2=0.)]
    out = []
    F = ('SSycte', 'BFycte', 'SSxcte', 'BFxcte')
    for i, (p, q) in enumerate(zip(P[:-1], P[1:])):
        if i % 2:
            p, q = q, p
        f = F[i % 4]
        e = f[2:]
        L = (p.a, q.a) if e == 'xcte' else (p.b, q.b)
        out.append(c(f, p, q, **{e + '1': L[0], e + '2': .4*L[1]}))
    return out


def place(blocks, off, size):
    if blocks[0].ndim == 1:
        out = np.zeros(size)
        for b, o in zip(blocks, off):
            out[o:o + b.size] += b
        return out
    out = np.zeros((size, size))
    for b, o in zip(blocks, off):
        out[o:o + b.shape[0], o:o + b.shape[0]] += b
    return out


def matrices(arr):
    from panels.multidomain import MultiDomain
    r = R()
    for sel in (0, 1, 2):
        P = [panel(k) for k in arr]
        cn = conns(P, sel)
        off, size = asm.offsets(P)
        ab = [C.lam_abd(p.stack, p.plyts, p.laminaprops, p.offset) for p in P]
        KC = asm.conn_matrix(P, ab, cn)
        KS = asm.conn_matrix(P, ab, cn, True)
        md = MultiDomain(P, cn)
        if md.get_size() != size:
            r.fail('size', 'size %r instead of %d' % (md.get_size(), size), case=arr)
        c = C.vec(size, sel, .05)
        cs = [np.ascontiguousarray(c[o:o + 3*p.m*p.n]) for o, p in zip(off, P)]
        F = lambda: [panel(k) for k in arr]     # stand-alone panels
        key = (arr, sel)

        def cmp(nm, got, blocks, conn=None, cscale=None):
            e = place(blocks, off, size)
            s = abs(e)
            if conn is not None:
                e = e + conn
                s = s + cscale
            r.close(key + (nm,), got, e, s + 1e-6*s.max() + 1e-300, 1e-9, fkey='matrices/' + nm)
        cmp('kC', dense(md.calc_kC(silent=True)), [dense(p.calc_kC()) for p in F()], KC, KS)
        cmp('kC(c)', dense(md.calc_kC(c=c, silent=True)), [dense(p.calc_kC(c=q)) for p, q in zip(F(), cs)], KC, KS)
        md2 = MultiDomain([p for p in P])
        cmp('kC(conn=)', dense(md2.calc_kC(conn=cn, silent=True)), [dense(p.calc_kC()) for p in F()], KC, KS)
        cmp('kG', dense(md.calc_kG(silent=True)), [dense(p.calc_kG()) for p in F()])
        cmp('kG(c)', dense(md.calc_kG(c=c, silent=True)), [dense(p.calc_kG(c=q)) for p, q in zip(F(), cs)])
        cmp('kM', dense(md.calc_kM(silent=True)), [dense(p.calc_kM()) for p in F()])
        cmp('kT', dense(md.calc_kT(c=c, silent=True)),
            [dense(p.calc_kC(c=q, NLgeom=True)) + dense(p.calc_kG(c=q, NLgeom=True)) for p, q in zip(F(), cs)], KC, KS)
        cmp('fint', np.asarray(md.calc_fint(c, silent=True)), [np.asarray(p.calc_fint(q)) for p, q in zip(F(), cs)], KC@c, KS@abs(c))
        for inc in (1., 0., .37):
            cmp('fext', np.asarray(md.calc_fext(inc=inc, silent=True)), [p.calc_fext(inc=inc) for p in F()])
    return r


def fields(arr):
    from panels.multidomain import MultiDomain
    r = R()
    P = [panel(k) for k in arr]
    md = MultiDomain(P, [])
    md.out_num_cores = 1
    off, size = asm.offsets(P)
    c = C.vec(size, 2, .3)
    cs = [np.ascontiguousarray(c[o:o + 3*p.m*p.n]) for o, p in zip(off, P)]
    for group in ('s', 't', 'u', 'none'):
        sel = [i for i, k in enumerate(arr) if KINDS[k]['group'] == group]
        for what in COMP:
            for grid in ((5, 4), (4, 5), None, 'x', 'y', (1, 3)):
                for NL in ((True, False) if what != 'uvw' else (None,)):
                    kw = {} if NL is None else dict(NLterms=NL)
                    gx, gy = np.array([.1, .3, .4]), np.array([.05, .2])
                    if grid is None:
                        res = getattr(md, what + '_gauss_points')(c, group, gx, gy, **kw)
                    elif grid == 'x':
                        res = getattr(md, what + '_gauss_points')(c, group, gx, None, **kw)
                    elif grid == 'y':
                        res = getattr(md, what + '_gauss_points')(c, group, None, gy, **kw)
                    else:
                        res = getattr(md, what)(c, group, gridx=grid[0], gridy=grid[1], **kw)
                    for q in ('x', 'y') + COMP[what]:
                        if len(res[q]) != len(sel):
                            r.fail('fields/count', '%d results of %d panels' % (len(res[q]), len(sel)), case=(arr, group, what))
                    for pos, i in enumerate(sel):
                        s = panel(arr[i])
                        if isinstance(grid, tuple):
                            xs, ys = np.linspace(0, s.a, grid[0]), np.linspace(0, s.b, grid[1])
                        else:
                            xs = gx if grid != 'y' else np.linspace(0, s.a, 50)
                            ys = gy if grid != 'x' else np.linspace(0, s.b, 50)
                        X, Y = np.meshgrid(xs, ys)
                        kw2 = {} if NL is None else dict(NLgeom=NL)
                        xy, fld = getattr(s, what)(cs[i], xs=X, ys=Y, **kw2)
                        for q, e in [('x', X), ('y', Y)] + [(q, fld[q]) for q in COMP[what]]:
                            r.close((arr, group, what, grid, NL, q, pos), res[q][pos], e, None, 1e-12, 1e-14, fkey='fields/%s/%s' % (what, q))
    return r


def permute(perm):
    """reordering the panels permutes the degrees of freedom"""
    from panels.multidomain import MultiDomain
    r = R()
    for sel in (1, 2):
        base = [panel(k) for k in range(3)]
        cn = conns(base, sel)
        off, size = asm.offsets(base)
        ref_ = MultiDomain(base, cn)
        c = C.vec(size, 3, .05)
        A = {n: np.asarray(dense(f())) for n, f in (('kC', lambda: ref_.calc_kC(silent=True)), ('kG', lambda: ref_.calc_kG(silent=True)), ('kM', lambda: ref_.calc_kM(silent=True)),
                                        ('kT', lambda: ref_.calc_kT(c=c, silent=True)), ('fint', lambda: ref_.calc_fint(c, silent=True)), ('fext', lambda: ref_.calc_fext(silent=True)))}
        P = [panel(k) for k in range(3)]
        cn = conns(P, sel)
        Q = [P[k] for k in perm]
        idx = np.concatenate([np.arange(off[k], off[k] + 3*base[k].m*base[k].n) for k in perm])
        md = MultiDomain(Q, cn)
        cp = np.ascontiguousarray(c[idx])
        B = {'kC': md.calc_kC(silent=True), 'kG': md.calc_kG(silent=True), 'kM': md.calc_kM(silent=True), 'kT': md.calc_kT(c=cp, silent=True),
             'fint': md.calc_fint(cp, silent=True), 'fext': md.calc_fext(silent=True)}
        for n in A:
            e = A[n][np.ix_(idx, idx)] if A[n].ndim == 2 else A[n][idx]
            s = abs(e)
            r.close((perm, sel, n), np.asarray(dense(B[n])), e, s + 1e-3*s.max(), 1e-9, fkey='permute/' + n)
    return r


def finalize(_):
    """not finalized: the upper triangle, before symmetry"""
    from panels.multidomain import MultiDomain
    r = R()
    for arr in itertools.permutations(range(4), 2):
        P = [panel(k) for k in arr]
        md = MultiDomain(P, conns(P, 1))
        for nm in ('calc_kG', 'calc_kM'):
            U = dense(getattr(md, nm)(silent=True, finalize=False))
            K = dense(getattr(md, nm)(silent=True))
            r.close((arr, nm), np.triu(U) + np.triu(U, 1).T, K, None, 1e-12, fkey='finalize/' + nm)
        U = dense(md.get_kC_conn(finalize=False))
        K = dense(md.get_kC_conn())
        r.close((arr, 'conn'), np.triu(U) + np.triu(U, 1).T, K, None, 1e-12, fkey='finalize/conn')
    return r


def plotdata(_):
    """limits of the contour: extremes of the field over the whole group"""
    from panels.multidomain import MultiDomain
    r = R()
    for arr in itertools.permutations(range(3)):
        P = [panel(k) for k in arr]
        md = MultiDomain(P, [])
        md.out_num_cores = 1
        off, size = asm.offsets(P)
        c = C.vec(size, 2, .3)
        for group in ('s', 't'):
            for what in COMP:
                for q in COMP[what]:
                    d = md.plot(c, group, vec=q, gridx=7, gridy=6, calc_data_only=True)[1]
                    f = np.concatenate([np.ravel(z) for z in getattr(md, what)(c, group, gridx=7, gridy=6)[q]])
                    r.close((arr, group, q), np.array([d['vecmin'], d['vecmax']]), np.array([f.min(), f.max()]), None, 1e-12, fkey='plotdata/' + q)
    return r
