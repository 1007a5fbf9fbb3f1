"""What is wrong is refused, and refusing it harms nothing"""
import copy
import itertools
import numpy as np
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('every wrong definition of a list (attributes left out, lists of different lengths, unknown names, too many terms, arrays of a wrong number of values or shape, sizes too '
        'small for the panel) x every calculation that uses it x both models x a fresh object or one that has already calculated: the call must raise, and after the '
        'right definition is put back every calculation must give the results of before; the correct neighbours of every wrong definition must be accepted')

MATP = (14.3, 1.1, .29, .71, .53, .37)
M = N = 4
SIZE = 3*M*N


def shell(model, m=M, n=N):
    from panels import Shell
    s = Shell(a=1.3, b=.7, m=m, n=n, r=None if model == C.PLATE else 2.1, stack=[17., -38., 61.], plyt=.011, laminaprop=MATP)
    s.model = model
    s.rho = 1.7
    s.nx = s.ny = 6
    s.beta, s.gamma, s.aeromu = .9, .3, .2
    s.flow = 'x'
    s.Nxx, s.Nyy, s.Nxy = -1.3, .4, .2
    s.add_point_load(.31, .22, .7, -.3, 1.1, cte=True)
    s.add_point_load(.91, .52, .2, .9, .4, cte=False)
    return s


def vec(size=SIZE, k=1):
    return np.array([.01*np.sin(1.7*i*k + .3*k) for i in range(size)])


KEYS = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'), stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))


def flat(x, keys=None):
    if isinstance(x, tuple):
        x = x[1]
    if isinstance(x, dict):
        if keys:
            x = {k: x[k] for k in keys}
        return np.concatenate([np.ravel(np.concatenate([np.ravel(a) for a in v]) if isinstance(v, list) else v) for k, v in sorted(x.items()) if v is not None])
    return np.ravel(dense(x))


def fields(f, kind):
    return lambda s: flat(copy.deepcopy(f(s)), KEYS[kind])


OPS = {
    'kC': lambda s: flat(s.calc_kC(silent=True)),
    'kC_num': lambda s: flat(s.calc_kC(c=vec(), silent=True)),
    'kC_nl': lambda s: flat(s.calc_kC(c=vec(), NLgeom=True, silent=True)),
    'kG': lambda s: flat(s.calc_kG(silent=True)),
    'kG_num': lambda s: flat(s.calc_kG(c=vec(), silent=True)),
    'kT': lambda s: flat(s.calc_kT(c=vec(), silent=True)),
    'kM': lambda s: flat(s.calc_kM(silent=True)),
    'kA': lambda s: flat(s.calc_kA(silent=True)),
    'cA': lambda s: flat(s.calc_cA(.3, silent=True)),
    'fext': lambda s: flat(s.calc_fext(silent=True)),
    'fint': lambda s: flat(s.calc_fint(vec(), silent=True)),
    'uvw': fields(lambda s: s.uvw(vec(), gridx=5, gridy=4), 'uvw'),
    'strain': fields(lambda s: s.strain(vec(), gridx=5, gridy=4), 'strain'),
    'stress': fields(lambda s: s.stress(vec(), gridx=5, gridy=4), 'stress'),
}
LAM = ('kC', 'kC_num', 'kC_nl', 'kG_num', 'kT', 'kM', 'fint')   # need the laminate (stress: the one last calculated)
GEO = tuple(OPS)


def setall(s, d):
    for k, v in d.items():
        setattr(s, k, v)


def damages():
    """name -> (attributes to set, calculations that must refuse)"""
    m3 = [MATP]*3
    out = {
        'no stack': (dict(stack=None), LAM),
        'empty stack': (dict(stack=[]), LAM),
        'no plyt': (dict(plyt=None, plyts=None), LAM),
        'no laminaprop': (dict(laminaprop=None, laminaprops=None), LAM),
        'unknown model': (dict(model='plate_clpt_donnell'), GEO),
        'unknown model 2': (dict(model='kpanel_clpt'), GEO),
        'empty model': (dict(model=''), GEO),
        'no a': (dict(a=None), GEO),
        'no b': (dict(b=None), GEO),
        'm 31': (dict(m=31), GEO),
        'n 31': (dict(n=31), GEO),
        'm 35 n 2': (dict(m=35, n=2), GEO),
        'm missing': (dict(m=None), GEO),
        'n missing': (dict(n=None), GEO),
        'plyts short': (dict(plyts=[.011, .012]), LAM),
        'plyts long': (dict(plyts=[.011, .012, .013, .014]), LAM),
        'plyts one': (dict(plyts=[.033]), LAM),
        'laminaprops short': (dict(laminaprops=m3[:2]), LAM),
        'laminaprops long': (dict(laminaprops=m3 + m3[:1]), LAM),
        'laminaprops one': (dict(laminaprops=m3[:1]), LAM),
        'rhos short': (dict(rhos=[1., 2.]), LAM),
        'rhos long': (dict(rhos=[1., 2., 3., 4.]), LAM),
        'stack long, plyts given': (dict(stack=[1., 2., 3., 4.], plyts=[.011]*3), LAM),
        'stack short, plyts given': (dict(stack=[1., 2.], plyts=[.011]*3), LAM),
        'stack long, materials given': (dict(stack=[1., 2., 3., 4.], laminaprops=m3), LAM),
        'stack long, densities given': (dict(stack=[1., 2., 3., 4.], rhos=[1., 2., 3.]), LAM),
        'flow z': (dict(flow='z'), ('kA',)),
        'no Mach': (dict(beta=None, Mach=None, V=3., rho_air=1.), ('kA',)),
        'subsonic': (dict(beta=None, Mach=.9, V=3., rho_air=1.), ('kA',)),
    }
    return out


def accepted():
    """the correct neighbours of the wrong definitions"""
    m3 = [MATP]*3
    return {
        'all lists': dict(plyts=[.011, .012, .013], laminaprops=m3, rhos=[1., 2., 3.]),
        'stack and lists shorter': dict(stack=[1., 2.], plyts=[.011]*2, laminaprops=m3[:2], rhos=[1., 2.]),
        'stack longer': dict(stack=[1., 2., 3., 4.]),
        'stack of one': dict(stack=[30.]),
        'm 30': dict(m=30, n=2),
        'n 30': dict(m=2, n=30),
        'flow y': dict(flow='y'),
        'Mach 1': dict(beta=None, Mach=1., V=3., rho_air=1.),
        'model not given': dict(model=None),
    }


def some(ok, full):
    # afterwards: every calculation, or (quick) four
    return [(p, f) for p, f in ok.items() if full or p in ('kC', 'fint', 'kM', 'uvw', 'uvw_skin', 'conn')]


def refused(r, key, fn):
    """fn() has to raise"""
    r.transitions += 1
    r.case(key)
    try:
        got = fn()
    except Exception as e:
        r.sample({'case': key, 'refused': '%s: %s' % (type(e).__name__, str(e)[:90])})
        return True
    r.fail('accepted/' + '/'.join(str(k) for k in key[:3]), 'accepted instead of refused', case=key, got=type(got).__name__)
    return False


def t_shell(model, ops, full):
    r = R()
    base = {}
    for o in OPS:
        base[o] = OPS[o](shell(model))
    for dname, (bad, must) in damages().items():
        for o in must:
            if o not in ops:
                continue
            s = shell(model)
            setall(s, bad)
            refused(r, ('shell', o, dname, model, 'fresh'), lambda: OPS[o](s))
            for after in ('kC', o):
                s = shell(model)
                OPS[after](s)
                good = {k: getattr(s, k) for k in bad}
                setall(s, bad)
                refused(r, ('shell', o, dname, model, 'after ' + after), lambda: OPS[o](s))
                setall(s, good)
                for p in dict.fromkeys((o, 'kC', 'fint', 'kM') if full else (o, 'kC')):
                    if p not in ('uvw', 'strain', 'stress') or 'kC' in (o, after):
                        r.close(('restored', o, dname, model, after, p), OPS[p](s), base[p], rtol=1e-12, fkey='restored/%s' % p)
    # the neighbours that are correct
    for aname, good in accepted().items():
        for o in ops:
            if ('m' in good or 'n' in good) and o not in ('kC', 'kG', 'kM', 'kA', 'cA', 'fext'):
                continue
            if aname == 'stack longer' and o == 'stress':
                continue
            s = shell(model)
            setall(s, good)
            r.case(('accepted', o, aname, model))
            try:
                x = OPS[o](s)
                if not np.isfinite(x).all():
                    r.fail('correct/not finite', 'a correct definition gave values that are not finite', case=(o, aname, model))
            except Exception as e:
                r.fail('correct/refused', 'a correct definition was refused: %s: %s' % (type(e).__name__, e), case=(o, aname, model))
    return r


def wrong_c(size):
    return {
        'one short': vec(size - 1), 'one long': vec(size + 1), 'empty': vec(0), 'half': vec(size//2), 'double': vec(2*size), 'column': vec(size).reshape(-1, 1),
        'row': vec(size).reshape(1, -1), 'square': vec(size).reshape(3, -1), 'scalar': np.array(1.),
        'text': np.array(['a']*size),
    }


def t_args(model, full):
    r = R()
    A = {}
    c0 = vec()
    # vectors of Ritz constants
    for nm, c in wrong_c(SIZE).items():
        for o in ('calc_kC', 'calc_kG', 'calc_kT'):
            A[o, 'c ' + nm] = lambda s, o=o, c=c: getattr(s, o)(c=c, silent=True)
            if o != 'calc_kT':
                A[o + ' NL', 'c ' + nm] = lambda s, o=o, c=c: getattr(s, o)(c=c, NLgeom=True, silent=True)
        A['calc_fint', 'c ' + nm] = lambda s, c=c: s.calc_fint(c, silent=True)
        if nm not in ('one long', 'double'): # fields take the first constants of a longer vector
            for o in ('uvw', 'strain', 'stress'):
                A[o, 'c ' + nm] = lambda s, o=o, c=c: getattr(s, o)(c, gridx=4, gridy=3)
                A[o + ' at points', 'c ' + nm] = lambda s, o=o, c=c: getattr(s, o)(c, xs=np.array([.1, .2, .5]), ys=np.array([.3, .2, .1]))
    # the size of the global matrices
    big = SIZE + 12
    for nm, c in (('local', vec(SIZE)), ('one short', vec(big - 1)), ('one long', vec(big + 1))):
        for o in ('calc_kC', 'calc_kG', 'calc_kT'):
            A[o + ' placed', 'c ' + nm] = lambda s, o=o, c=c: getattr(s, o)(c=c, size=big, row0=12, col0=12, silent=True)
        A['calc_fint placed', 'c ' + nm] = lambda s, c=c: s.calc_fint(c, size=big, col0=12, silent=True)
    for size, col0 in ((SIZE - 1, 0), (SIZE, 1), (SIZE + 5, 6), (0, 0), (1, 0), (SIZE + 12, SIZE), (SIZE//2, 0)):
        A['calc_fint', 'size %d at %d' % (size, col0)] = lambda s, z=size, k=col0: s.calc_fint(vec(z), size=z, col0=k, silent=True)
        A['calc_fext', 'size %d at %d' % (size, col0)] = lambda s, z=size, k=col0: s.calc_fext(size=z, col0=k, silent=True)
        for o in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA'):
            A[o, 'size %d at %d' % (size, col0)] = lambda s, o=o, z=size, k=col0: getattr(s, o)(size=z, row0=k, col0=k, silent=True)
        for o in ('calc_kC', 'calc_kG', 'calc_kT'):
            A[o + ' num', 'size %d at %d' % (size, col0)] = lambda s, o=o, z=size, k=col0: getattr(s, o)(c=vec(z), size=z, row0=k, col0=k, silent=True)
    # laminates over the integration points
    s0 = shell(model)
    s0.calc_kC()
    ABD = np.asarray(s0.ABD)
    nn = 6
    good = np.zeros((nn, nn, 6, 6)) + ABD
    for nm, v in dict(short=good[:5], short2=good[:, :5], long=np.zeros((7, nn, 6, 6)) + ABD, flat=good.reshape(-1, 6, 6), fields=good[:, :, :5], fields2=good[..., :5],
                      rect=np.zeros((nn, nn, 8, 8)), five=good[None], one=good[:1, :1], swapped=np.zeros((4, 9, 6, 6)) + ABD,
                      small=ABD[:3, :3], tall=np.zeros((7, 6)), vec=ABD[0]).items():
        A['calc_kC', 'ABD ' + nm] = lambda s, v=v: s.calc_kC(ABDnxny=v, nx=nn, ny=nn, silent=True)
        A['calc_kC c', 'ABD ' + nm] = lambda s, v=v: s.calc_kC(c=c0, ABDnxny=v, nx=nn, ny=nn, silent=True)
        A['calc_kG', 'ABD ' + nm] = lambda s, v=v: s.calc_kG(c=c0, ABDnxny=v, nx=nn, ny=nn, silent=True)
        A['calc_fint', 'ABD ' + nm] = lambda s, v=v: s.calc_fint(c0, ABDnxny=v, nx=nn, ny=nn, silent=True)
    h = np.full((nn, nn), .033)
    for nm, v in dict(short=h[:5], short2=h[:, :5], flat=h.ravel(), long=np.ones((7, nn)), third=h[..., None], swapped=np.ones((4, 9))).items():
        A['calc_kM', 'h ' + nm] = lambda s, v=v: s.calc_kM(h_nxny=v, rho_nxny=h, silent=True)
        A['calc_kM', 'rho ' + nm] = lambda s, v=v: s.calc_kM(h_nxny=h, rho_nxny=v, silent=True)
        A['calc_kM', 'both ' + nm] = lambda s, v=v: s.calc_kM(h_nxny=v, rho_nxny=v, silent=True)
    # the points of the fields
    for nm, (xs, ys) in dict(more=(3, 4), less=(4, 3), none=(3, 0), grid=((3, 2), (2, 3)), grid2=((2, 2), (4,)), one=(1, 3), one2=(3, 1)).items():
        for o in ('uvw', 'strain', 'stress'):
            A[o, 'points ' + nm] = lambda s, o=o, xs=xs, ys=ys: getattr(s, o)(c0, xs=np.full(xs, .3), ys=np.full(ys, .2))
    # loads and constraints
    A['add_distr_load_fixed_x', 'no function'] = lambda s: s.add_distr_load_fixed_x(.3)
    A['add_distr_load_fixed_y', 'no function'] = lambda s: s.add_distr_load_fixed_y(.3)
    one = lambda z: 1.
    for ax in 'xy':
        for k, f in itertools.product(range(8), range(8)):
            kw = {'k' + q: 3. for i, q in enumerate('uvw') if k & 1 << i}
            fw = {'func' + q: one for i, q in enumerate('uvw') if f & 1 << i}
            if k == f and k:
                continue
            if not k or not f or any((k & 1 << i) and not (f & 1 << i) for i in range(3)):
                A['add_distr_pd_fixed_' + ax, 'ku,kv,kw %d funcs %d' % (k, f)] = lambda s, ax=ax, kw=kw, fw=fw: getattr(s, 'add_distr_pd_fixed_' + ax)(.3, **kw, **fw)
    base = {o: OPS[o](shell(model)) for o in OPS}
    for (o, nm), fn in A.items():
        refused(r, (o, nm, model, 'fresh'), lambda: fn(shell(model)))
        s = shell(model)
        OPS['kC'](s), OPS['kM'](s), OPS['fint'](s)
        refused(r, (o, nm, model, 'after'), lambda: fn(s))
        for p in ('kC', 'kC_num', 'kM', 'fint', 'fext', 'uvw', 'stress') if full else ('kC', 'fint', 'fext', 'stress'):
            r.close(('after', o, nm, model, p), OPS[p](s), base[p], rtol=1e-12, fkey='afterwards/%s' % p)
    # correct neighbours
    G = {
        'ABD points': lambda s: s.calc_kC(ABDnxny=good, nx=nn, ny=nn), 'ABD one': lambda s: s.calc_kC(ABDnxny=ABD, nx=nn, ny=nn), 'ABD fint': lambda s: s.calc_fint(c0, ABDnxny=good, nx=nn, ny=nn),
        'h rho': lambda s: s.calc_kM(h_nxny=h, rho_nxny=h), 'placed fint': lambda s: s.calc_fint(vec(big), size=big, col0=12),
        'placed fext': lambda s: s.calc_fext(size=big, col0=12), 'points': lambda s: s.uvw(c0, xs=np.full((3, 2), .3), ys=np.full((3, 2), .2)),
        'one point': lambda s: s.uvw(c0, xs=np.array([.3]), ys=np.array([.2])),
        'exact fit': lambda s: s.calc_fint(c0, size=SIZE, col0=0), 'list c': lambda s: s.uvw(list(c0), gridx=3, gridy=3),
        'strided c': lambda s: s.calc_fint(np.repeat(c0, 2)[::2]), 'single c': lambda s: s.calc_fint(c0.astype(np.float32)),
        'pd': lambda s: s.add_distr_pd_fixed_x(.3, ku=2., funcu=one),
    }
    for o in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA'):
        G['placed ' + o] = lambda s, o=o: getattr(s, o)(size=big, row0=12, col0=12)
    for o in ('calc_kC', 'calc_kG', 'calc_kT'):
        G['placed c ' + o] = lambda s, o=o: getattr(s, o)(c=vec(big), size=big, row0=12, col0=12)
    for nm, fn in G.items():
        r.case(('correct', nm, model))
        try:
            fn(shell(model))
        except Exception as e:
            r.fail('correct/refused', 'a correct call was refused: %s: %s' % (type(e).__name__, e), case=(nm, model))
    return r


def md(model, **kw):
    from panels.multidomain import MultiDomain
    p, q = shell(model), shell(model, m=3, n=5)
    p.x0 = p.y0 = q.y0 = 0.
    q.x0 = 1.3
    p.group = q.group = 'skin'
    con = dict(p1=p, p2=q, func='SSxcte', xcte1=1.3, xcte2=0.)
    for k, v in kw.items():
        if v == 'missing':
            con.pop(k, None)
        elif v == 'new':
            con[k] = shell(model)
        else:
            con[k] = v
    return MultiDomain([p, q], [con])


SMD = 3*(16 + 15)


def t_md(model, full):
    r = R()
    from panels.multidomain import MultiDomain
    c0 = vec(SMD)
    ok = {
        'kC': lambda a: a.calc_kC(silent=True), 'kC_num': lambda a: a.calc_kC(c=c0, silent=True), 'kG': lambda a: a.calc_kG(c=c0, silent=True), 'kM': lambda a: a.calc_kM(silent=True),
        'kT': lambda a: a.calc_kT(c=c0, silent=True), 'fint': lambda a: a.calc_fint(c0, silent=True), 'fext': lambda a: a.calc_fext(silent=True),
        'conn': lambda a: a.get_kC_conn(), 'uvw': lambda a: a.uvw(c0, 'skin', gridx=4, gridy=3), 'strain': lambda a: a.strain(c0, 'skin', gridx=4, gridy=3),
        'stress': lambda a: a.stress(c0, 'skin', gridx=4, gridy=3),
    }
    base = {k: flat(copy.deepcopy(f(md(model))), KEYS.get(k)) for k, f in ok.items()}
    A = {}
    for nm, c in wrong_c(SMD).items():
        for o in ('calc_kC', 'calc_kG', 'calc_kT'):
            A[o, 'c ' + nm] = lambda a, o=o, c=c: getattr(a, o)(c=c, silent=True)
        A['calc_fint', 'c ' + nm] = lambda a, c=c: a.calc_fint(c, silent=True)
        if nm not in ('one long', 'double'):
            for o in ('uvw', 'strain', 'stress'):
                A[o, 'c ' + nm] = lambda a, o=o, c=c: getattr(a, o)(c, 'skin', gridx=4, gridy=3)
                A[o + '_gauss_points', 'c ' + nm] = lambda a, o=o, c=c: getattr(a, o + '_gauss_points')(c, 'skin', np.array([.1, .2]), np.array([.3, .4, .5]))
    for o in ('uvw', 'strain', 'stress'):
        A[o + '_gauss_points', 'no points'] = lambda a, o=o: getattr(a, o + '_gauss_points')(c0, 'skin', None, None)
    for (o, nm), fn in A.items():
        refused(r, ('md', o, nm, model, 'fresh'), lambda: fn(md(model)))
        a = md(model)
        ok['kC'](a)
        ok['fint'](a)
        refused(r, ('md', o, nm, model, 'after'), lambda: fn(a))
        for p, f in some(ok, full):
            r.close(('md after', o, nm, model, p), flat(copy.deepcopy(f(a)), KEYS.get(p)), base[p], rtol=1e-12, fkey='afterwards/md %s' % p)
    # connections
    W = {'unknown': dict(func='SSxxx'), 'no func': dict(func='missing'), 'no p1': dict(p1='missing'), 'no p2': dict(p2='missing'), 'no xcte1': dict(xcte1='missing'),
         'no xcte2': dict(xcte2='missing'), 'other p1': dict(p1='new'), 'other p2': dict(p2='new'), 'ycte wanted': dict(func='SSycte'), 'empty func': dict(func=''),
         'bfx missing ycte': dict(func='BFycte')}
    for nm, kw in W.items():
        for o in ('kC', 'kC_num', 'kT', 'conn', 'fint'):
            r.case(('md conn', o, nm, model))
            refused(r, ('md', o, 'conn ' + nm, model), lambda: ok[o](md(model, **kw)))
        # given for one call instead: the assembly's own connections stay
        a = md(model)
        ok['kC'](a)
        bad = dict(a.conn[0])
        for k, v in kw.items():
            bad.pop(k, None)
            if v != 'missing':
                bad[k] = shell(model) if v == 'new' else v
        for o in ('calc_kC', 'get_kC_conn'):
            refused(r, ('md', o, 'conn argument ' + nm, model), lambda: getattr(a, o)(conn=[bad]))
            refused(r, ('md', o, 'conn argument after a correct one ' + nm, model), lambda: getattr(a, o)(conn=[a.conn[0], bad]))
        for p, f in some(ok, full):
            r.close(('md after conn', nm, model, p), flat(copy.deepcopy(f(a)), KEYS.get(p)), base[p], rtol=1e-12, fkey='afterwards/md conn %s' % p)
    for nm, x in dict(number=[1], none=[None], text=['a'], second=[shell(model), 3]).items():
        refused(r, ('md', 'MultiDomain', 'panels ' + nm, model), lambda: MultiDomain(x, []))
    # one wrong panel among right ones
    for dname, (bad, must) in damages().items():
        if 'kA' in must and len(must) == 1:
            continue
        for k in (0, 1):
            for o in ('kC', 'kC_num', 'kG', 'kM', 'kT', 'fint') + (() if must is LAM else ('uvw', 'strain')):
                a = md(model)
                setall(a.panels[k], bad)
                refused(r, ('md', o, 'panel %d: %s' % (k, dname), model), lambda: ok[o](a))
                a = md(model)
                ok['kC'](a)
                good = {z: getattr(a.panels[k], z) for z in bad}
                setall(a.panels[k], bad)
                refused(r, ('md', o, 'panel %d after kC: %s' % (k, dname), model), lambda: ok[o](a))
                setall(a.panels[k], good)
                for p, f in some(ok, full):
                    r.close(('md restored', o, dname, model, k, p), flat(copy.deepcopy(f(a)), KEYS.get(p)), base[p], rtol=1e-12, fkey='restored/md %s' % p)
    # without connections
    p, q = shell(model), shell(model)
    for o in ('calc_kC', 'get_kC_conn', 'calc_kT'):
        refused(r, ('md', o, 'no connections', model), lambda: getattr(MultiDomain([p, q]), o)())
    return r


def bay(stiff, split=.35, **kw):
    from panels.stiffpanelbay import StiffPanelBay
    s = StiffPanelBay()
    s.a, s.b, s.m, s.n = 1.3, .7, M, N
    s.stack, s.plyt, s.laminaprop, s.rho, s.model = [17., -38., 61.], .011, MATP, 1.7, C.PLATE
    s.beta, s.gamma, s.aeromu = .9, .3, .2
    s.add_panel(y1=0, y2=split)
    s.add_panel(y1=split, y2=.7)
    if stiff == '1':
        d = dict(ys=split, rho=1.1, bb=.11, bstack=[5., 6.], bplyt=.007, blaminaprop=MATP, bf=.08, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP)
        d.update(kw)
        s.add_bladestiff1d(**d)
    elif stiff == '2':
        d = dict(ys=split, rho=1.1, bb=.11, bstack=[5., 6.], bplyt=.007, blaminaprop=MATP, bf=.08, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP, mf=3, nf=3)
        d.update(kw)
        s.add_bladestiff2d(**d)
    return s


def t_bay(stiff, full):
    r = R()
    n0 = bay(stiff).get_size()
    c0 = vec(n0)
    ok = {
        'kC': lambda s: s.calc_kC(silent=True), 'kG': lambda s: s.calc_kG(silent=True), 'kM': lambda s: s.calc_kM(silent=True), 'kA': lambda s: s.calc_kA(silent=True),
        'cA': lambda s: s.calc_cA(silent=True), 'fext': lambda s: s.calc_fext(silent=True), 'uvw_skin': lambda s: s.uvw_skin(c0, gridx=4, gridy=3),
    }
    if stiff == '2':
        ok['uvw_stiffener'] = lambda s: s.uvw_stiffener(c0, 0, region='flange', gridx=4, gridy=3)
    base = {k: fbay(f(bay(stiff))) for k, f in ok.items()}
    A = {}
    for nm, c in wrong_c(n0).items():
        A['calc_kG', 'c ' + nm] = lambda s, c=c: s.calc_kG(c=c, silent=True)
        if nm not in ('one long', 'double'):
            A['uvw_skin', 'c ' + nm] = lambda s, c=c: s.uvw_skin(c, gridx=4, gridy=3)
            if stiff == '2':
                A['uvw_stiffener', 'c ' + nm] = lambda s, c=c: s.uvw_stiffener(c, 0, region='flange', gridx=4, gridy=3)
    if stiff == '2':
        A['uvw_stiffener', 'unknown region'] = lambda s: s.uvw_stiffener(c0, 0, region='web', gridx=4, gridy=3)
        A['uvw_stiffener', 'no such stiffener'] = lambda s: s.uvw_stiffener(c0, 1, region='flange', gridx=4, gridy=3)
    A['uvw_skin', 'points'] = lambda s: s.uvw_skin(c0, xs=np.ones(3), ys=np.ones(4))
    for (o, nm), fn in A.items():
        refused(r, ('bay', o, nm, stiff, 'fresh'), lambda: fn(bay(stiff)))
        s = bay(stiff)
        ok['kC'](s)
        ok['kM'](s)
        refused(r, ('bay', o, nm, stiff, 'after'), lambda: fn(s))
        for p, f in some(ok, full):
            r.close(('bay after', o, nm, stiff, p), fbay(f(s)), base[p], rtol=1e-12, fkey='afterwards/bay %s' % p)
    # the bay itself
    for nm, bad in {'no a': dict(a=None), 'no b': dict(b=None)}.items():
        for o in ('kC', 'kG', 'kM', 'kA', 'cA', 'uvw_skin'):
            for first in (None, 'kC'):
                s = bay(stiff)
                if first:
                    ok[first](s)
                good = {k: getattr(s, k) for k in bad}
                setall(s, bad)
                refused(r, ('bay', o, nm, stiff, first), lambda: ok[o](s))
                setall(s, good)
                for p, f in some(ok, full):
                    r.close(('bay restored', o, nm, stiff, first, p), fbay(f(s)), base[p], rtol=1e-12, fkey='restored/bay %s' % p)
    # one wrong strip among right ones
    for dname, (bad, must) in damages().items():
        if 'kA' in must and len(must) == 1:
            continue
        for k in (0, 1):
            for o in ('kC', 'kM') + (() if must is LAM else ('kG', 'kA')):
                for first in (None, 'kC'):
                    s = bay(stiff)
                    if first:
                        ok[first](s)
                    good = {z: getattr(s.panels[k], z) for z in bad}
                    setall(s.panels[k], bad)
                    refused(r, ('bay', o, 'strip %d: %s' % (k, dname), stiff, first), lambda: ok[o](s))
                    if first:
                        setall(s.panels[k], good)
                        for p, f in some(ok, full):
                            r.close(('bay restored', o, dname, stiff, k, p), fbay(f(s)), base[p], rtol=1e-12, fkey='restored/bay %s' % p)
    if stiff == '0':
        # stiffeners that cannot be
        for t in '12':
            D = {'away from a border': dict(ys=.3), 'outside': dict(ys=1.), 'no base nor flange': dict(bstack=None, fstack=None),
                 'base without thickness': dict(bplyt=None), 'base without material': dict(blaminaprop=None), 'flange without thickness': dict(fplyt=None),
                 'flange without material': dict(flaminaprop=None)}
            for z in 'bf':
                for nm, v in (('plyts', [.01]), ('plyts', [.01]*3), ('laminaprops', [MATP]), ('laminaprops', [MATP]*3)):
                    D['%s%s of %d' % (z, nm, len(v))] = {z + nm: v}
            for nm, kw in D.items():
                for o in ('kC', 'kM', 'kG', 'kA'):
                    if 'away' not in nm and 'of' in nm.split() and o in ('kG', 'kA'):
                        continue
                    refused(r, ('bay', 'add_bladestiff%sd' % t, nm, o), lambda: ok[o](bay(t, **kw)))
            for nm, kw in {'only base': dict(fstack=None), 'only flange': dict(bstack=None), 'lists': dict(bplyts=[.01, .02], fplyts=[.01, .02], blaminaprops=[MATP]*2, flaminaprops=[MATP]*2)}.items():
                r.case(('correct bay', t, nm))
                try:
                    s = bay(t, **kw)
                    for o in ('kC', 'kM'):
                        if not np.isfinite(fbay(ok[o](s))).all():
                            r.fail('correct/not finite', 'a correct stiffener gave values that are not finite', case=(t, nm, o))
                except Exception as e:
                    if not (t == '1' and nm == 'only base'):
                        r.fail('correct/refused', 'a correct stiffener was refused: %s: %s' % (type(e).__name__, e), case=(t, nm))
            from panels.stiffpanelbay import StiffPanelBay
            def before():
                s = StiffPanelBay()
                s.a, s.b, s.m, s.n = 1.3, .7, M, N
                s.stack, s.plyt, s.laminaprop, s.rho, s.model = [17., -38., 61.], .011, MATP, 1.7, C.PLATE
                getattr(s, 'add_bladestiff%sd' % t)(ys=.35, bf=.08, fstack=[0.], fplyt=.01, flaminaprop=MATP)
            refused(r, ('bay', 'add_bladestiff%sd' % t, 'before the panels'), before)
            # a refused stiffener leaves no trace
            s = bay('0')
            for nm, kw in list(D.items())[:7]:
                d = dict(ys=.35, rho=1.1, bb=.11, bstack=[5., 6.], bplyt=.007, blaminaprop=MATP, bf=.08, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP)
                d.update(kw)
                try:
                    getattr(s, 'add_bladestiff%sd' % t)(**d)
                    r.fail('accepted/bay/add', 'accepted', case=(t, nm))
                except Exception:
                    pass
                for p, f in some(ok, full):
                    r.close(('bay after a refused stiffener', t, nm, p), fbay(f(s)), base[p], rtol=1e-12, fkey='afterwards/bay stiffener %s' % p)
    return r


def fbay(x):
    x = copy.deepcopy(x)
    if isinstance(x, (tuple, list)):
        return np.concatenate([np.ravel(v) for v in x])
    return flat(x)


def jobs(tier, seed):
    full = tier == 'thorough'
    out = []
    for model in C.MODELS:
        out += [('t_args', (model, full)), ('t_md', (model, full))]
    out += [('t_bay', (k, full)) for k in '012']
    for model in C.MODELS:
        ops = list(OPS)
        for k in range(0, len(ops), 2):
            out.append(('t_shell', (model, ops[k:k + 2], full)))
    return out
