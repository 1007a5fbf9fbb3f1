"""Equivalent ways of giving the same input give the same results"""
import copy
import itertools
import numpy as np
import common as C
from harness import R, dense

LEVEL = 'exploration'
RULE = ('every equivalent form (integers, NumPy scalars, tuples, lists, one value or one per ply, constructor or attributes, derived or given models, strided, transposed, read-only, non-native or integer arrays) '
        'of every attribute and argument, one at a time and all pairs (thorough), x every calculation x both models; every result against that of the plain form')
A, B, RAD = 2., 1., 3.
M, N = 4, 5
SIZE = 3*M*N
MATP = (14.3, 1.1, .29, .71, .53, .37)


def base(model):
    """every value of the definition, in its plain form"""
    d = dict(a=A, b=B, r=None if model == C.PLATE else RAD, m=M, n=N, stack=[17., -38., 61.], plyt=.0625, laminaprop=list(MATP), rho=2., offset=.25,
             nx=7, ny=6, Nxx=-3., Nyy=2., Nxy=1., Nxx_cte=1., Nyy_cte=-2., Nxy_cte=3., beta=2., gamma=1., aeromu=3., flow='x', model=model)
    for i, (k, v) in enumerate(C.flags_distinct().items()):
        d[k] = float(i % 3)
    return d


def variants(model):
    """name -> changes of the definition that mean the same"""
    b = base(model)
    out = {}
    ints = ['a', 'b', 'Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'rho', 'beta', 'gamma', 'aeromu'] + (['r'] if b['r'] else [])
    for k in ints:
        out['int ' + k] = {k: int(b[k])}
        out['float64 ' + k] = {k: np.float64(b[k])}
        out['float32 ' + k] = {k: np.float32(b[k])}
        out['int64 ' + k] = {k: np.int64(b[k])}
    out['all int'] = {k: int(b[k]) for k in ints}
    out['all float64'] = {k: np.float64(b[k]) for k in ints}
    for k in ('plyt', 'offset'):
        out['float64 ' + k] = {k: np.float64(b[k])}
        out['float32 ' + k] = {k: np.float32(b[k])}
    fl = [k for k in b if len(k) in (3, 4) and k[0] in 'xy' and k[1] in '12']
    assert len(fl) == 24
    out['int flags'] = {k: int(b[k]) for k in fl}
    out['int32 flags'] = {k: np.int32(b[k]) for k in fl}
    out['float32 flags'] = {k: np.float32(b[k]) for k in fl}
    for k in ('m', 'n', 'nx', 'ny'):
        out['int64 ' + k] = {k: np.int64(b[k])}
        out['int32 ' + k] = {k: np.int32(b[k])}
    st = b['stack']
    out['int stack'] = dict(stack=[int(t) for t in st])
    out['tuple stack'] = dict(stack=tuple(st))
    out['float64 stack'] = dict(stack=list(np.array(st)))
    out['int64 stack'] = dict(stack=list(np.array(st, dtype=int)))
    out['turned stack'] = dict(stack=[t + 180. for t in st])
    out['turned back stack'] = dict(stack=[st[0] - 180., st[1], st[2] + 360.])
    out['plyts'] = dict(plyt=None, plyts=[b['plyt']]*3)
    out['plyts tuple'] = dict(plyt=None, plyts=(b['plyt'],)*3)
    out['plyts over plyt'] = dict(plyt=9., plyts=[b['plyt']]*3)
    out['plyts float64'] = dict(plyts=list(np.full(3, b['plyt'])))
    out['tuple laminaprop'] = dict(laminaprop=tuple(MATP))
    out['float64 laminaprop'] = dict(laminaprop=[np.float64(v) for v in MATP])
    out['laminaprops'] = dict(laminaprop=None, laminaprops=[list(MATP)]*3)
    out['laminaprops tuple'] = dict(laminaprop=None, laminaprops=(tuple(MATP),)*3)
    out['laminaprops over laminaprop'] = dict(laminaprop=[9., 9., .1, 9., 9., 9.], laminaprops=[list(MATP)]*3)
    out['rhos'] = dict(rho=None, rhos=[b['rho']]*3)
    out['rhos over rho'] = dict(rho=99., rhos=(b['rho'],)*3)
    out['model derived'] = dict(model=None)
    if b['r'] is None:
        out['no curvature'] = dict(r=None, gamma=int(b['gamma']))
    # plies divided
    out['divided plies'] = dict(stack=[t for t in st for _ in (0, 1)], plyts=[b['plyt']/2]*6)
    out['divided plies plyt'] = dict(stack=[t for t in st for _ in (0, 1)], plyt=b['plyt']/2)
    out['ply of no thickness'] = dict(stack=st + [45.], plyts=[b['plyt']]*3 + [0.], rhos=[2.]*3 + [7.])
    out['full domain'] = dict(x1=0., x2=A, y1=0., y2=B)
    out['full domain x'] = dict(x1=0., x2=A)
    out['full domain y'] = dict(y1=0., y2=B)
    out['full domain int'] = dict(x1=0, x2=int(A), y1=0, y2=int(B))
    # one setting named in two ways
    out['flow X'] = dict(flow='X')
    return out


def numbers(x):
    if isinstance(x, tuple):
        x = x[1]
    if isinstance(x, dict):
        return np.concatenate([np.ravel(x[k]) for k in sorted(x) if x[k] is not None])
    return np.ravel(dense(x))


def vec(size=SIZE, k=1):
    # thousandths: exact with integers when multiplied
    return np.array([np.round(64*np.sin(1.7*i*k + .3*k)) for i in range(size)])/1024.


XS, YS = np.array([[.25, 1., 1.75], [.5, 1.25, 2.]]), np.array([[.125, .5, .75], [.25, 1., 0.]])


def ops():
    c = vec()
    g = dict(gridx=4, gridy=3)
    return {
        'kC': lambda s: s.calc_kC(), 'kC num': lambda s: s.calc_kC(c=c.copy()), 'kC nl': lambda s: s.calc_kC(c=c.copy(), NLgeom=True),
        'kG': lambda s: s.calc_kG(), 'kG num': lambda s: s.calc_kG(c=c.copy()), 'kG nl': lambda s: s.calc_kG(c=c.copy(), NLgeom=True), 'kT': lambda s: s.calc_kT(c=c.copy()), 'kM': lambda s: s.calc_kM(),
        'kA': lambda s: s.calc_kA(), 'cA': lambda s: s.calc_cA(s.aeromu), 'fext': lambda s: s.calc_fext(inc=.5), 'fint': lambda s: s.calc_fint(c.copy()),
        'uvw': lambda s: s.uvw(c.copy(), **g), 'strain': lambda s: s.strain(c.copy(), **g), 'stress': lambda s: (s.calc_kC(), s.stress(c.copy(), **g)[1]),
        'points': lambda s: s.uvw(c.copy(), xs=XS.copy(), ys=YS.copy()), 'constraint': lambda s: s.calc_stiffness_point_constraint(.5, .25, phix=True),
    }


def build(d, how):
    from panels import Shell
    d = dict(d)
    if how == 'constructor':
        first = {k: d.pop(k) for k in ('a', 'b', 'r', 'stack', 'plyt', 'laminaprop', 'rho', 'm', 'n', 'offset')}
        nx, ny = d.pop('nx'), d.pop('ny')
        s = Shell(**first, **d)
        s.nx, s.ny = nx, ny
    elif how == 'positions':
        s = Shell(d.pop('a'), d.pop('b'), d.pop('r'), d.pop('stack'), d.pop('plyt'), d.pop('laminaprop'), d.pop('rho'), d.pop('m'), d.pop('n'), d.pop('offset'))
        for k, v in d.items():
            setattr(s, k, v)
    else:
        s = Shell()
        for k, v in (reversed(list(d.items())) if how == 'reversed' else d.items()):
            setattr(s, k, v)
    s.add_point_load(.5, .25, 1., -2., 3., cte=True)
    s.add_point_load(1.5, .75, 2., 1., 4., cte=False)
    s.add_distr_load_fixed_x(.5, lambda y: y, None, lambda y: 2. + y, cte=True)
    s.add_point_pd(.75, .5, 8., .5, 4., .25, 2., 1., cte=True)
    return s


def t_def(model, names, two):
    r = R()
    V = variants(model)
    O = ops()
    b = base(model)
    exp = {o: numbers(copy.deepcopy(f(build(b, 'attributes')))) for o, f in O.items()}
    combos = []
    if two:
        for n1 in names:
            for n2 in V:
                if n1 < n2 and not set(V[n1]) & set(V[n2]) and not ('ply' in n1 + n2 and 'stack' in n1 + n2 or n1.startswith('divided') or n2.startswith('divided')
                                                                    or 'of no' in n1 + n2 or ('domain' in n1 + n2 and (' a' in n1 + n2 or ' b' in n1 + n2))):
                    combos.append((n1, n2))
    else:
        combos = [(n,) for n in names]
    for ns in combos:
        ch = {}
        for n in ns:
            ch.update(V[n])
        for how in (('attributes',) if two else ('attributes', 'constructor', 'positions', 'reversed')):
            s = None
            for o, f in O.items():
                if o == 'kA' and 'domain' in ''.join(ns) and ns != ('full domain',):
                    pass
                d = dict(b)
                d.update(ch)
                s = build(d, how)
                r.transitions += 1
                try:
                    got = numbers(copy.deepcopy(f(s)))
                except Exception as e:
                    r.fail('refused/%s' % o, 'refused: %s: %s' % (type(e).__name__, e), case=(ns, how, o, model))
                    continue
                tol = 1e-7 if any('float32' in n for n in ns) else 1e-12 if not any(x in n for n in ns for x in ('divided', 'turned', 'of no', 'domain')) else 1e-9
                # analytical or numerical integration of the same thing
                r.close((ns, how, o, model), got, exp[o], rtol=tol, fkey='form/%s' % o)
    return r


def arrays(v, dtypes=True, lists=True):
    """forms of the same array"""
    v = np.asarray(v, dtype=float)
    out = {'strided': np.repeat(v, 2, axis=-1)[..., ::2], 'fortran': np.asfortranarray(v), 'negative stride': v[..., ::-1].copy()[..., ::-1],
           'offset': np.concatenate((np.zeros(v.shape[:-1] + (1,)), v), axis=-1)[..., 1:], 'subclass': v.copy().view(Sub)}
    ro = v.copy()
    ro.flags.writeable = False
    out['read-only'] = ro
    if dtypes:
        out['swapped bytes'] = v.astype('>f8')
        out['long double'] = v.astype(np.longdouble)
        if np.array_equal(v, v.astype(np.float32)):
            out['float32'] = v.astype(np.float32)
        if np.array_equal(v, v.astype(int)):
            out['int'] = v.astype(int)
            out['int32'] = v.astype(np.int32)
    if lists:
        out['list'] = v.tolist()
        out['tuple'] = tuple(v.tolist())
    return out


class Sub(np.ndarray):
    pass


def t_args(model):
    r = R()
    c = vec()
    ci = np.round(64*vec())
    ng = 6
    s0 = build(base(model), 'attributes')
    s0.calc_kC()
    ABD = np.asarray(s0.ABD).copy()
    full = np.zeros((ng, ng, 6, 6)) + ABD
    full[2, 3] *= 1.5
    full[1, 0] *= .5
    h = np.full((7, 6), .1875) + .0625*np.arange(6)
    rho = np.full((7, 6), 2.) + .5*np.arange(7)[:, None]

    def run(key, fn, forms, plain):
        exp = numbers(copy.deepcopy(fn(build(base(model), 'attributes'), plain)))
        for nm, v in forms.items():
            before = copy.deepcopy(v)
            s = build(base(model), 'attributes')
            r.transitions += 1
            try:
                got = numbers(copy.deepcopy(fn(s, v)))
            except Exception as e:
                if nm == 'read-only': # may be refused
                    r.counts['read-only refused'] += 1
                    continue
                r.fail('refused/' + key, 'the form %r was refused: %s: %s' % (nm, type(e).__name__, e), case=(key, nm, model))
                continue
            r.close((key, nm, model), got, exp, rtol=1e-12, fkey='argument/' + key)
            same = before == v if isinstance(v, (list, tuple)) else np.array_equal(before, v) if isinstance(v, np.ndarray) else True
            if not same:
                r.fail('changed/' + key, 'the argument was changed', case=(key, nm, model))
    for nm, cc in (('c', c), ('integer c', ci)):
        nl = arrays(cc)
        run(nm + ' fint', lambda s, v: s.calc_fint(v), nl, cc)
        for f in ('uvw', 'strain', 'stress'):
            run(nm + ' ' + f, lambda s, v, f=f: (s.calc_kC(), getattr(s, f)(v, gridx=3, gridy=4)[1]), nl, cc)
        for f in ('calc_kC', 'calc_kG', 'calc_kT'):
            fm = arrays(cc, lists=False)
            run(nm + ' ' + f, lambda s, v, f=f: getattr(s, f)(c=v), fm, cc)
            if f != 'calc_kT':
                run(nm + ' nl ' + f, lambda s, v, f=f: getattr(s, f)(c=v, NLgeom=True), fm, cc)
    for f in ('uvw', 'strain', 'stress'):
        for pts, (x, y) in dict(grid=(XS, YS), line=(XS.ravel(), YS.ravel()), column=(XS.reshape(-1, 1), YS.reshape(-1, 1)), cube=(XS.reshape(1, 2, 3), YS.reshape(1, 2, 3)), ints=(np.array([0., 1., 2.]), np.array([0., 1., 1.]))).items():
            run('xs %s %s' % (f, pts), lambda s, v, f=f, y=y: (s.calc_kC(), getattr(s, f)(c, xs=v, ys=y.copy())[1]), arrays(x), x)
            run('ys %s %s' % (f, pts), lambda s, v, f=f, x=x: (s.calc_kC(), getattr(s, f)(c, xs=x.copy(), ys=v)[1]), arrays(y), y)
        for nm, v in dict(int=1, float64=np.float64(1.), int64=np.int64(1), array=np.array(1.), one=[1.], npone=np.array([1])).items():
            run('scalar %s' % f, lambda s, v, f=f: (s.calc_kC(), getattr(s, f)(c, xs=v, ys=v)[1]), {nm: v}, 1.)
    for f, call in {'calc_kC': lambda s, v: s.calc_kC(ABDnxny=v, nx=ng, ny=ng), 'calc_kC c': lambda s, v: s.calc_kC(c=c, ABDnxny=v, nx=ng, ny=ng),
                    'calc_kG': lambda s, v: s.calc_kG(c=c, ABDnxny=v, nx=ng, ny=ng), 'calc_fint': lambda s, v: s.calc_fint(c, ABDnxny=v, nx=ng, ny=ng)}.items():
        run('ABDnxny ' + f, call, arrays(full, lists=False), full)
        run('one ABD ' + f, call, dict(arrays(ABD, lists=False), everywhere=np.zeros((ng, ng, 6, 6)) + ABD), ABD)
    run('h_nxny', lambda s, v: s.calc_kM(h_nxny=v, rho_nxny=rho), arrays(h, lists=False), h)
    run('rho_nxny', lambda s, v: s.calc_kM(h_nxny=h, rho_nxny=v), arrays(rho, lists=False), rho)
    # scalars of the calls
    forms = lambda x: {'int': int(x), 'int64': np.int64(x), 'int32': np.int32(x)}
    for f in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA'):
        run('size ' + f, lambda s, v, f=f: getattr(s, f)(size=v, row0=6, col0=6), dict(forms(SIZE + 9), text='+9'), SIZE + 9)
        run('row0 ' + f, lambda s, v, f=f: getattr(s, f)(size=SIZE + 9, row0=v, col0=v), forms(6), 6)
        if f in ('calc_kC', 'calc_kG'):
            run('nx ' + f, lambda s, v, f=f: getattr(s, f)(c=c, nx=v, ny=v), forms(9), 9)
    for f in ('calc_fint', 'calc_fext'):
        call = lambda s, v, f=f: s.calc_fint(vec(SIZE + 9), size=v, col0=6) if f == 'calc_fint' else s.calc_fext(size=v, col0=6)
        run('size ' + f, call, dict(forms(SIZE + 9), text='+9'), SIZE + 9)
    run('inc', lambda s, v: s.calc_fext(inc=v), {'float64': np.float64(2.), 'int': 2, 'int64': np.int64(2), 'float32': np.float32(2.)}, 2.)
    run('NLgeom', lambda s, v: s.calc_kC(c=c, NLgeom=v), {'int': 1, 'np': np.bool_(True)}, True)
    run('NLgeom kG', lambda s, v: s.calc_kG(c=c, NLgeom=v), {'int': 1, 'np': np.bool_(True)}, True)
    for q in ('strain', 'stress'):
        run('NLgeom ' + q, lambda s, v, q=q: (s.calc_kC(), getattr(s, q)(c, gridx=3, gridy=3, NLgeom=v)[1]), {'int': 0, 'np': np.bool_(False)}, False)
        run('NLgeom1 ' + q, lambda s, v, q=q: (s.calc_kC(), getattr(s, q)(c, gridx=3, gridy=3, NLgeom=v)[1]), {'int': 1, 'np': np.bool_(True), 'int64': np.int64(1)}, True)
    for f in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_fext'):
        run('silent ' + f, lambda s, v, f=f: getattr(s, f)(silent=v), {'not': False, 'int': 1}, True)
    # loads
    for q in range(5):
        def call(s, v, q=q):
            z = [.5, .25, 3., -2., 4.]
            z = [1., 1., 3., -2., 4.]
            z[q] = v
            s.add_point_load(*z, cte=False)
            return s.calc_fext(inc=.5)
        x = [1., 1., 3., -2., 4.][q]
        run('add_point_load %d' % q, call, {'int': int(x), 'float64': np.float64(x), 'int64': np.int64(x), 'float32': np.float32(x), 'array': np.array(x)}, x)
    # everything integer, and a fraction of it
    def only(s, v):
        for k in ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc'):
            setattr(s, k, [])
        t, kind, cte = v
        z = [t(q) for q in (1, 0, 3, -5, 7)]
        if kind == 'load':
            s.add_point_load(*z, cte=cte)
            s.add_point_load(*[t(q) for q in (0, 1, 1, 0, 3)], cte=False)
        elif kind == 'pd':
            s.add_point_pd(*[t(q) for q in (1, 0, 3, 5, 7, 3, 1, -3)], cte=cte)
        else:
            getattr(s, 'add_distr_load_fixed_' + kind)(t(1), *[lambda q, i=i: t(i) for i in (3, -5, 7)], cte=cte)
        return s.calc_fext(inc=.375)
    for kind in ('load', 'pd', 'x', 'y'):
        for cte in (True, False):
            run('numbers of loads %s %s' % (kind, cte), only, {t.__name__: (t, kind, cte) for t in (int, np.int64, np.int32, np.float32, np.float64)}, (float, kind, cte))
    for ax in 'xy':
        fns = {'int': lambda t: 2, 'float64': lambda t: np.float64(2.), 'int64': lambda t: np.int64(2), 'array': lambda t: np.array(2.), 'poly': np.poly1d([0., 2.]), 'class': Two()}
        for q in 'xyz':
            run('add_distr_load_fixed_%s func%s' % (ax, q), lambda s, v, ax=ax, q=q: (getattr(s, 'add_distr_load_fixed_' + ax)(.5, **{'func' + q: v}), s.calc_fext())[1], fns, lambda t: 2.)
            run('add_distr_load_fixed_%s, zero functions, %s' % (ax, q), lambda s, v, ax=ax, q=q: (getattr(s, 'add_distr_load_fixed_' + ax)(.5, **v), s.calc_fext())[1],
                {'zeros': dict({'func' + z: lambda t: 0. for z in 'xyz'}, **{'func' + q: lambda t: 2.}), 'int zeros': dict({'func' + z: lambda t: 0 for z in 'xyz'}, **{'func' + q: lambda t: 2})}, {'func' + q: lambda t: 2.})
        run('position of a line load ' + ax, lambda s, v, ax=ax: (getattr(s, 'add_distr_load_fixed_' + ax)(v, funcz=lambda t: t), s.calc_fext())[1], {'int': 1, 'float64': np.float64(1.), 'int64': np.int64(1), 'zero-d': np.array(1.)}, 1.)
        run('line load at zero ' + ax, lambda s, v, ax=ax: (getattr(s, 'add_distr_load_fixed_' + ax)(v, funcz=lambda t: t), s.calc_fext())[1], {'int': 0, 'float64': np.float64(0.), 'minus': -0.}, 0.)
    # equivalent sets of loads
    def loads(s, v):
        for z in v:
            s.add_point_load(*z)
        return s.calc_fext(inc=.5)
    run('loads at one point', loads, {'sum': [(1., .5, 3., -1., 4.)], 'three': [(1., .5, 3., 0., 0.), (1., .5, 0., -1., 0.), (1., .5, 0., 0., 4.)], 'order': [(1., .5, 0., 0., 4.), (1., .5, 3., -1., 0.)],
                                      'with zeros': [(1., .5, 3., -1., 4.), (.2, .3, 0., 0., 0.)]}, [(1., .5, 1., 1., 4.), (1., .5, 2., -2., 0.)])

    def factors(s, v):
        for z, cte in v:
            s.add_point_load(1., .5, *z, cte=cte)
        return s.calc_fext(inc=.25)
    run('load factors', factors, {'both': [((0., 4., 0.), False), ((2., 0., 1.), True)], 'only constant': [((2., 1., 1.), True)], 'only incremented': [((8., 4., 4.), False)]}, [((2., 0., 1.), True), ((0., 4., 0.), False)])
    return r


class Two:
    def __call__(self, t):
        return 2.


def t_md(model):
    from panels.multidomain import MultiDomain
    r = R()

    def parts(ch={}):
        out = []
        for i, (m, n) in enumerate(((M, N), (3, 4), (5, 3))):
            d = dict(base(model), m=m, n=n)
            d.update(ch)
            p = build(d, 'attributes')
            p.group, p.x0, p.y0 = 'g', i*A, 0.
            out.append(p)
        con = [dict(p1=out[0], p2=out[1], func='SSxcte', xcte1=A, xcte2=0.), dict(p1=out[1], p2=out[2], func='SSycte', ycte1=B, ycte2=0.)]
        return out, con
    p, con = parts()
    size = MultiDomain(p, con).get_size()
    c = vec(size)
    O = {'kC': lambda a: a.calc_kC(silent=True), 'kG': lambda a: a.calc_kG(silent=True), 'kG c': lambda a: a.calc_kG(c=c, silent=True), 'kM': lambda a: a.calc_kM(silent=True), 'kT': lambda a: a.calc_kT(c=c, silent=True), 'fint': lambda a: a.calc_fint(c, silent=True),
         'fext': lambda a: a.calc_fext(silent=True), 'uvw': lambda a: lists(a.uvw(c, 'g', gridx=3, gridy=4)), 'strain': lambda a: lists(a.strain(c, 'g', gridx=3, gridy=4)), 'stress': lambda a: (a.calc_kC(silent=True), lists(a.stress(c, 'g', gridx=3, gridy=4)))[1],
         'gauss': lambda a: lists(a.uvw_gauss_points(c, 'g', np.array([.25, 1.]), np.array([.5, .75])))}
    exp = {o: numbers(copy.deepcopy(f(MultiDomain(*parts())))) for o, f in O.items()}
    forms = {
        'tuple': lambda p, k: MultiDomain(tuple(p), tuple(k)), 'keywords': lambda p, k: MultiDomain(conn=k, panels=p), 'connections afterwards': lambda p, k: later(MultiDomain(p), k),
        'ints': lambda p, k: MultiDomain(p, [dict(d, **{z: int(d[z]) for z in d if 'cte' in z and z != 'func'}) for d in k]),
        'float64': lambda p, k: MultiDomain(p, [dict(d, **{z: np.float64(d[z]) for z in d if 'cte' in z and z != 'func'}) for d in k]),
        'keys in another order': lambda p, k: MultiDomain(p, [dict(reversed(list(d.items()))) for d in k]), 'connections in another order': lambda p, k: MultiDomain(p, k[::-1]),
        'more keys': lambda p, k: MultiDomain(p, [dict(d, note='text') for d in k]),
        'copies of the dictionaries': lambda p, k: MultiDomain(p, [dict(d) for d in k]),
        'panels of other assemblies': lambda p, k: (MultiDomain(p[::-1], []).get_size(), MultiDomain(p, k))[1],
        'size asked first': lambda p, k: sized(MultiDomain(p, k)),
    }
    for nm, mk in forms.items():
        for o, f in O.items():
            r.transitions += 1
            try:
                got = numbers(copy.deepcopy(f(mk(*parts()))))
            except Exception as e:
                r.fail('refused/assembly %s' % nm, '%s: %s' % (type(e).__name__, e), case=(nm, o, model))
                continue
            r.close(('md', nm, o, model), got, exp[o], rtol=1e-12, fkey='assembly/%s' % o)
    # the connections of one call
    for nm, kk in dict(list=lambda k: k, tuple=tuple, copies=lambda k: [dict(d) for d in k]).items():
        p, k = parts()
        a = MultiDomain(p, [])
        r.close(('md conn', nm, model), numbers(a.calc_kC(conn=kk(k), silent=True)), exp['kC'], rtol=1e-12, fkey='assembly/conn argument')
    # every panel in another form
    V = variants(model)
    for nm in V:
        if any(z in nm for z in (' m', ' n', 'domain')) and 'model' not in nm:
            continue
        for o in ('kC', 'kT', 'kM', 'fint', 'fext', 'stress'):
            got = numbers(copy.deepcopy(O[o](MultiDomain(*parts(V[nm])))))
            r.close(('md panels', nm, o, model), got, exp[o], rtol=1e-7 if 'float32' in nm else 1e-9, fkey='assembly panels/%s' % o)
    # constants
    for nm, v in arrays(c, lists=False).items():
        for o, f in {'kC': lambda a, v: a.calc_kC(c=v, silent=True), 'kG': lambda a, v: a.calc_kG(c=v, silent=True), 'kT': lambda a, v: a.calc_kT(c=v, silent=True), 'fint': lambda a, v: a.calc_fint(v, silent=True),
                     'uvw': lambda a, v: lists(a.uvw(v, 'g', gridx=3, gridy=4)), 'strain': lambda a, v: lists(a.strain(v, 'g', gridx=3, gridy=4)), 'gauss': lambda a, v: lists(a.uvw_gauss_points(v, 'g', np.array([.25, 1.]), np.array([.5, .75])))}.items():
            e = numbers(copy.deepcopy(f(MultiDomain(*parts()), c)))
            try:
                got = numbers(copy.deepcopy(f(MultiDomain(*parts()), v)))
            except Exception as ex:
                if nm == 'read-only':
                    continue
                r.fail('refused/assembly c', '%s: %s' % (type(ex).__name__, ex), case=(nm, o, model))
                continue
            r.close(('md c', nm, o, model), got, e, rtol=1e-12, fkey='assembly c/%s' % o)
    return r


def lists(d):
    return {k: np.concatenate([np.ravel(z) for z in v]) for k, v in d.items() if len(v)}


def later(a, k):
    a.conn = k
    return a


def sized(a):
    a.get_size()
    return a


def bay(ch=None, st=None, per=None, order=None):
    from panels.stiffpanelbay import StiffPanelBay
    d = dict(a=2., b=1., m=5, n=4, stack=[17., -38., 61.], plyt=.0625, laminaprop=MATP, rho=2., model=C.PLATE, beta=2., gamma=1., aeromu=3., Nxx=None)
    d.pop('Nxx')
    d.update(ch or {})
    s = StiffPanelBay()
    for k, v in d.items():
        setattr(s, k, v)
    s.add_panel(**dict(dict(y1=0., y2=.25, Nxx=-2., Nyy=1.), **(per or {})))
    s.add_panel(**dict(dict(y1=.25, y2=1., Nxx=-2., Nyy=1.), **(per or {})))
    e = dict(ys=.25, rho=3., bb=.25, bstack=[5., 6.], bplyt=.125, blaminaprop=MATP, bf=.5, fstack=[0., 30.], fplyt=.03125, flaminaprop=MATP)
    e.update(st or {})
    s.add_bladestiff1d(**e)
    s.add_bladestiff2d(mf=4, nf=5, **e)
    s.add_bladestiff1d(**dict(e, ys=0 if order else 0.))
    return s


def t_bay():
    r = R()
    size = bay().get_size()
    c = vec(size)
    O = {'kC': lambda s: s.calc_kC(silent=True), 'kG': lambda s: s.calc_kG(silent=True), 'kM': lambda s: s.calc_kM(silent=True), 'kA': lambda s: s.calc_kA(silent=True), 'cA': lambda s: s.calc_cA(silent=True),
         'skin': lambda s: np.concatenate([np.ravel(z) for z in s.uvw_skin(c, gridx=4, gridy=3)]), 'flange': lambda s: np.concatenate([np.ravel(z) for z in s.uvw_stiffener(c, 1, gridx=4, gridy=3)])}
    exp = {o: np.ravel(dense(f(bay()))) for o, f in O.items()}
    F = {}
    for k, v in dict(a=2., b=1., rho=2., beta=2., gamma=1., aeromu=3.).items():
        for t in (int, np.float64, np.float32, np.int64):
            F['bay %s %s' % (k, t.__name__)] = dict(ch={k: t(v)})
    for k in ('m', 'n'):
        for t in (np.int64, np.int32):
            F['bay %s %s' % (k, t.__name__)] = dict(ch={k: t(5 if k == 'm' else 4)})
    F['bay tuple stack'] = dict(ch=dict(stack=(17., -38., 61.)))
    F['bay int stack'] = dict(ch=dict(stack=[17, -38, 61]))
    F['bay plyts'] = dict(ch=dict(plyt=None, plyts=[.0625]*3))
    F['bay laminaprops'] = dict(ch=dict(laminaprop=None, laminaprops=[MATP]*3))
    F['bay list laminaprop'] = dict(ch=dict(laminaprop=list(MATP)))
    F['strip stack'] = dict(ch=dict(stack=[1., 2.], plyt=.3), per=dict(stack=[17., -38., 61.], plyts=[.0625]*3))
    F['strip laminaprops'] = dict(per=dict(laminaprops=[MATP]*3))
    F['strip plyts tuple'] = dict(per=dict(plyts=(.0625,)*3))
    F['strip plyt over bay plyts'] = dict(ch=dict(plyts=[.3, .2, .1]), per=dict(plyt=.0625))
    F['strip plyts over bay plyts'] = dict(ch=dict(plyts=[.3, .2, .1]), per=dict(plyts=[.0625]*3))
    F['strip stack and plyt over bay plyts'] = dict(ch=dict(stack=[1., 2.], plyts=[.3, .2], plyt=None), per=dict(stack=[17., -38., 61.], plyt=.0625))
    F['strip laminaprop over bay laminaprops'] = dict(ch=dict(laminaprops=[C.MAT2]*3), per=dict(laminaprop=MATP))
    F['strip laminaprop over bay laminaprop'] = dict(ch=dict(laminaprop=C.MAT2), per=dict(laminaprop=MATP))
    F['strip rho over bay rho'] = dict(ch=dict(rho=9.), per=dict(rho=2.))
    F['strip Nxx int'] = dict(per=dict(Nxx=-2, Nyy=1))
    F['stiffener tuple stacks'] = dict(st=dict(bstack=(5., 6.), fstack=(0., 30.)))
    F['stiffener int stacks'] = dict(st=dict(bstack=[5, 6], fstack=[0, 30]))
    F['stiffener plyts'] = dict(st=dict(bplyt=None, bplyts=[.125]*2, fplyt=None, fplyts=[.03125]*2))
    F['stiffener plyts over plyt'] = dict(st=dict(bplyt=7., bplyts=[.125]*2, fplyt=8., fplyts=[.03125]*2))
    F['stiffener plyts tuple'] = dict(st=dict(bplyts=(.125,)*2, fplyts=(.03125,)*2))
    F['stiffener laminaprops'] = dict(st=dict(blaminaprop=None, blaminaprops=[MATP]*2, flaminaprop=None, flaminaprops=[MATP]*2))
    F['stiffener laminaprops tuple'] = dict(st=dict(blaminaprops=(MATP,)*2, flaminaprops=(MATP,)*2))
    F['stiffener laminaprop list'] = dict(st=dict(blaminaprop=list(MATP), flaminaprop=list(MATP)))
    for k, v in dict(rho=3., ys=.25, bb=.25, bf=.5).items():
        for t in (np.float64, np.float32) + ((int, np.int64) if v == int(v) else ()):
            F['stiffener %s %s' % (k, t.__name__)] = dict(st={k: t(v)})
    F['stiffener at 0'] = dict(order=True)
    for nm, kw in F.items():
        for o, f in O.items():
            r.transitions += 1
            try:
                got = np.ravel(dense(f(bay(**kw))))
            except Exception as e:
                r.fail('refused/bay %s' % nm, '%s: %s' % (type(e).__name__, e), case=(nm, o))
                continue
            r.close(('bay', nm, o), got, exp[o], rtol=1e-7 if 'float32' in nm else 1e-12, fkey='bay/%s' % o)
    for nm, v in arrays(c).items():
        for o, f in {'skin': lambda s, v: s.uvw_skin(v, gridx=3, gridy=3), 'flange': lambda s, v: s.uvw_stiffener(v, 1, gridx=3, gridy=3), 'skin points': lambda s, v: s.uvw_skin(v, xs=XS, ys=YS)}.items():
            e = np.concatenate([np.ravel(z) for z in f(bay(), c)])
            try:
                got = np.concatenate([np.ravel(z) for z in f(bay(), v)])
            except Exception as ex:
                if nm == 'read-only':
                    continue
                r.fail('refused/bay c', '%s: %s' % (type(ex).__name__, ex), case=(nm, o))
                continue
            r.close(('bay c', nm, o), got, e, rtol=1e-12, fkey='bay c/%s' % o)
    for nm, v in arrays(XS).items():
        for o, f in {'skin': lambda s, v: s.uvw_skin(c, xs=v, ys=YS), 'flange': lambda s, v: s.uvw_stiffener(c, 1, xs=v, ys=YS), 'skin ys': lambda s, v: s.uvw_skin(c, ys=v, xs=XS)}.items():
            e = np.concatenate([np.ravel(z) for z in f(bay(), XS)])
            got = np.concatenate([np.ravel(z) for z in f(bay(), v)])
            r.close(('bay points', nm, o), got, e, rtol=1e-12, fkey='bay points/%s' % o)
    return r


def jobs(tier, seed):
    out = []
    for model in C.MODELS:
        out += [('t_args', (model,)), ('t_md', (model,))]
        names = list(variants(model))
        for k in range(6):
            out.append(('t_def', (model, names[k::6], False)))
        if tier == 'thorough':
            for k in range(40):
                out.append(('t_def', (model, names[k::40], True)))
    out.append(('t_bay', ()))
    return out
