"""Results of a shell do not depend on its history"""
import os
import numpy as np
import common as C
from explore import Explorer
from harness import R, dense

LEVEL = 'model_checking'
RULE = ('breadth-first search over sequences of attribute changes, in-place changes of given lists, loads, failing calls and calculations on real shells, from '
        'several initial definitions; states are hashes of the complete internal state; every calculation of every sequence compared with a fresh shell of the '
        'same definition in a pristine process; non-trivial: distinct expected results')
L2 = [C.MAT, C.MAT2]
# attribute: (first value, second value)
ATTR = dict(a=(1.1, 1.4), b=(.8, .6), r=(None, .9), m=(3, 2), n=(2, 3), stack=((30., -45.), (70., 10.)), plyt=(.1, .13), plyts=(None, (.12, .05)),
            laminaprop=(C.MAT, C.MAT2), laminaprops=(None, tuple(L2)), rho=(1.2, 2.1), rhos=(None, (1., 3.)), offset=(0., .07),
            force_orthotropic_laminate=(False, True), model=(None, C.CYL), x1u=(0., 1.), x2w=(0., .6), y2wr=(1., .4), y1v=(0., 1.), Nxx=(0., 1.3), Nxy=(0., .4), Nyy_cte=(0., -.6),
            nx=(8, 9), ny=(8, 10), part_x=((-1, 1), (.2, .9)), part_y=((-1, 1), (.1, .5)), beta=(None, .7), gamma=(None, .3), Mach=(1.5, 1.2), V=(2., 3.), flow=('x', 'y'))
BAD = dict(m=31, plyt=None, flow='z', stack=(), Mach=.5)
LISTS = ('stack', 'plyts', 'laminaprops', 'rhos')
LOADS = {'pl': lambda s: s.add_point_load(.3, .2, 1., 2., 3.), 'pli': lambda s: s.add_point_load(.5, .1, -1., .5, 2., cte=False),
         'dl': lambda s: s.add_distr_load_fixed_x(.4, lambda y: y, None, lambda y: 1.), 'dli': lambda s: s.add_distr_load_fixed_y(.2, None, lambda x: x, None, cte=False),
         'pd': lambda s: s.add_point_pd(.2, .3, 1., .1, 2., .2, 3., .3), 'ddi': lambda s: s.add_distr_pd_fixed_x(.7, None, None, 2., None, None, lambda y: y, cte=False)}
LOADLISTS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc')
COMP = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'), stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))


def val(k, v):
    if k == 'stack' or k in LISTS and v is not None:
        return list(v)
    return v


class Shells:
    tag = ''
    raw = ()
    changed = None

    def __init__(self):
        self.sets = {}
        for k, (v1, v2) in ATTR.items():
            self.sets['set ' + k] = lambda d, k=k, v1=v1, v2=v2: dict(d, **{k: v1 if d[k] == v2 else v2})
        for k, v in BAD.items():
            self.sets['bad ' + k] = lambda d, k=k, v=v: None if d[k] == v else dict(d, **{k: v})
        for k, v in (('stack', -33.), ('plyts', .21), ('laminaprops', C.MAT2), ('rhos', 5.)):
            # in place, in the list that the user gave
            self.sets['mutate ' + k] = lambda d, k=k, v=v: None if not d[k] or d[k][0] == v else dict(d, **{k: (v,) + tuple(d[k][1:])})
        for k in LOADS:
            self.sets['load ' + k] = lambda d, k=k: None if len(d['loads']) > 2 else dict(d, loads=d['loads'] + (k,))
        self.sets['clear loads'] = lambda d: None if not d['loads'] else dict(d, loads=())
        self.calcs = ['kC', 'kC c', 'kC abd', 'kC cte', 'kC NL', 'kC emb', 'kC upper', 'kG', 'kG c', 'kG NL', 'kT', 'kM', 'kM h', 'kA', 'cA', 'fext', 'fext inc', 'fint', 'fint abd',
                      'uvw', 'strain', 'stress', 'size', 'constraint', 'wrong c', 'save', 'twin', 'kt_kr']

    def initials(self):
        first = {k: v[0] for k, v in ATTR.items()}
        second = {k: v[1] for k, v in ATTR.items()}
        mixed = {k: v[i % 2] for i, (k, v) in enumerate(ATTR.items())}
        mixed2 = {k: v[(i + 1) % 2] for i, (k, v) in enumerate(ATTR.items())}
        out = dict(first=first, second=second, mixed=mixed, mixed2=mixed2)
        for k in out:
            out[k]['loads'] = () if k == 'first' else ('pl', 'dli')
        out['mixed']['model'] = None
        return out

    def warm(self):
        import panels, panels.multidomain.connections, scipy.sparse  # noqa

    def make(self, d):
        from panels import Shell
        s = Shell(a=d['a'], b=d['b'], r=d['r'], stack=val('stack', d['stack']), plyt=d['plyt'], laminaprop=d['laminaprop'], rho=d['rho'],
                  m=d['m'], n=d['n'], offset=d['offset'])
        s.out_num_cores = 1
        s.rho_air, s.speed_sound = .3, 1.1
        for k in ATTR:
            self._set(s, k, d[k])
        for k in d['loads']:
            LOADS[k](s)
        return s

    def _set(self, s, k, v):
        if k == 'part_x':
            s.x1, s.x2 = v
        elif k == 'part_y':
            s.y1, s.y2 = v
        else:
            setattr(s, k, val(k, v))

    def apply_set(self, s, op, d, d2):
        kind, k = op.split(' ')
        if kind in ('set', 'bad'):
            self._set(s, k, d2[k])
        elif kind == 'mutate':
            getattr(s, k)[0] = d2[k][0]
        elif kind == 'load':
            LOADS[k](s)
        elif kind == 'clear':
            for n in LOADLISTS:
                setattr(s, n, [])

    def blame(self, h):
        """the last change before the calculation that differs"""
        return next((o for o in reversed(h[:-1]) if o in self.sets), 'calculations').replace(' ', '-')

    def allowed(self, d, op):
        # a cylindrical shell without a radius is no shell
        if any(d[k] == v for k, v in BAD.items()) or d['model'] == C.CYL and not d['r']:
            return None
        return ('ValueError',) if op == 'wrong c' else ('',)

    def intact(self, s, d):
        if self.changed:
            return self.changed
        for k in ATTR:
            if k in ('part_x', 'part_y'):
                cur = (s.x1, s.x2) if k == 'part_x' else (s.y1, s.y2)
            else:
                cur = getattr(s, k)
            v = d[k]
            if k == 'r' and v is None:
                ok = cur is None or cur == 0
            elif v is None and k in ('plyts', 'laminaprops', 'rhos', 'model'):
                ok = True
            elif k in ('nx', 'ny'):
                ok = cur == max(v, d['m' if k == 'nx' else 'n']) or cur == v
            elif k in LISTS and v is not None:
                ok = list(cur) == list(v)
            else:
                ok = type(cur) is type(v) and cur == v
            if not ok:
                return '%s is %r, the user gave %r' % (k, cur, v)
        n = sum(len(getattr(s, q)) for q in LOADLISTS)
        if n != len(d['loads']):
            return '%d loads instead of %d' % (n, len(d['loads']))
        return None

    def apply_calc(self, s, op, d):
        self.changed = None
        size = 3*d['m']*d['n'] if d['m'] < 30 else 18
        c = C.vec(size, 1, .1)
        given = [c]
        X, Y = np.array([[.1, .4, .9], [.2, 0., 1.1]]), np.array([[.05, .3, .5], [.2, .6, 0.]])
        nx, ny = 6, 7
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
        fld = 1. + .1*i + .05*j
        nm = op.split(' ')[0]
        try:
            if op in ('kC', 'kG', 'kM', 'kA'):
                K = getattr(s, 'calc_' + op)()
            elif op in ('kC c', 'kG c', 'kT'):
                K = getattr(s, 'calc_' + nm)(c=c)
            elif op in ('kC NL', 'kG NL'):
                K = getattr(s, 'calc_' + nm)(c=c, NLgeom=True)
            elif op == 'kC abd':
                F = fld[..., None, None]*np.diag([3., 2., 1., .3, .2, .1])
                given.append(F)
                K = s.calc_kC(ABDnxny=F, nx=nx, ny=ny)
            elif op == 'kC cte':
                K = s.calc_kC(c_cte=c)
            elif op == 'kC emb':
                K = s.calc_kC(size=size + 7, row0=4, col0=4)
            elif op == 'kC upper':
                K = s.calc_kC(finalize=False)
            elif op == 'kM h':
                given.append(fld)
                K = s.calc_kM(h_nxny=fld, rho_nxny=fld, nx=nx, ny=ny)
            elif op == 'cA':
                K = s.calc_cA(.8)
            elif op == 'constraint':
                K = s.calc_stiffness_point_constraint(.2, .3, phix=True)
            elif op in ('fext', 'fext inc'):
                f = s.calc_fext() if op == 'fext' else s.calc_fext(inc=.37)
                self.raw = [f]
                return [np.array(f)]
            elif op in ('fint', 'fint abd'):
                kw = {}
                if op != 'fint':
                    F = fld[..., None, None]*np.diag([3., 2., 1., .3, .2, .1])
                    given.append(F)
                    kw = dict(ABDnxny=F, nx=nx, ny=ny)
                f = np.asarray(s.calc_fint(c, **kw))
                self.raw = [f]
                return [np.array(f)]
            elif op in COMP:
                given += [X, Y]
                pm, f = getattr(s, op)(c, xs=X, ys=Y)
                self.raw = [pm['Xs'], pm['Ys']] + [f[q] for q in COMP[op]]
                return [np.array(q) for q in self.raw]
            elif op == 'size':
                return [np.array(s.get_size())]
            elif op == 'wrong c':
                s.calc_kC(c=np.zeros(5))
                return []
            elif op == 'save':
                s.name = os.path.join(os.environ['VERIF_SCRATCH'], 'c14_%d' % os.getpid())
                if not d['loads'] or not set(d['loads']) & {'dl', 'dli', 'ddi'}:
                    s.save()
                else:
                    s._clear_matrices()
                s.name = 'shell'
                return []
            elif op == 'twin':
                # another shell that shares the lists the user gave
                from panels import Shell
                t = Shell(a=2., b=2.2, r=5., stack=s.stack, plyt=.3, laminaprop=C.MAT2, rho=3., m=2, n=2, offset=.2)
                t.plyts, t.laminaprops = s.plyts, s.laminaprops
                t.Nxx, t.Nxx_cte, t.out_num_cores = 3., 1., 1
                t.x1w = t.y1u = 1.
                t.add_point_load(1., 1., 1., 1., 1.)
                t.add_point_load(1., 1., 1., 1., 1., cte=False)
                t.add_point_pd(1., 1., 1., 1., 1., 1., 1., 1.)
                t.add_point_pd(1., 1., 1., 1., 1., 1., 1., 1., cte=False)
                for q in ('x', 'y'):
                    getattr(t, 'add_distr_load_fixed_' + q)(1., lambda z: 1.)
                    getattr(t, 'add_distr_load_fixed_' + q)(1., lambda z: 1., cte=False)
                    getattr(t, 'add_distr_pd_fixed_' + q)(1., 1., None, None, lambda z: 1.)
                    getattr(t, 'add_distr_pd_fixed_' + q)(1., 1., None, None, lambda z: 1., cte=False)
                t.calc_kC(c_cte=C.vec(12))
                t.calc_kM()
                t.calc_fext()
                t.uvw(C.vec(12), gridx=3, gridy=3)
                return []
            elif op == 'kt_kr':
                from panels.multidomain import connections
                return [np.array(connections.calc_kt_kr(s, s, 'xcte')), np.array(connections.calc_kt_kr(s, s, 'ycte'))]
            out = dense(K)
            self.raw = [K.data] if hasattr(K, 'tocsr') else [K]
            return [np.array(out)]
        finally:
            if not np.array_equal(c, C.vec(size, 1, .1)):
                self.changed = 'the given displacement vector was changed by ' + op
            if not np.array_equal(X, [[.1, .4, .9], [.2, 0., 1.1]]) or not np.array_equal(Y, [[.05, .3, .5], [.2, .6, 0.]]):
                self.changed = 'the given points were changed by ' + op
            if not np.array_equal(fld, 1. + .1*i + .05*j):
                self.changed = 'the given field was changed by ' + op


def jobs(tier, seed):
    s = Shells()
    out = []
    for init in ('first', 'mixed') if tier == 'quick' else ('first', 'second', 'mixed', 'mixed2'):
        for op in list(s.sets) + s.calcs:
            out.append(('seqs', (init, op, 3 if tier == 'quick' or init in ('second', 'mixed2') else 4)))
    return out


def seqs(init, op, depth):
    r = R()
    s = Shells()
    x = Explorer(s)
    if op in s.sets and s.sets[op](s.initials()[init]) is None:
        return r
    x.search(r, init, (op,), depth)
    return r
