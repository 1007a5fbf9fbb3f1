"""Results of a stiffened bay do not depend on its history"""
import os
import numpy as np
import common as C
from explore import Explorer
from harness import R, dense

LEVEL = 'model_checking'
RULE = ('breadth-first search over sequences of changes to strips, stiffeners, flanges, loads and air flow, of stiffeners added and of calculations, on real bays from '
        'several initial definitions; states are hashes of the complete internal state; every calculation of every sequence compared with a fresh bay '
        'of the same definition in a pristine process; non-trivial: distinct expected results')
# attribute: first, second; p: strip, s: beam stiffener, t: stiffener with panel flange, f: its flange
ATTR = {'p0.stack': ((25., -10.), (70., 5.)), 'p1.plyts': ((.05, .08), (.11, .04)), 'p0.offset': (0., .03), 'p1.Nxx': (.4, 1.3), 'p0.Nyy_cte': (0., .5), 'p1.rho': (1.1, 2.),
        'p1.laminaprops': ((C.MAT, C.MAT2), (C.MAT2, C.MAT)), 'p0.plyt': (.06, .09), 's.Fx': (None, .7), 's.bf': (.14, .2), 's.fstack': ((10., 40.), (-30., 0.)), 's.fplyts': ((.02, .03), (.05, .01)),
        's.bstack': ((15., 70.), (45., 20.)), 's.bplyts': ((.03, .02), (.01, .06)), 's.bb': (.1, .16), 's.rho': (2.1, 3.), 'f.Nxx': (0., .9), 'f.stack': ((10., 60.), (0., 33.)),
        'f.x1u': (0., 1.), 'f.m': (2, 3), 'f.rho': (2.2, 1.), 'bay.flow': ('x', 'y'), 'bay.Mach': (1.5, 2.2), 'bay.V': (1.4, 1.1), 'bay.beta': (None, .6), 'bay.gamma': (None, .2), 'bay.aeromu': (None, .3),
        'bay.rho_air': (.5, .8), 'bay.speed_sound': (1.2, None)}
ADD = {'1f': dict(ys=0., rho=1.7, bf=.12, fstack=[35.], fplyts=[.04], flaminaprops=[C.MAT]),
       '2f': dict(ys=.9, rho=1.9, bf=.17, fstack=[50., 5.], fplyt=.03, flaminaprop=C.MAT2, mf=2, nf=2),
       '1b': dict(ys=.4, bb=.12, bstack=[5.], bplyt=.05, blaminaprop=C.MAT),
       '2b': dict(ys=.4, bb=.14, bstack=[5., 20.], bplyts=[.05, .03], blaminaprops=[C.MAT, C.MAT2])}


class Bays:
    tag = ''
    raw = ()
    changed = None

    def __init__(self):
        self.sets = {}
        for k, (v1, v2) in ATTR.items():
            self.sets['set ' + k] = lambda d, k=k, v1=v1, v2=v2: dict(d, **{k: v1 if d[k] == v2 else v2})
        for k in ADD:
            self.sets['add ' + k] = lambda d, k=k: None if len(d['added']) > 1 else dict(d, added=d['added'] + (k,))
        self.sets['force skin'] = lambda d: None if d['fs'] > 1 else dict(d, fs=d['fs'] + 1)
        self.sets['force flange'] = lambda d: None if d['ff'] > 1 else dict(d, ff=d['ff'] + 1)
        self.calcs = ['kC', 'kG', 'kG c', 'kM', 'kA', 'cA', 'fext', 'skin', 'flange', 'beam', 'wrong c', 'size', 'save', 'twin', 'strip 0', 'flange panel']

    def initials(self):
        first = dict({k: v[0] for k, v in ATTR.items()}, added=(), fs=0, ff=1, model=C.CYL)
        mixed = dict({k: v[i % 2] for i, (k, v) in enumerate(ATTR.items())}, added=('2f',), fs=1, ff=0, model=C.PLATE)
        return dict(first=first, mixed=mixed)

    def warm(self):
        import panels.stiffpanelbay  # noqa

    def make(self, d):
        from panels.stiffpanelbay import StiffPanelBay
        y = StiffPanelBay()
        y.name = 'bay'
        y.a, y.b, y.m, y.n, y.model = 1.3, .9, 3, 2, d['model']
        y.r = .8 if d['model'] == C.CYL else None
        y.rho, y.out_num_cores = 1.3, 1
        y.x1u, y.y2v, y.y1u = 1., 1., .5
        y.laminaprop, y.stack, y.plyt = C.MAT, [1., 2.], .06
        y.add_panel(0., .4, stack=list(d['p0.stack']), plyt=d['p0.plyt'])
        y.add_panel(.4, .9, stack=[65., 20.], plyts=list(d['p1.plyts']), laminaprops=list(d['p1.laminaprops']), Nxy=.3)
        y.add_bladestiff1d(.4, bb=d['s.bb'], bf=d['s.bf'], bstack=list(d['s.bstack']), bplyts=list(d['s.bplyts']), blaminaprop=C.MAT2,
                           fstack=list(d['s.fstack']), fplyts=list(d['s.fplyts']), flaminaprop=C.MAT)
        y.add_bladestiff2d(.4, bb=.11, bf=.15, bstack=[33.], bplyt=.04, blaminaprop=C.MAT, fstack=list(d['f.stack']), fplyt=.03, flaminaprop=C.MAT2, mf=2, nf=3)
        for k in ATTR:
            self._set(y, k, d[k])
        for k in d['added']:
            self._add(y, k)
        for i in range(d['fs']):
            self._force(y, i)
        for i in range(d['ff']):
            self._ff(y, i)
        return y

    def _add(self, y, k):
        getattr(y, 'add_bladestiff%sd' % k[0])(**{q: list(v) if isinstance(v, list) else v for q, v in ADD[k].items()})

    def _force(self, y, i):
        y.forces_skin.append([.2 + i, .1, 1., -2., .5 - i])

    def _ff(self, y, i):
        y.bladestiff2ds[0].forces_flange.append([.5 + .3*i, .02, 1., 2., -3.])

    def _obj(self, y, o):
        return {'p0': y.panels[0], 'p1': y.panels[1], 's': y.bladestiff1ds[0], 'f': y.bladestiff2ds[0].flange, 'bay': y}[o]

    def _set(self, y, k, v):
        o, a = k.split('.')
        setattr(self._obj(y, o), a, list(v) if isinstance(v, tuple) else v)

    def apply_set(self, y, op, d, d2):
        kind, k = op.split(' ')
        if kind == 'set':
            self._set(y, k, d2[k])
        elif kind == 'add':
            self._add(y, k)
        elif k == 'skin':
            self._force(y, d['fs'])
        else:
            self._ff(y, d['ff'])

    def blame(self, h):
        return next((o for o in reversed(h[:-1]) if o in self.sets), 'calculations').replace(' ', '-')

    def allowed(self, d, op):
        return {'kG c': ('NotImplementedError',), 'beam': ('RuntimeError',), 'wrong c': ('ValueError',)}.get(op, ('',))

    def intact(self, y, d):
        if self.changed:
            return self.changed
        for k in ATTR:
            o, a = k.split('.')
            cur = getattr(self._obj(y, o), a)
            if isinstance(d[k], tuple):
                ok = list(cur) == list(d[k])
            else:
                ok = cur == d[k] and type(cur) is type(d[k])
            if not ok:
                return '%s is %r, the user gave %r' % (k, cur, d[k])
        n = len(y.stiffeners), len(y.bladestiff1ds), len(y.bladestiff2ds), len(y.panels), len(y.forces_skin)
        e = 2 + len(d['added']), 1 + sum(k[0] == '1' for k in d['added']), 1 + sum(k[0] == '2' for k in d['added']), 2, d['fs']
        return None if n == e else 'stiffeners, strips or forces: %r instead of %r' % (n, e)

    def apply_calc(self, y, op, d):
        self.changed = None
        size = 18 + 3*d['f.m']*3 + 12*sum(k == '2f' for k in d['added'])
        c = C.vec(size, 1, .1)
        X, Y = np.array([[.1, .4, 1.2], [.2, 0., 1.1]]), np.array([[.05, .1, .12], [.02, .06, 0.]])
        try:
            if op in ('kC', 'kG', 'kM', 'kA', 'cA'):
                K = getattr(y, 'calc_' + op)(silent=True)
            elif op == 'strip 0':
                # a strip on its own
                p = y.panels[0]
                p.calc_kM()
                K = p.calc_kC()
            elif op == 'flange panel':
                p = y.bladestiff2ds[0].flange
                p.calc_kG()
                K = p.calc_kC()
            elif op == 'kG c':
                K = y.calc_kG(silent=True, c=c)
            elif op == 'fext':
                f = y.calc_fext(silent=True)
                self.raw = [f]
                return [np.array(f)]
            elif op in ('skin', 'flange', 'beam'):
                res = y.uvw_skin(c, xs=X, ys=Y) if op == 'skin' else y.uvw_stiffener(c, 1 if op == 'flange' else 0, xs=X, ys=Y)
                self.raw = list(res)
                return [np.array(a) for a in res]
            elif op == 'wrong c':
                y.uvw_skin(np.zeros(5), xs=X, ys=Y)
                return []
            elif op == 'size':
                return [np.array(y.get_size())]
            elif op == 'save':
                y.name = os.path.join(os.environ['VERIF_SCRATCH'], 'c22_%d' % os.getpid())
                y.save()
                y.name = 'bay'
                return []
            elif op == 'twin':
                # another bay with the lists of this one
                from panels.stiffpanelbay import StiffPanelBay
                t = StiffPanelBay()
                t.a, t.b, t.m, t.n, t.model, t.r, t.rho = 2., 3., 2, 2, d['model'], 1.9, 5.
                t.add_panel(0., 3., stack=y.panels[0].stack, plyts=y.panels[1].plyts, laminaprops=y.panels[1].laminaprops)
                t.add_bladestiff2d(0., bf=.3, fstack=y.bladestiff1ds[0].fstack, fplyts=y.bladestiff1ds[0].fplyts, flaminaprop=C.MAT, mf=2, nf=2)
                t.forces_skin.append([0., 1., 1., 1., 1.])
                t.bladestiff2ds[0].forces_flange.append([0., .1, 1., 1., 1.])
                t.calc_kC(silent=True)
                t.calc_kM(silent=True)
                t.calc_fext(silent=True)
                return []
            self.raw = [K.data]
            return [dense(K)]
        finally:
            if not np.array_equal(c, C.vec(size, 1, .1)):
                self.changed = 'the given displacement vector was changed by ' + op
            if not np.array_equal(X, [[.1, .4, 1.2], [.2, 0., 1.1]]) or not np.array_equal(Y, [[.05, .1, .12], [.02, .06, 0.]]):
                self.changed = 'the given points were changed by ' + op


def jobs(tier, seed):
    s = Bays()
    out = []
    for init in ('first', 'mixed'):
        for op in list(s.sets) + s.calcs:
            out.append(('seqs', (init, op, 3 if tier == 'quick' else 4)))
    return out


def seqs(init, op, depth):
    r = R()
    s = Bays()
    x = Explorer(s)
    if op in s.sets and s.sets[op](s.initials()[init]) is None:
        return r
    x.search(r, init, (op,), depth)
    return r
