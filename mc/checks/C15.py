"""Results of an assembly do not depend on its history"""
import numpy as np
import common as C
from explore import Explorer
from harness import R, dense

LEVEL = 'model_checking'
RULE = ('breadth-first search over sequences of changes to panels, panel order, connections and loads, of use of the panels elsewhere, of failing calls and of calculations, '
        'on real assemblies of three or four panels from several initial definitions; states are hashes of the complete internal state; every calculation of every '
        'sequence compared with a fresh assembly of the same definition in a pristine process; non-trivial: distinct expected results')
# (panel, attribute): first, second
ATTR = {'0.m': (2, 3), '1.n': (3, 2), '2.m': (3, 1), '0.stack': ((30., -45.), (70.,)), '1.plyt': (.1, .17), '2.laminaprop': (C.MAT, C.MAT2), '0.a': (1.1, 1.3), '1.b': (.6, .9),
        '2.offset': (0., .06), '1.r': (.9, .7), '0.x1u': (0., 1.), '2.y2wr': (1., .3), '1.Nxx': (0., 1.4), '2.Nyy_cte': (0., .5), '0.rho': (1.2, 1.9), '1.group': ('s', 't'),
        '1.model': (C.CYL, C.PLATE)}
ORDERS = ((0, 1, 2), (2, 0, 1), (3, 1, 2, 0), (1, 2, 0))
CONNS = ('A', 'B', 'E', None)
LOADS = {'pl': lambda P: P[1].add_point_load(.3, .2, 1., 2., 3.), 'pli': lambda P: P[2].add_point_load(.3, .2, -1., .2, 2., cte=False)}
COMP = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'), stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))
LOADLISTS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc')


class Bundle:
    """what the user holds"""


def conn_def(name, edit):
    """(p1, p2, func, positions) of the connections in the list"""
    if name is None:
        return None
    out = dict(A=[(0, 1, 'SSxcte', dict(xcte1=1., xcte2=.1)), (1, 2, 'BFycte', dict(ycte1=.5, ycte2=0.))],
               B=[(1, 0, 'SSycte', dict(ycte1=.05, ycte2=.4)), (0, 1, 'SB', {})], E=[], bad=[(0, 1, 'nothing', {})])[name]
    if edit == 'moved' and out:
        k = sorted(out[0][3])[0] if out[0][3] else None
        if k:
            out[0][3][k] += .2
    if edit == 'popped':
        out = out[:-1]
    return out


def conn_list(name, edit, P):
    c = conn_def(name, edit)
    return None if c is None else [dict(p1=P[i], p2=P[j], func=f, **kw) for i, j, f, kw in c]


class Assembly:
    tag = ''
    raw = ()
    changed = None

    def __init__(self):
        self.sets = {}
        for k, (v1, v2) in ATTR.items():
            self.sets['set ' + k] = lambda d, k=k, v1=v1, v2=v2: dict(d, **{k: v1 if d[k] == v2 else v2})
        for i, o in enumerate(ORDERS):
            self.sets['order %d' % i] = lambda d, o=o: None if d['order'] == o else dict(d, order=o)
        self.sets['swap'] = lambda d: dict(d, order=d['order'][1:] + d['order'][:1])
        for c in CONNS:
            self.sets['conn %s' % c] = lambda d, c=c: None if (d['conn'], d['edit']) == (c, '') else dict(d, conn=c, edit='')
        self.sets['move'] = lambda d: None if d['edit'] or d['conn'] not in ('A', 'B') else dict(d, edit='moved')
        self.sets['pop'] = lambda d: None if d['edit'] or d['conn'] not in ('A', 'B') else dict(d, edit='popped')
        for k in LOADS:
            self.sets['load ' + k] = lambda d, k=k: None if k in d['loads'] else dict(d, loads=d['loads'] + (k,))
        self.sets['clear loads'] = lambda d: None if not d['loads'] else dict(d, loads=())
        self.calcs = ['kC', 'kC c', 'kC conn A', 'kC conn B', 'get conn', 'get conn B', 'get conn upper', 'kG', 'kG c', 'kM', 'kT', 'fint', 'fext', 'fext inc', 'uvw s', 'uvw t', 'strain s',
                      'stress s', 'gauss', 'size', 'wrong c', 'other', 'panel 1', 'panel 2']

    def after(self, op, d):
        """a connection list given to a call is kept for later calls"""
        if op in ('kC conn A', 'kC conn B', 'get conn B'):
            return dict(d, conn=op[-1], edit='')
        return d

    def initials(self):
        first = {k: v[0] for k, v in ATTR.items()}
        mixed = {k: v[i % 2] for i, (k, v) in enumerate(ATTR.items())}
        first.update(order=(0, 1, 2), conn='A', edit='', loads=())
        mixed.update(order=(1, 2, 0), conn='B', edit='', loads=('pli',))
        none = dict(first, conn=None, order=(2, 1, 0))
        return dict(first=first, mixed=mixed, none=none)

    def warm(self):
        import panels.multidomain, panels.multidomain.connections, scipy.sparse  # noqa

    def make(self, d):
        from panels import Shell
        from panels.multidomain import MultiDomain
        u = Bundle()
        u.P = []
        for i in range(4):
            s = Shell(a=1.1, b=.6, r=None, stack=[20., -35. + i], plyt=.1, laminaprop=C.MAT, rho=1.2 + i, m=2, n=2, offset=0.)
            s.model = C.PLATE if i != 1 else C.CYL
            s.r = .8
            s.group = 's' if i < 2 else 't'
            s.nx, s.ny, s.out_num_cores = 6, 7, 1
            s.x1w = s.y2v = s.x2vr = 1.
            u.P.append(s)
        for k in ATTR:
            i, a = k.split('.')
            setattr(u.P[int(i)], a, list(d[k]) if a == 'stack' else d[k])
        for k in d['loads']:
            LOADS[k](u.P)
        u.conn = conn_list(d['conn'], d['edit'], u.P)
        u.list = [u.P[i] for i in d['order']]
        u.md = MultiDomain(u.list, u.conn)
        u.md.out_num_cores = 1
        return u

    def apply_set(self, u, op, d, d2):
        kind, _, k = op.partition(' ')
        if kind == 'set':
            i, a = k.split('.')
            setattr(u.P[int(i)], a, list(d2[k]) if a == 'stack' else d2[k])
        elif kind == 'order':
            u.list = [u.P[i] for i in d2['order']]
            u.md.panels = u.list
        elif kind == 'swap':
            u.list.append(u.list.pop(0))
        elif kind == 'conn':
            u.conn = u.md.conn = conn_list(d2['conn'], '', u.P)
        elif kind == 'move':
            e = u.conn[0]
            k = sorted(q for q in e if 'cte' in q)[0]
            e[k] += .2
        elif kind == 'pop':
            u.conn.pop()
        elif kind == 'load':
            LOADS[k](u.P)
        elif kind == 'clear':
            for p in u.P:
                for n in LOADLISTS:
                    setattr(p, n, [])

    def blame(self, h):
        return next((o for o in reversed(h[:-1]) if o in self.sets), 'calculations').replace(' ', '-')

    def allowed(self, d, op):
        if d['conn'] is None and op in ('kC', 'kC c', 'kT', 'fint', 'get conn', 'get conn upper'):
            return None
        return ('ValueError',) if op == 'wrong c' else ('',)

    def intact(self, u, d):
        if self.changed:
            return self.changed
        for k in ATTR:
            i, a = k.split('.')
            cur = getattr(u.P[int(i)], a)
            if a == 'stack':
                cur = tuple(cur)
            if cur != d[k] or type(cur) is not type(d[k]):
                return 'panel %s %s is %r, the user gave %r' % (i, a, cur, d[k])
        if u.md.panels is not u.list or [u.P.index(p) for p in u.list] != list(d['order']):
            return 'the list of panels was changed'
        e = conn_def(d['conn'], d['edit'])
        if e is None:
            return 'connections were added' if u.md.conn is not None else None
        if u.md.conn is not u.conn or len(u.conn) != len(e):
            return 'the connection list was changed'
        for (i, j, f, kw), g in zip(e, u.conn):
            if dict(p1=i, p2=j, func=f, **kw) != dict(g, p1=u.P.index(g['p1']), p2=u.P.index(g['p2'])):
                return 'connection %r was changed to %r' % ((i, j, f, kw), {q: v for q, v in g.items() if q not in ('p1', 'p2')})
        return None

    def apply_calc(self, u, op, d):
        self.changed = None
        md = u.md
        size = sum(3*d.get('%d.m' % i, 2)*d.get('%d.n' % i, 2) for i in d['order'])
        c = C.vec(size, 1, .05)
        c0 = c.copy()
        nm = op.split(' ')[0]
        try:
            if op in ('kC conn A', 'kC conn B', 'get conn B'):
                u.conn = conn_list(op[-1], '', u.P)
                K = md.calc_kC(conn=u.conn, silent=True) if nm == 'kC' else md.get_kC_conn(conn=u.conn)
            elif op in ('kC', 'kG', 'kM'):
                K = getattr(md, 'calc_' + op)(silent=True)
            elif op in ('kC c', 'kG c', 'kT'):
                K = getattr(md, 'calc_' + nm)(c=c, silent=True)
            elif op == 'get conn':
                K = md.get_kC_conn()
            elif op == 'get conn upper':
                K = md.get_kC_conn(finalize=False)
            elif nm in ('fint', 'fext'):
                f = md.calc_fint(c, silent=True) if nm == 'fint' else md.calc_fext(silent=True) if op == 'fext' else md.calc_fext(inc=.37, silent=True)
                self.raw = [f]
                return [np.array(f)]
            elif nm in COMP:
                res = getattr(md, nm)(c, op[-1], gridx=3, gridy=2)
                self.raw = [a for q in ('x', 'y') + COMP[nm] for a in res[q]]
                return [np.array(a) for a in self.raw]
            elif op == 'gauss':
                res = md.stress_gauss_points(c, 't', None, np.array([.1, .2]))
                self.raw = [a for q in ('x', 'y') + COMP['stress'] for a in res[q]]
                return [np.array(a) for a in self.raw]
            elif op == 'size':
                return [np.array(md.get_size())]
            elif op == 'wrong c':
                md.calc_kC(c=np.zeros(5), silent=True)
                return []
            elif op == 'other':
                # the same panels in another assembly
                from panels.multidomain import MultiDomain
                o = MultiDomain([u.P[2], u.P[1]], conn_list('A', '', u.P)[1:])
                o.calc_kC(silent=True)
                o.calc_fext(silent=True)
                return []
            elif nm == 'panel':
                p = u.P[int(op[-1])]
                K = p.calc_kC()
            self.raw = [K.data]
            return [dense(K)]
        finally:
            if not np.array_equal(c, c0):
                self.changed = 'the given displacement vector was changed by ' + op


def jobs(tier, seed):
    s = Assembly()
    out = []
    for init in ('first', 'mixed', 'none'):
        for op in list(s.sets) + s.calcs:
            out.append(('seqs', (init, op, 3 if tier == 'quick' or init == 'none' else 4)))
    return out


def seqs(init, op, depth):
    r = R()
    s = Assembly()
    x = Explorer(s)
    if op in s.sets and s.sets[op](s.initials()[init]) is None:
        return r
    x.search(r, init, (op,), depth)
    return r
