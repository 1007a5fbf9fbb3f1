"""Connection stiffness = penalty energy of the mismatch"""
import itertools
import numpy as np
import asm
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of connection kinds x orders of the two panels in the assembly (with a third panel before, between or after) x positions incl. both edges and '
        'interior lines x boundary flags (24 single flags on either panel, distinct values on both) x series sizes of both panels x dimensions x models x '
        'laminates; penalty constants of all laminate pairs; lists of connections; all entries; non-trivial: reference not zero')
FUNCS = ('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB', 'SB_TSL')
RAD = {C.PLATE: None, C.CYL: 0.9}
POS = [0., 0.23, 0.5, 0.81, 1.]


def jobs(tier, seed):
    out = []
    for f in FUNCS:
        out += [('positions', (f,)), ('flags', (f, 0)), ('flags', (f, 1)), ('shapes', (f, 0)), ('shapes', (f, 1)), ('orders', (f,)), ('models', (f,))]
    out += [('lists', (0,)), ('constants', (0,)), ('blocks', (0,))]
    if tier != 'quick':
        out += [('shapes', (f, k)) for f in FUNCS for k in range(2, 10)]
    return out


def pair(f, sh1=(3, 4), sh2=(4, 3), g=(1.3, 0.7), g2=None, fl1=None, fl2=None, lam1=5, lam2=8, mod1=C.PLATE, mod2=C.PLATE):
    L = C.laminates()
    if g2 is None:
        # the common line (or area) has the same length; the other dimension differs
        g2 = g if f.startswith('SB') else ((g[0]*1.6, g[1]) if f.endswith('xcte') else (g[0], g[1]*1.6))
    p1 = C.shell(mod1, *g, *sh1, r=RAD[mod1], lam=L[lam1], flags=fl1 or C.flags_distinct())
    p2 = C.shell(mod2, *g2, *sh2, r=RAD[mod2], lam=L[lam2], flags=fl2 or C.flags_distinct(7))
    return p1, p2


def conn(f, p1, p2, q1=1., q2=0.):
    d = dict(p1=p1, p2=p2, func=f)
    if f == 'SB_TSL':
        d['tsl_type'] = 'linear'
    elif f != 'SB':
        e = f[2:]
        L1, L2 = (p1.a, p2.a) if e == 'xcte' else (p1.b, p2.b)
        d[e + '1'], d[e + '2'] = q1*L1, q2*L2
    return d


def abd(p):
    return C.lam_abd(p.stack, p.plyts, p.laminaprops, p.offset)


def cmp(r, key, panels, cn, fkey, **kw):
    from panels.multidomain import MultiDomain
    before = [dict(c) for c in cn]
    md = MultiDomain(panels)
    K = dense(md.get_kC_conn(conn=cn))
    ab = [abd(p) for p in panels]
    E = asm.conn_matrix(panels, ab, cn)
    S = asm.conn_matrix(panels, ab, cn, True)
    r.close(key, K, E, S + 1e-5*S.max() + 1e-300, 1e-9, fkey=fkey)
    if not np.array_equal(K, K.T):
        r.fail(fkey, 'not symmetric', case=key)
    for c, b in zip(cn, before):
        if list(c) != list(b) or any(c[k] is not b[k] for k in b):
            r.fail('given-connection-changed/' + c['func'], 'the given connection was modified', case=key)


def lines(f):
    return [(0., 0.)] if f.startswith('SB') else list(itertools.product(POS, POS))


def positions(f):
    r = R()
    for g in ((1.3, 0.7), (0.6, 1.9)):
        for q1, q2 in lines(f):
            p1, p2 = pair(f, g=g)
            cmp(r, (f, g, q1, q2), [p1, p2], [conn(f, p1, p2, q1, q2)], 'positions/' + f)
    return r


def flags(f, which):
    r = R()
    for fn, fl in C.all_flagsets():
        for q1, q2 in ((1., 0.), (.3, .6)) if not f.startswith('SB') else ((0, 0),):
            for other in (C.flags_distinct(3), C.flags_const(1)):
                p1, p2 = pair(f, (5, 4), (4, 5), fl1=other if which else fl, fl2=fl if which else other)
                cmp(r, (f, fn, which, q1, q2, other['x1u']), [p1, p2], [conn(f, p1, p2, q1, q2)], 'flags/%s/%s' % (f, fn))
    return r


def shapes(f, part):
    r = R()
    if part < 2:
        S = [(1, 1), (2, 3), (3, 2), (1, 5), (5, 1), (4, 4)]
        P = [q for k, q in enumerate(itertools.product(S, S)) if k % 2 == part]
    else:
        S = list(itertools.product(range(1, 6), range(1, 6)))
        P = [q for k, q in enumerate(itertools.product(S, S)) if k % 8 == part - 2]
    for s1, s2 in P:
        p1, p2 = pair(f, s1, s2)
        cmp(r, (f, s1, s2), [p1, p2], [conn(f, p1, p2, .8, .3)], 'shapes/' + f)
    if part < 2:
        for s1, s2 in (((9, 2), (2, 9)), ((12, 1), (3, 11)), ((2, 8), (8, 2))):
            p1, p2 = pair(f, s1, s2)
            cmp(r, (f, s1, s2), [p1, p2], [conn(f, p1, p2, .8, .3)], 'shapes/' + f)
    return r


def orders(f):
    """every order of the two panels and a third one, and every choice of the two connected"""
    r = R()
    for perm in itertools.permutations(range(3)):
        for i, j in itertools.permutations(range(3), 2):
            p1, p2 = pair(f, (2, 3), (3, 2))
            p3, _ = pair(f, (3, 1), fl1=C.flags_distinct(2), lam1=11)
            if f == 'SB_TSL' or f == 'SB':
                pass
            elif f.endswith('xcte'):
                p3.a = 2.1
            else:
                p3.b = 2.3
            pp = [p1, p2, p3]
            cmp(r, (f, perm, i, j), [pp[k] for k in perm], [conn(f, pp[i], pp[j], .9, .2)], 'orders/' + f)
    return r


def models(f):
    r = R()
    for m1, m2 in itertools.product(C.MODELS, repeat=2):
        for g in ((1.3, .7), (.6, 1.9)):
            p1, p2 = pair(f, g=g, mod1=m1, mod2=m2)
            cmp(r, (f, m1, m2, g), [p1, p2], [conn(f, p1, p2, 1., 0.)], 'models/' + f)
    for k in range(2):
        # a panel connected to itself (closed shell)
        if f.startswith('SS'):
            p1, p2 = pair(f, (4, 3), (3, 3), mod1=C.CYL)
            cmp(r, (f, 'self', k), [p1, p2][::1 - 2*k], [conn(f, p1, p1, 0., 1.)], 'self/' + f)
    return r


def lists(_):
    """lists of connections add up, whatever their order; a connection given twice counts twice"""
    r = R()
    L = C.laminates()
    P = [C.shell(C.PLATE, 1.1, .8, 2 + k, 4 - k, lam=L[3*k + 1], flags=C.flags_distinct(4*k)) for k in range(3)]
    menu = [conn('SSxcte', P[0], P[1], 1., 0.), conn('SSycte', P[1], P[0], 0., 1.), conn('BFycte', P[0], P[2], .5, 0.), conn('BFxcte', P[2], P[1], .5, 1.),
            conn('SB', P[0], P[2]), conn('SB_TSL', P[2], P[1])]
    for n in (1, 2, 3):
        for seq in itertools.product(range(len(menu)), repeat=n):
            if n == 3 and len(set(seq)) < 3:
                continue
            cmp(r, ('list', seq), P, [menu[k] for k in seq], 'lists/%d' % n)
    return r


def constants(_):
    from panels.multidomain import connections as cn
    r = R()
    L = C.laminates()
    for i, j in itertools.product(range(24), repeat=2):
        p1, p2 = pair('SSxcte', lam1=i, lam2=j)
        A1, A2 = abd(p1), abd(p2)
        for kind in ('xcte', 'ycte', 'xcte-ycte', 'ycte-xcte', 'bot-top', 'XCTE'):
            kt, kr = cn.calc_kt_kr(p1, p2, kind)
            et, er = asm.penalties(kind.lower(), p1, A1, p2, A2)
            if kind == 'bot-top':
                if kr is not None:
                    r.fail('constants/bot-top', 'kr %r instead of None' % kr)
                kr = er = 0.
            r.close((i, j, kind), np.array([kt, kr]), np.array([et, er]), np.array([et, er or 1.]), 1e-11, fkey='constants/' + kind.lower())
    # dimensions matter only where documented
    for g in ((1.3, .7), (.7, 1.3), (2., 2.)):
        for g2 in ((.4, .9), (3., .2)):
            p1, p2 = pair('SSxcte', g=g, g2=g2)
            for kind in ('xcte', 'ycte', 'bot-top'):
                kt, kr = cn.calc_kt_kr(p1, p2, kind)
                et, er = asm.penalties(kind, p1, abd(p1), p2, abd(p2))
                r.close((g, g2, kind), np.array([kt, kr or 0.]), np.array([et, er or 0.]), None, 1e-11, fkey='constants/dims')
    return r


def blocks(_):
    """the three blocks of each kind with given constants, at any place of a larger matrix"""
    from panels.multidomain import connections as cn
    r = R()
    for f in ('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB'):
        for kt, kr in ((1., 0.), (0.01, 1.), (2.3, 5.7)):
            for q1, q2 in ((1., 0.), (.4, .7)):
                for r1, r2, ex in ((0, 36, 0), (40, 2, 3), (5, 50, 1)):
                    p1, p2 = pair(f)
                    g1, g2 = ref.Geo.of(p1), ref.Geo.of(p2)
                    size = max(r1 + g1.size, r2 + g2.size) + ex
                    d = conn(f, p1, p2, q1, q2)
                    x1, x2 = d.get(f[2:] + '1'), d.get(f[2:] + '2')
                    dsb = .37
                    mod = getattr(cn, 'kC' + f)
                    if f == 'SB':
                        K11 = mod.fkCSB11(kt, dsb, p1, size, r1, r1)
                        K12 = mod.fkCSB12(kt, dsb, p1, p2, size, r1, r2)
                        K22 = mod.fkCSB22(kt, p1, p2, size, r2, r2)
                    else:
                        K11 = getattr(mod, 'fkC%s11' % f)(kt, kr, p1, x1, size, r1, r1)
                        K12 = getattr(mod, 'fkC%s12' % f)(kt, kr, p1, p2, x1, x2, size, r1, r2)
                        K22 = getattr(mod, 'fkC%s22' % f)(kt, kr, p1, p2, x2, size, r2, r2)
                    E = [np.zeros((size, size)) for _ in range(3)]
                    S = [np.zeros((size, size)) for _ in range(3)]
                    for kk, W, R1, R2 in asm.mismatch(f, g1, g2, x1, x2, dsb):
                        k = kt if kk == 't' else kr
                        for T, (A, ra), (B, rb) in ((0, (R1, r1), (R1, r1)), (1, (R1, r1), (R2, r2)), (2, (R2, r2), (R2, r2))):
                            E[T][ra:ra + A.shape[1], rb:rb + B.shape[1]] += k*(A*W[:, None]).T@B
                            S[T][ra:ra + A.shape[1], rb:rb + B.shape[1]] += max(kt, kr)*(abs(A)*W[:, None]).T@abs(B)
                    for T, K in enumerate((K11, K12, K22)):
                        K = dense(K)
                        if T != 1:
                            K = np.triu(K) + np.triu(K, 1).T
                        r.close((f, kt, kr, q1, q2, r1, r2, T), K, E[T], S[T] + 1e-5*S[T].max() + 1e-300, 1e-9, fkey='blocks/%s/%d' % (f, T))
    return r
