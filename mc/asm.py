"""Independent assembly model: panels placed one after the other, connections as
mismatch energies (used by the checks of multi-domain assemblies)"""
import numpy as np
import ref

NG = 40


def offsets(panels):
    o, out = 0, []
    for p in panels:
        out.append(o)
        o += 3*p.m*p.n
    return out, o


def thickness(p):
    return sum(p.plyts) if p.plyts else p.plyt*len(p.stack)


def penalties(kind, p1, A1, p2, A2):
    """strain compatibility constants (docstring of calc_kt_kr); A: ABD of the panels"""
    H = thickness(p1) + thickness(p2)
    i1, i2 = {'xcte': (0, 0), 'ycte': (1, 1), 'xcte-ycte': (0, 1), 'ycte-xcte': (1, 0), 'bot-top': (0, 0)}[kind]
    a1, a2 = A1[i1, i1], A2[i2, i2]
    d1, d2 = A1[3 + i1, 3 + i1], A2[3 + i2, 3 + i2]
    kt = 4*a1*a2/((a1 + a2)*H)
    kr = 4*d1*d2/((d1 + d2)*H)
    if kind == 'bot-top':
        return kt/min(p1.a, p1.b), None
    return kt, kr


def mismatch(func, g1, g2, pos1=None, pos2=None, dsb=0.):
    """[(which constant, weights, rows of panel 1, rows of panel 2)]; the mismatch is rows1*c1 + rows2*c2.
    Corresponding points have the same relative position; the length (area) is that of panel 1."""
    p, w = ref.gauss(NG)
    t = (p + 1)/2
    if func in ('SB', 'SB_TSL'):
        q, wq = ref.gauss(NG//2 + 1)
        s = (q + 1)/2
        X, Y = [z.ravel() for z in np.meshgrid(s, s, indexing='ij')]
        W = np.outer(wq, wq).ravel()*g1.a*g1.b/4
        r1 = lambda k: g1.rows(X*g1.a, Y*g1.b, k)
        r2 = lambda k: g2.rows(X*g2.a, Y*g2.b, k)
        return [('t', W, r1('u') + dsb*r1('wx'), -r2('u')), ('t', W, r1('v') + dsb*r1('wy'), -r2('v')), ('t', W, r1('w'), -r2('w'))]
    if func.endswith('xcte'):
        W = w*g1.b/2
        r1 = lambda k: g1.rows(np.full(NG, pos1), t*g1.b, k)
        r2 = lambda k: g2.rows(np.full(NG, pos2), t*g2.b, k)
        n = 'wx'
    else:
        W = w*g1.a/2
        r1 = lambda k: g1.rows(t*g1.a, np.full(NG, pos1), k)
        r2 = lambda k: g2.rows(t*g2.a, np.full(NG, pos2), k)
        n = 'wy'
    if func.startswith('SS'):
        pr = [(1, 'u', -1, 'u'), (1, 'v', -1, 'v'), (1, 'w', -1, 'w')]
    elif func == 'BFycte':
        pr = [(1, 'u', -1, 'u'), (1, 'v', -1, 'w'), (1, 'w', 1, 'v')]
    elif func == 'BFxcte':
        pr = [(1, 'u', -1, 'w'), (1, 'v', -1, 'v'), (1, 'w', 1, 'u')]
    out = [('t', W, a*r1(f), b*r2(h)) for a, f, b, h in pr]
    out.append(('r', W, r1(n), -r2(n)))
    return out


def conn_matrix(panels, abds, conn, absolute=False):
    """connection stiffness of the assembly"""
    off, size = offsets(panels)
    K = np.zeros((size, size))
    for c in conn:
        i1 = [k for k, p in enumerate(panels) if p is c['p1']][0]
        i2 = [k for k, p in enumerate(panels) if p is c['p2']][0]
        p1, p2 = panels[i1], panels[i2]
        f = c['func']
        dsb = 0.
        if f == 'SB':
            kt, kr = penalties('bot-top', p1, abds[i1], p2, abds[i2])
            dsb = (thickness(p1) + thickness(p2))/2
        elif f == 'SB_TSL':
            kt, kr = 1e4/(p1.a*p1.b), None
            dsb = (thickness(p1) + thickness(p2))/2
        else:
            kt, kr = penalties(f[2:], p1, abds[i1], p2, abds[i2])
        e = f[2:]
        g1, g2 = ref.Geo.of(p1), ref.Geo.of(p2)
        for kk, W, R1, R2 in mismatch(f, g1, g2, c.get(e + '1'), c.get(e + '2'), dsb):
            D = np.zeros((W.size, size))
            if absolute:
                R1, R2 = abs(R1), abs(R2)
            D[:, off[i1]:off[i1] + g1.size] += R1
            D[:, off[i2]:off[i2] + g2.size] += R2
            K += (kt if kk == 't' else kr)*(D*W[:, None]).T@D
    return K
