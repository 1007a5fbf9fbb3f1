"""Shells, laminates, flags and geometries enumerated by the checks"""
import itertools
import numpy as np

import ref
from ref import FLAGNAMES

PLATE = 'plate_clpt_donnell_bardell'
CYL = 'cylshell_clpt_donnell_bardell'
MODELS = (PLATE, CYL)

# nondimensional lamina, every constant different
MAT = (14.3, 1.1, 0.29, 0.71, 0.53, 0.37)
MAT2 = (7.7, 2.3, 0.23, 0.91, 0.61, 0.41)


def flags_distinct(k=0):
    """every flag different and none 0 or 1"""
    v = [0.31, 0.83, 1.27, 0.59, 1.71, 0.43, 0.97, 1.39, 0.67, 1.13, 0.37, 1.51,
         0.71, 1.91, 0.53, 1.19, 0.89, 1.61, 0.47, 1.07, 0.79, 1.33, 0.61, 1.81]
    v = v[k:] + v[:k]
    if k:
        v = [x*(1 + 0.01*i) for i, x in enumerate(v)]
    return dict(zip(FLAGNAMES, v))


def flags_const(x):
    return {f: float(x) for f in FLAGNAMES}


def flags_single(i):
    d = flags_const(0)
    d[FLAGNAMES[i]] = 1.
    return d


def flags_default():
    return {f: 1. if f.endswith('r') else 0. for f in FLAGNAMES}


def all_flagsets(full=True):
    out = [('distinct', flags_distinct()), ('ones', flags_const(1)), ('zeros', flags_const(0)), ('default', flags_default())]
    if full:
        out += [('distinct5', flags_distinct(5)), ('distinct11', flags_distinct(11))]
        out += [('only_' + FLAGNAMES[i], flags_single(i)) for i in range(24)]
    return out


def laminates():
    """(stack, plyts, laminaprops, offset): 24 laminates, the ABD matrices of
    which span the 18-dimensional space of the symmetric A, B and D"""
    out = []
    angs = [0., 17., -38., 61., 90., 45., -72., 8.]
    for i in range(24):
        k = 1 + i % 3
        st = [angs[(i*5 + 3*j) % 8] + 2.*i for j in range(k)]
        pl = [0.021 + 0.013*((i*7 + j*4) % 5) for j in range(k)]
        ms = [MAT if (i + j) % 2 else MAT2 for j in range(k)]
        out.append((st, pl, ms, [0., 0.03, -0.05, 0.011][(i // 3) % 4]))
    return out


def sym18(M):
    iu = np.triu_indices(3)
    return np.concatenate((M[:3, :3][iu], M[:3, 3:][iu], M[3:, 3:][iu]))


def abd_units():
    """the 18 unit symmetric ABD matrices"""
    out = []
    for blk in range(3):
        for i in range(3):
            for j in range(i, 3):
                M = np.zeros((6, 6))
                r0, c0 = ((0, 0), (0, 3), (3, 3))[blk]
                M[r0 + i, c0 + j] = M[r0 + j, c0 + i] = 1.
                M = np.maximum(M, M.T)
                out.append(M)
    return out


def shell(model, a, b, m, n, r=None, lam=None, flags=None, **kw):
    from panels import Shell
    st, pl, ms, off = lam if lam is not None else laminates()[4]
    s = Shell(a=a, b=b, m=m, n=n, r=r, stack=list(st), offset=off, model=model)
    s.plyts = list(pl)
    s.laminaprops = list(ms)
    s.rho = 1.7
    s.out_num_cores = 1
    for k, v in (flags if flags is not None else flags_distinct()).items():
        setattr(s, k, v)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def lam_abd(stack, plyts, props, offset):
    """classical laminate theory, independent of the library's"""
    h = sum(plyts)
    z = -h/2. + offset
    A = np.zeros((3, 3)); B = np.zeros((3, 3)); D = np.zeros((3, 3))
    for th, t, p in zip(stack, plyts, props):
        e1, e2, nu12, g12 = p[:4]
        nu21 = nu12*e2/e1
        q = 1 - nu12*nu21
        Q = np.array([[e1/q, nu12*e2/q, 0], [nu12*e2/q, e2/q, 0], [0, 0, g12]])
        c, s = np.cos(np.radians(th)), np.sin(np.radians(th))
        T = np.array([[c*c, s*s, 2*c*s], [s*s, c*c, -2*c*s], [-c*s, c*s, c*c - s*s]])
        Rr = np.diag([1., 1., 2.])
        Qb = np.linalg.inv(T)@Q@Rr@T@np.linalg.inv(Rr)
        z2 = z + t
        A += Qb*(z2 - z)
        B += Qb*(z2**2 - z**2)/2
        D += Qb*(z2**3 - z**3)/3
        z = z2
    return np.block([[A, B], [B, D]])


def vec(n, k=0, scale=1.):
    """deterministic generic vector"""
    i = np.arange(1, n + 1)
    return scale*np.sin(1.3*i + 0.7*k + 0.2*np.cos(2.1*i*(k + 1)))


def embed(K, size, r0):
    out = np.zeros((size, size), dtype=K.dtype)
    out[r0:r0 + K.shape[0], r0:r0 + K.shape[0]] = K
    return out
