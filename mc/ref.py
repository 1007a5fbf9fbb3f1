"""Independent reference model of the semi-analytical shell (numpy only).

Nothing here is taken from the repository's generated formulas: the basis is
defined through Legendre polynomials (Bardell's hierarchical set: four cubic
Hermite functions scaled by the edge flags, then double integrals of Legendre
polynomials), strains are written once as linear operators, and every matrix
is the second variation of an energy, evaluated with a high-order Gauss rule
from numpy.
"""
import functools
import numpy as np
from numpy.polynomial import legendre as L
from numpy.polynomial import polynomial as P

NMAX = 30
FIELDS = ('u', 'v', 'w')
FLAGNAMES = [e + f + s for e in ('x1', 'x2', 'y1', 'y2') for f in FIELDS for s in ('', 'r')]


@functools.lru_cache(maxsize=None)
def leg_coefs(i):
    """Legendre-series coefficients of Bardell function i (0-based), flags 1.

    The four cubics are the Hermite interpolants with the scaling of the
    documentation: value 1 at an edge, slope 1/2 at an edge (in xi).
    """
    if i == 0:
        p = [0.5, -0.75, 0., 0.25]
    elif i == 1:
        p = [0.125, -0.125, -0.125, 0.125]
    elif i == 2:
        p = [0.5, 0.75, 0., -0.25]
    elif i == 3:
        p = [-0.125, -0.125, 0.125, 0.125]
    else:
        k = i - 2
        c = np.zeros(k + 3)
        # double antiderivative of P_k vanishing with its slope at +-1
        c[k + 2] = 1./((2*k + 1)*(2*k + 3))
        c[k] = -2./((2*k - 1)*(2*k + 3))
        c[k - 2] = 1./((2*k - 1)*(2*k + 1))
        return c
    return L.poly2leg(p)


def flagvec(t1, r1, t2, r2):
    s = np.ones(NMAX)
    s[0], s[1], s[2], s[3] = t1, r1, t2, r2
    return s


def basis_raw(n, xi, d=0):
    """(npts, n) array of the d-th derivatives of the unflagged functions."""
    xi = np.asarray(xi, dtype=float)
    out = np.empty(xi.shape + (n,))
    for i in range(n):
        c = leg_coefs(i)
        if d:
            if i >= 4 and d == 2:
                c = np.zeros(i - 1)
                c[i - 2] = 1.
            elif i >= 4 and d == 1:
                k = i - 2
                c = np.zeros(k + 2)
                c[k + 1] = 1./(2*k + 1)
                c[k - 1] = -1./(2*k + 1)
            else:
                c = L.legder(c, d)
        out[..., i] = L.legval(xi, c)
    return out


@functools.lru_cache(maxsize=None)
def gauss(n):
    return L.leggauss(n)


class Geo:
    """Plain record describing one shell for the reference."""

    def __init__(self, a, b, m, n, r=0., flags=None, x=None, y=None):
        self.a, self.b, self.m, self.n = float(a), float(b), int(m), int(n)
        self.r = 0. if r is None else float(r)
        self.flags = dict(flags)
        self.x = (0., self.a) if x is None else x
        self.y = (0., self.b) if y is None else y
        self.size = 3*self.m*self.n

    @classmethod
    def of(cls, s, partial=False):
        x = y = None
        if partial:
            if s.x1 != -1 and s.x2 != -1:
                x = (s.x1, s.x2)
            if s.y1 != -1 and s.y2 != -1:
                y = (s.y1, s.y2)
        return cls(s.a, s.b, s.m, s.n, s.r, {f: getattr(s, f) for f in FLAGNAMES}, x, y)

    def _fl(self, ax, fld):
        g = self.flags
        return flagvec(g[ax + '1' + fld], g[ax + '1' + fld + 'r'],
                       g[ax + '2' + fld], g[ax + '2' + fld + 'r'])

    def rows(self, x, y, what):
        """(npts, size) operator rows: what in u v w ux uy vx vy wx wy wxx wyy wxy"""
        fld, dx, dy = what[0], what.count('x'), what.count('y')
        x = np.asarray(x, float)
        y = np.asarray(y, float)
        X = basis_raw(self.m, 2*x/self.a - 1, dx)*self._fl('x', fld)[:self.m]*(2/self.a)**dx
        Y = basis_raw(self.n, 2*y/self.b - 1, dy)*self._fl('y', fld)[:self.n]*(2/self.b)**dy
        out = np.zeros((x.size, self.size))
        pr = (Y[:, :, None]*X[:, None, :]).reshape(x.size, -1)
        out[:, 'uvw'.index(fld)::3] = pr
        return out

    def grid(self, nx, ny):
        px, wx = gauss(nx)
        py, wy = gauss(ny)
        x = self.x[0] + (px + 1)/2*(self.x[1] - self.x[0])
        y = self.y[0] + (py + 1)/2*(self.y[1] - self.y[0])
        X, Y = np.meshgrid(x, y, indexing='ij')
        W = np.outer(wx, wy)*(self.x[1] - self.x[0])*(self.y[1] - self.y[0])/4
        return X.ravel(), Y.ravel(), W.ravel()

    def ops(self, x, y):
        g = {k: self.rows(x, y, k) for k in ('u', 'v', 'w', 'ux', 'uy', 'vx', 'vy', 'wx', 'wy',
                                             'wxx', 'wyy', 'wxy')}
        Bl = np.zeros((6,) + g['u'].shape)
        Bl[0] = g['ux']
        Bl[1] = g['vy']
        if self.r != 0.:
            Bl[1] = Bl[1] + g['w']/self.r
        Bl[2] = g['uy'] + g['vx']
        Bl[3] = -g['wxx']
        Bl[4] = -g['wyy']
        Bl[5] = -2*g['wxy']
        g['B'] = Bl
        return g


def npts_exact(m, nl=False):
    """Gauss points integrating products of 2 (4 when nl) basis functions exactly"""
    deg = max(3, m)  # basis index m-1 has degree m-1 (>=3)
    return 2*deg + 3 if nl else deg + 2


class Ref:
    """All energy matrices of one shell at its (own or given) quadrature."""

    def __init__(self, geo, nx=None, ny=None):
        self.g = geo
        self.nx = nx or npts_exact(geo.m, True)
        self.ny = ny or npts_exact(geo.n, True)
        self.x, self.y, self.W = geo.grid(self.nx, self.ny)
        self.o = geo.ops(self.x, self.y)

    def _abd(self, ABD):
        """ABD: (6,6) or (nx, ny, 6, 6) -> (npts,6,6)"""
        ABD = np.asarray(ABD, float)
        if ABD.ndim == 2:
            return np.broadcast_to(ABD, (self.W.size, 6, 6))
        return ABD.reshape(self.W.size, 6, 6)

    def _bnl(self, c, NL):
        B = self.o['B']
        if not NL:
            return B
        wx, wy = self.o['wx']@c, self.o['wy']@c
        B = B.copy()
        B[0] += wx[:, None]*self.o['wx']
        B[1] += wy[:, None]*self.o['wy']
        B[2] += wx[:, None]*self.o['wy'] + wy[:, None]*self.o['wx']
        return B

    def strain(self, c, NL, kappa=1.):
        e = np.einsum('spi,i->ps', self.o['B'], c)
        if NL:
            wx, wy = self.o['wx']@c, self.o['wy']@c
            e = e.copy()
            e[:, 0] += 0.5*wx**2
            e[:, 1] += 0.5*wy**2
            e[:, 2] += kappa*wx*wy
        return e

    def kC(self, ABD, c=None, NL=False):
        B = self._bnl(c, NL) if NL else self.o['B']
        D = self._abd(ABD)
        S = np.einsum('pst,tpi->spi', D*self.W[:, None, None], B)
        return np.einsum('spi,spj->ij', B, S, optimize=True)

    def kC_scale(self, ABD, c=None, NL=False):
        B = abs(self._bnl(c, NL) if NL else self.o['B'])
        D = abs(self._abd(ABD))
        S = np.einsum('pst,tpi->spi', D*self.W[:, None, None], B)
        return np.einsum('spi,spj->ij', B, S, optimize=True)

    def resultants(self, ABD, c, NL, kappa=1.):
        return np.einsum('pst,pt->ps', self._abd(ABD), self.strain(c, NL, kappa))

    def kG(self, N):
        """N: (npts,3) or (3,) membrane stress resultants"""
        N = np.broadcast_to(np.asarray(N, float), (self.W.size, 3))
        wx, wy = self.o['wx'], self.o['wy']
        Nx, Ny, Nxy = (N*self.W[:, None]).T
        C = np.einsum('pi,p,pj->ij', wx, Nxy, wy, optimize=True)
        return ((wx*Nx[:, None]).T@wx + (wy*Ny[:, None]).T@wy + C + C.T)

    def kG_scale(self, N):
        N = abs(np.broadcast_to(np.asarray(N, float), (self.W.size, 3)))
        wx, wy = abs(self.o['wx']), abs(self.o['wy'])
        Nx, Ny, Nxy = (N*self.W[:, None]).T
        C = np.einsum('pi,p,pj->ij', wx, Nxy, wy, optimize=True)
        return ((wx*Nx[:, None]).T@wx + (wy*Ny[:, None]).T@wy + C + C.T)

    def kM(self, I0, I1, I2, scale=False):
        """kinetic energy of u - z w,x ; v - z w,y ; w with moments I0,I1,I2 of rho"""
        W = self.W
        o = {k: (abs(v) if scale else v) for k, v in self.o.items()}
        def q(A, f, B):
            f = np.broadcast_to(np.asarray(f, float), W.shape)
            if scale:
                f = abs(f)
            return (A*(W*f)[:, None]).T@B
        K = q(o['u'], I0, o['u']) + q(o['v'], I0, o['v']) + q(o['w'], I0, o['w'])
        K = K + q(o['wx'], I2, o['wx']) + q(o['wy'], I2, o['wy'])
        s = 1. if scale else -1.
        C = q(o['u'], I1, o['wx']) + q(o['v'], I1, o['wy'])
        return K + s*(C + C.T)

    def fint(self, ABD, c, NL=True, kappa=1.):
        B = self._bnl(c, NL)
        N = self.resultants(ABD, c, NL, kappa)
        return np.einsum('spi,ps->i', B, N*self.W[:, None], optimize=True)

    def fint_scale(self, ABD, c, NL=True):
        B = abs(self._bnl(c, NL))
        e = np.einsum('spi,i->ps', abs(self.o['B']), abs(c))
        if NL:
            wx, wy = abs(self.o['wx'])@abs(c), abs(self.o['wy'])@abs(c)
            e[:, 0] += .5*wx**2
            e[:, 1] += .5*wy**2
            e[:, 2] += wx*wy
        N = np.einsum('pst,pt->ps', abs(self._abd(ABD)), e)
        return np.einsum('spi,ps->i', B, N*self.W[:, None], optimize=True)

    def energy(self, ABD, c, NL=True):
        e = self.strain(c, NL)
        return 0.5*np.einsum('ps,pst,pt,p->', e, self._abd(ABD), e, self.W)

    def q(self, A, B, f=1.):
        """int f A B over the domain, A and B operator names"""
        W = self.W*np.broadcast_to(np.asarray(f, float), self.W.shape)
        return (self.o[A]*W[:, None]).T@self.o[B]
