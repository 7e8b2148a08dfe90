"""
Reference implementations, written from the definitions with plain numpy and
independent of the code under test.
"""
import numpy as np

MODELS = {
    # pars without shape/size-specific differences: cen1 cen2 g1 g2 T flux
    'gauss': 1, 'turb': 3, 'exp': 6, 'dev': 10,
}


class Jac(object):
    """affine map"""

    def __init__(self, row0, col0, dvdrow, dvdcol, dudrow, dudcol):
        self.row0, self.col0 = float(row0), float(col0)
        self.m = np.array([[dvdrow, dvdcol], [dudrow, dudcol]], dtype='f8')

    @classmethod
    def of(cls, j):
        return cls(j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)

    @property
    def det(self):
        return self.m[0, 0]*self.m[1, 1] - self.m[0, 1]*self.m[1, 0]

    @property
    def area(self):
        return abs(self.det)

    def vu(self, row, col):
        dr = np.asarray(row, dtype='f8') - self.row0
        dc = np.asarray(col, dtype='f8') - self.col0
        return self.m[0, 0]*dr + self.m[0, 1]*dc, self.m[1, 0]*dr + self.m[1, 1]*dc

    def rowcol(self, v, u):
        inv = np.linalg.inv(self.m)
        v = np.asarray(v, dtype='f8')
        u = np.asarray(u, dtype='f8')
        return self.row0 + inv[0, 0]*v + inv[0, 1]*u, self.col0 + inv[1, 0]*v + inv[1, 1]*u

    def grid(self, dims):
        r, c = np.mgrid[0:dims[0], 0:dims[1]]
        return self.vu(r, c)


def gmix_components(gm):
    """p, row, col, irr, irc, icc as an (n, 6) array"""
    return np.array(gm.get_full_pars(), dtype='f8').reshape(-1, 6)


def eval_components(comp, v, u):
    """sum of normalised bivariate normals at sky positions (row~v, col~u)"""
    v = np.asarray(v, dtype='f8')
    u = np.asarray(u, dtype='f8')
    out = np.zeros(np.broadcast(v, u).shape)
    for p, row, col, irr, irc, icc in comp:
        det = irr*icc - irc*irc
        dv = v - row
        du = u - col
        chi2 = (icc*dv*dv + irr*du*du - 2*irc*dv*du)/det
        out = out + p*np.exp(-0.5*chi2)/(2*np.pi*np.sqrt(det))
    return out


def chi2_components(comp, v, u):
    out = []
    for p, row, col, irr, irc, icc in comp:
        det = irr*icc - irc*irc
        dv = np.asarray(v) - row
        du = np.asarray(u) - col
        out.append((icc*dv*dv + irr*du*du - 2*irc*dv*du)/det)
    return np.array(out)


def eval_cut(comp, v, u, cut=25.0):
    """the same with components beyond chi2 > cut left out, and the part left out"""
    full = np.zeros(np.broadcast(v, u).shape)
    amb = np.zeros(full.shape)
    for c in comp:
        one = eval_components([c], v, u)
        chi2 = chi2_components([c], v, u)[0]
        full = full + np.where(chi2 < cut, one, 0.0)
        amb = amb + np.where(np.abs(chi2 - cut) < 1e-6, np.abs(one), 0.0)
    return full, amb


def render(comp, dims, jac):
    v, u = jac.grid(dims)
    return eval_components(comp, v, u)*jac.area


def render_cut(comp, dims, jac, cut=25.0):
    v, u = jac.grid(dims)
    a, amb = eval_cut(comp, v, u, cut)
    return a*jac.area, amb*jac.area


def cov_of(g1, g2, T):
    """covariance (v,u order: irr, irc, icc) of an elliptical object"""
    gsq = g1*g1 + g2*g2
    e1 = 2*g1/(1 + gsq)
    e2 = 2*g2/(1 + gsq)
    return T/2*(1 - e1), T/2*e2, T/2*(1 + e1)


def shear_matrix(g1, g2):
    return np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1*g1 - g2*g2)


def shear_cov(irr, irc, icc, g1, g2):
    """shear a covariance; x=u(col), y=v(row)"""
    m = np.array([[icc, irc], [irc, irr]])
    s = shear_matrix(g1, g2)
    o = s @ m @ s.T
    return o[1, 1], o[0, 1], o[0, 0]


def mix_moments(comp):
    """flux, row, col, irr, irc, icc of the whole mixture (second central moments)"""
    p = comp[:, 0]
    s = p.sum()
    row = (p*comp[:, 1]).sum()/s
    col = (p*comp[:, 2]).sum()/s
    dr = comp[:, 1] - row
    dc = comp[:, 2] - col
    irr = (p*(comp[:, 3] + dr*dr)).sum()/s
    irc = (p*(comp[:, 4] + dr*dc)).sum()/s
    icc = (p*(comp[:, 5] + dc*dc)).sum()/s
    return s, row, col, irr, irc, icc


def convolve(comp, psf):
    """pairwise; psf normalised to unit flux, psf offsets relative to its own centre"""
    psum = psf[:, 0].sum()
    prow = (psf[:, 0]*psf[:, 1]).sum()/psum
    pcol = (psf[:, 0]*psf[:, 2]).sum()/psum
    out = []
    for o in comp:
        for q in psf:
            out.append([o[0]*q[0]/psum, o[1] + q[1] - prow, o[2] + q[2] - pcol,
                        o[3] + q[3], o[4] + q[4], o[5] + q[5]])
    return np.array(out)
