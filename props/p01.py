"""P01 compiled kernels stay within their arrays, and do what the interpreter does

Two runs of the same hostile workload through the public operations, each in a process of its own:

  bounds   the kernels compiled with numba's bounds sanitizer: any access outside an array raises
  interp   the same python code interpreted (numba switched off) with every numpy.empty filled with a poison, once with each of two
           poisons: an element that is read before it was written shows as a difference between the two

Then the answers of the two runs are compared.  The bounds run also takes a share of the workloads of all other properties.
"""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

from vlib import core
from vlib.core import Workload, Violation

MODE = os.environ.get('VERIF_P01_MODE', '')
OUT = os.environ.get('VERIF_P01_OUT', '')
POISON = [None]

if MODE == 'interp':
    # before anything of ngmix is imported (astropy, which galsim uses, dispatches on the identity of these functions)
    import galsim  # noqa
    import astropy.coordinates  # noqa
    _empty, _empty_like = np.empty, np.empty_like

    def _fill(a):
        p = POISON[0]
        if p is not None and isinstance(a, np.ndarray) and a.dtype.kind != 'O' and not a.dtype.hasobject:
            if a.dtype.kind in 'fc':
                a.fill(p)
            elif a.dtype.kind in 'iu':
                a.fill(77 if p < 0 else 99)
            elif a.dtype.kind == 'V' and a.dtype.names:
                for n in a.dtype.names:
                    if a.dtype[n].kind in 'fc':
                        a[n] = p
        return a

    def empty(*args, **kw):
        return _fill(_empty(*args, **kw))

    def empty_like(*args, **kw):
        return _fill(_empty_like(*args, **kw))
    np.empty, np.empty_like = empty, empty_like

import ngmix  # noqa
from vlib import gen, snap  # noqa

PROP = 'P01'
RULE = '''
Cases: images from 1x1 to 14x14 (and single rows and columns), weights with zero, negative, NaN, infinite, huge and tiny values, NaN and
infinite pixels, all jacobians, mixtures of one to twelve gaussians with ordinary and impossible parameters, all models with right and wrong
numbers of parameters, residual arrays of every size and start, points of wrong dimension, stamps smaller than their apodisation, through
the public operations; run compiled with the bounds sanitizer and interpreted with poisoned memory, and compared. A case is non-trivial if
the operation returned something rather than refusing the input; cases differ by what went in.
'''
# the ones of the two runs, and of the comparison
REQUIRED = ['bounds', 'poison', 'same answer', 'other workloads']
BAD = 'index is out of bounds'


# ------------------------------------------------------------------------------------------------- hostile inputs
def dims_of(rng, n=14):
    k = rng.randint(8)
    if k == 0:
        return 1, 1
    if k == 1:
        return (1, int(rng.randint(1, n))) if rng.randint(2) else (int(rng.randint(1, n)), 1)
    return int(rng.randint(1, n)), int(rng.randint(1, n))


SPECIAL = [0.0, -1.0, np.nan, np.inf, -np.inf, 1e300, 1e-300, -0.0]


def weights(rng, shape):
    k = rng.randint(7)
    w = rng.uniform(0.3, 3, size=shape)*gen.loguni(rng, 1e-3, 1e6)
    if k < 2:
        return w
    if k < 5:
        m = rng.uniform(size=shape) < rng.uniform(0.05, 0.9)
        vals = np.array(SPECIAL)[rng.randint(len(SPECIAL), size=shape)] if k < 4 else np.full(shape, gen.pick(rng, SPECIAL))
        return np.where(m, vals, w)
    if k == 5:
        w[...] = gen.pick(rng, SPECIAL)
        if rng.randint(3):
            w[rng.randint(shape[0]), rng.randint(shape[1])] = gen.pick(rng, [1.0, 4.0, np.inf])
        return w
    w, _ = gen.weight_map(rng, shape)
    return w


def image_of(rng, shape, bad=0.15):
    im = rng.normal(size=shape)*gen.loguni(rng, 1e-3, 1e3)
    if rng.uniform() < bad:
        m = rng.uniform(size=shape) < 0.2
        im[m] = gen.pick(rng, [np.nan, np.inf, -np.inf, 1e300])
    return im


def observation(rng, n=14, bad=0.15, psf=False, good=False, **kw):
    d = dims_of(rng, n)
    w = weights(rng, d)
    if good and not (w > 0).any():
        w = np.ones(d)
    jac, _ = gen.jacob(rng, d, scale=1.0)
    if 'ignore_zero_weight' not in kw:
        kw['ignore_zero_weight'] = bool(rng.randint(4))
    for m in ('bmask', 'ormask'):
        if rng.randint(4) == 0:
            kw[m] = rng.randint(0, 5, size=d).astype('i4')
    if psf:
        pd = dims_of(rng, 8)
        p = ngmix.Observation(rng.uniform(0.1, 1, size=pd), jacobian=gen.jacob(rng, pd, scale=1.0)[0], gmix=mixture(rng, 3, hostile=0.05))
        kw['psf'] = p
    return ngmix.Observation(image_of(rng, d, bad), weight=w, jacobian=jac, **kw)


def fullpars(rng, n=None, hostile=0.2):
    c = gen.full_gmix_pars(rng, n=n or int(rng.randint(1, 9)), signs=rng.randint(4) == 0)
    if rng.uniform() < hostile:
        i, j = rng.randint(len(c)), rng.randint(6)
        c[i, j] = gen.pick(rng, [0.0, -1.0, np.nan, np.inf, -np.inf, 1e300, 1e-300, 1e10])
    return c.ravel()


def mixture(rng, n=None, hostile=0.2):
    return ngmix.GMix(pars=fullpars(rng, int(rng.randint(1, n + 1)) if n else None, hostile))


MODELS = ['gauss', 'turb', 'exp', 'dev', 'bdf', 'bd']
NPARS = {'bdf': 7, 'bd': 8}


def modelpars(rng, model, hostile=0.15):
    g1, g2 = gen.disk(rng, 0.9)
    p = [rng.uniform(-3, 3), rng.uniform(-3, 3), g1, g2, gen.loguni(rng, 0.05, 40)]
    if model == 'bd':
        p.append(rng.uniform(-1, 1))
    if model in ('bd', 'bdf'):
        p.append(rng.uniform(-0.1, 1.1))
    p.append(rng.normal()*gen.loguni(rng, 0.1, 1e3))
    if rng.uniform() < hostile:
        p[rng.randint(len(p))] = gen.pick(rng, [0.0, -1.0, np.nan, np.inf, -np.inf, 1e300, 1e-300, 1.0])
    return p


def pix(obs):
    p = obs.pixels
    return None if p is None else {n: np.array(p[n]) for n in p.dtype.names if n != 'fdiff'}


def gmx(gm):
    d = gm.get_data()
    return {n: np.array(d[n]) for n in ('p', 'row', 'col', 'irr', 'irc', 'icc')}


# ------------------------------------------------------------------------------------------------- operations
def o_pixels(rng, note):
    o = observation(rng, store_pixels=bool(rng.randint(8)))
    out = [pix(o)]
    note(dims=o.image.shape, npix=None if o.pixels is None else o.pixels.size)
    for _ in range(rng.randint(0, 4)):
        w = weights(rng, o.image.shape)
        k = rng.randint(4)
        try:
            if k == 0:
                o.set_weight(w)
            elif k == 1:
                with o.writeable():
                    o.weight[...] = w
            elif k == 2:
                o.set_image(image_of(rng, o.image.shape))
            else:
                o.set_jacobian(gen.jacob(rng, o.image.shape)[0])
        except ngmix.GMixFatalError:
            out.append('refused')
            w = np.ones(o.image.shape)
            o.set_weight(w)
        out.append(pix(o))
    out.append([o.get_s2n(), o.get_s2n_sums()])
    return out


def o_render(rng, note):
    gm = mixture(rng)
    d = dims_of(rng)
    jac = gen.jacob(rng, d)[0] if rng.randint(5) else None
    note(n=len(gm), dims=d, jac=jac is not None)
    a = gm.make_image(d, jacobian=jac, fast_exp=True)
    b = gm.make_image(d, jacobian=jac)
    return [a, b]


def o_model(rng, note):
    m = gen.pick(rng, MODELS)
    p = modelpars(rng, m)
    k = rng.randint(6)
    if k == 0:
        p = p[:rng.randint(len(p))]
    elif k == 1:
        p = p + list(rng.normal(size=rng.randint(1, 4)))
    note(model=m, k=int(k), p=[float(x) for x in p])
    if k == 2:
        gm = ngmix.GMixModel(modelpars(rng, m, 0), m)
        # filled anew, perhaps with a wrong number
        gm.fill(np.array(p[:rng.randint(3, len(p) + 1)]))
    elif k == 3 and m in ('exp', 'dev'):
        gm = ngmix.gmix.GMixCM(rng.uniform(-0.2, 1.2), gen.loguni(rng, 0.1, 10), p)
    else:
        gm = ngmix.GMixModel(p, m)
    d = dims_of(rng, 9)
    return [gmx(gm), gm.get_cen(), gm.get_e1e2T(), gm.get_flux(), gm.make_image(d, fast_exp=bool(rng.randint(2)))]


def o_coellip(rng, note):
    n = int(rng.randint(1, 9))
    p = [rng.normal(), rng.normal(), *gen.disk(rng, 0.8)] + [gen.loguni(rng, 0.5, 20) for _ in range(n)] + list(rng.uniform(0.1, 2, size=n))
    k = rng.randint(4)
    if k == 0:
        p = p[:-1]
    elif k == 1:
        p = p[:rng.randint(0, 6)]
    note(n=n, k=int(k), npars=len(p))
    gm = ngmix.gmix.GMixCoellip(np.array(p))
    out = [gmx(gm)]
    gm.fill(np.array(p)*1.1 if k != 2 else np.array(p + [1.0, 1.0]))
    return out + [gmx(gm), gm.make_image((4, 5))]


def o_mixture(rng, note):
    k = rng.randint(6)
    if k == 0:
        p = fullpars(rng)
        p = p[:-rng.randint(1, 6)]
        note(k=0, npars=len(p))
        return gmx(ngmix.GMix(pars=p))
    gm = mixture(rng)
    psf = mixture(rng)
    note(k=int(k), n=len(gm), npsf=len(psf), p=[float(x) for x in gm.get_full_pars()[:12]])
    if k == 1:
        return [gmx(gm.convolve(psf)), gmx(ngmix.gmix.gmix.gmix_concat([gm, psf, gm])) if hasattr(ngmix.gmix.gmix, 'gmix_concat') else 0]
    if k == 2:
        s = gm.get_sheared(*gen.disk(rng, 0.3))
        return [gmx(s), gm.get_e1e2T(), gm.get_g1g2T()]
    if k == 3:
        out = [gm.get_cen(), gm.get_T(), gm.get_flux(), gm.get_full_pars()]
        gm.set_cen(1.0, -2.0)
        gm.set_flux(3.0)
        return out + [gmx(gm), gm.get_gaussap_flux(fwhm=2.5)]
    if k == 4:
        gm.make_round(preserve_size=bool(rng.randint(2)))
        return gmx(gm)
    # one used for rendering, filled with something else and used again
    a = gm.make_image((3, 3))
    p = fullpars(rng, int(rng.randint(1, 6)))
    gm.fill(p)
    return [a, gmx(gm), gm.make_image((3, 3))]


def o_like(rng, note):
    o = observation(rng)
    gm = mixture(rng) if rng.randint(2) else ngmix.GMixModel(modelpars(rng, 'exp', 0), 'exp')
    note(n=len(gm), dims=o.image.shape, npix=o.pixels.size)
    k = rng.randint(3)
    if k == 0:
        r = gm.get_loglike(o, more=True)
        return [r[x] for x in sorted(r)] + [gm.get_loglike(o)]
    if k == 1:
        return [gm.get_model_s2n_sum(o), gm.get_model_s2n(o)]
    return [gm.get_loglike(o)]


def o_fdiff(rng, note):
    o = observation(rng, n=9)
    gm = mixture(rng, hostile=0.05)
    npx = o.image.size
    start = int(gen.pick(rng, [0, 0, 1, 5, -1, -3, npx, -npx, -(npx + rng.randint(1, 20)), -2*npx - 7]))
    size = int(max(0, gen.pick(rng, [npx, npx + start, npx + abs(start) + 2, npx + start - 1, o.pixels.size + start, 0, npx//2])))
    fdiff = np.zeros(size + 0)
    if rng.randint(8) == 0 and size:
        fdiff = np.zeros(2*size)[::2]
    note(dims=o.image.shape, npix=o.pixels.size, start=start, size=size)
    gm.fill_fdiff(o, fdiff, start=start)
    return fdiff


def measured(r):
    # ratios and square roots of these can be rounding errors of nothing
    return [r[k] for k in ('flags', 'npix', 'wsum', 'sums', 'sums_cov', 'flux', 'flux_err', 's2n') if k in r]


def o_moments(rng, note):
    o = observation(rng)
    gm = mixture(rng, 1, hostile=0.1) if rng.randint(4) else mixture(rng, 3)
    high = bool(rng.randint(2))
    maxrad = gen.pick(rng, [None, 1e9, 0.0, 2.0, np.inf, np.nan, -1.0])
    note(dims=o.image.shape, n=len(gm), high=high, maxrad=repr(maxrad))
    if rng.randint(2):
        r = gm.get_weighted_moments(o, maxrad=maxrad, with_higher_order=high)
    else:
        r = gm.get_weighted_sums(o, maxrad=maxrad, with_higher_order=high)
    if isinstance(r, dict):
        return measured(r)
    return [np.array(r[n]) for n in r.dtype.names]


def o_gaussmom(rng, note):
    from ngmix.gaussmom import GaussMom
    o = observation(rng)
    fw, high = gen.loguni(rng, 0.1, 20), bool(rng.randint(2))
    note(dims=o.image.shape, fwhm=fw, high=high)
    return measured(GaussMom(fw, with_higher_order=high).go(o))


def o_em(rng, note):
    from ngmix.em import EMFitter, EMFitterFixCen, EMFitterFluxOnly
    from ngmix.em.em import EMFitterFixCov
    kind = gen.pick(rng, [EMFitter, EMFitterFixCen, EMFitterFluxOnly, EMFitterFixCov])
    o = observation(rng, n=8, psf=bool(rng.randint(2)), bad=0.1, good=True)
    gm = mixture(rng, 4, hostile=0.1)
    it, vary = int(rng.randint(1, 4)), bool(rng.randint(2))
    kw = {}
    if rng.randint(2):
        kw['sky'] = float(gen.pick(rng, [0.0, 0.1, 10.0, -1.0, np.nan]))
    if kind is not EMFitter or rng.randint(2):
        vary = False
    note(kind=kind.__name__, dims=o.image.shape, n=len(gm), psf=o.has_psf(), maxiter=it, npix=o.pixels.size, **kw)
    r = kind(maxiter=it, tol=1e-9, **({'vary_sky': True} if vary else {})).go(o, gm, **kw)
    out = [r['flags'], r.get('numiter', 0), r.get('fdiff', 0.0), r.get('sky', 0.0)]
    try:
        out.append(gmx(r.get_gmix()))
        out.append(gmx(r.get_convolved_gmix()))
    except RuntimeError:
        out.append('none')
    return out


def o_admom(rng, note):
    from ngmix.admom import AdmomFitter
    o = observation(rng, n=10, good=True)
    gm = mixture(rng, 1, hostile=0.1)
    it = int(rng.randint(1, 5))
    cen = bool(rng.randint(4) == 0)
    note(dims=o.image.shape, maxiter=it, npix=o.pixels.size)
    r = AdmomFitter(maxiter=it, cenonly=cen, shiftmax=float(gen.pick(rng, [5.0, 1e9, 0.1]))).go(o, gm)
    return [r[k] for k in ('flags', 'numiter', 'npix', 'wsum', 'sums', 'sums_cov', 'pars', 'T', 'e', 'flux', 's2n') if k in r]


def o_ndim(rng, note):
    from ngmix.gmix_ndim import GMixND
    n, d = int(rng.randint(1, 6)), int(rng.randint(1, 5))
    w = rng.uniform(0.1, 1, size=n)
    c = np.array([np.diag(rng.uniform(0.3, 2, size=d)) for _ in range(n)])
    g = GMixND(w/w.sum(), rng.normal(size=(n, d)), c, rng=np.random.RandomState(3))
    if rng.randint(3) == 0:
        # another mixture put in its place
        n, d = int(rng.randint(1, 6)), int(rng.randint(1, 5))
        w = rng.uniform(0.1, 1, size=n)
        c = np.array([np.diag(rng.uniform(0.3, 2, size=d)) for _ in range(n)])
        g.set_mixture(w/w.sum(), rng.normal(size=(n, d)), c)
    dd = int(gen.pick(rng, [d, d, d, d + 1, max(d - 1, 0), d + 50]))
    comp = gen.pick(rng, [None, None, 0, n - 1, n, -1, n + 100])
    k = rng.randint(4)
    note(n=n, d=d, dd=dd, comp=comp, k=int(k))
    x = rng.normal(size=(5, dd))*gen.pick(rng, [1.0, 1.0, 100.0, 1e200])
    if k == 0:
        return g.get_prob_array(x, component=comp)
    if k == 1:
        return g.get_lnprob_array(x, component=comp)
    if k == 2:
        return g.get_prob_scalar(x[0], component=comp)
    return g.get_lnprob_scalar(x[0], component=comp)


def o_jacobian(rng, note):
    j = gen.jacob(rng, (9, 9))[0]
    k = rng.randint(4)
    a, b = rng.normal(size=2)*10
    v = rng.normal(size=int(rng.randint(0, 6)))
    note(k=int(k), n=len(v))
    if k == 0:
        return [j.get_vu(a, b), j.get_rowcol(a, b), j.get_area(), j.get_det()]
    if k == 1:
        return [j.get_vu(v, v), j.get_rowcol(v, v*2)]
    if k == 2:
        return [j(a, b), j.get_galsim_wcs().dudx]
    return [j.get_vu(int(3), int(4)), j.get_rowcol(np.float64(2), 3.0), j.get_scale()]


def o_prepsf(rng, note):
    from ngmix.prepsfmom import PGaussMom
    from ngmix.ksigmamom import KSigmaMom
    n = int(rng.randint(2, 15))
    d = (n, n) if rng.randint(3) else (n, n + int(rng.randint(0, 4)))
    jac, _ = gen.jacob(rng, d, scale=1.0)
    w = weights(rng, d)
    if not (w > 0).any():
        w = np.ones(d)
    psf = None
    if rng.randint(2):
        pd = (int(rng.randint(2, 12)),)*2
        q = gen.jacob(rng, pd, scale=1.0)[0] if rng.randint(8) == 0 else jac.copy()
        if rng.randint(8):
            q.set_cen(row=(pd[0] - 1)/2, col=(pd[1] - 1)/2)
        psf = ngmix.Observation(np.exp(-0.5*((np.indices(pd) - (pd[0] - 1)/2)**2).sum(axis=0)), jacobian=q)
    o = ngmix.Observation(image_of(rng, d, 0.05), weight=w, jacobian=jac, psf=psf)
    ap = gen.pick(rng, [None, None, 1.5, 0, 0.3, 5.0, 50.0, -1.0])
    kw = dict(pad_factor=float(gen.pick(rng, [1, 1.5, 2, 4, 0.5])))
    if ap is not None:
        kw['ap_rad'] = ap
    if rng.randint(2):
        kw['fwhm_smooth'] = float(rng.uniform(0, 3))
    fw = rng.uniform(1.0, 6.0)
    kind = gen.pick(rng, [PGaussMom, KSigmaMom])
    note(dims=d, psf=None if psf is None else psf.image.shape, kind=kind.__name__, fwhm=fw, **kw)
    r = kind(fw, **kw).go(o, no_psf=psf is None)
    return [r[k] for k in sorted(r) if isinstance(r[k], (float, int, np.ndarray, np.generic))]


def o_fit(rng, note):
    from ngmix.fitting import Fitter, CoellipFitter
    m = gen.pick(rng, ['gauss', 'exp', 'bdf', 'coellip'])
    d = (int(rng.randint(2, 6)), int(rng.randint(2, 6)))
    mb = ngmix.MultiBandObsList()
    nb = 1 if m == 'coellip' else int(rng.randint(1, 3))
    gm = ngmix.GMixModel([0, 0, 0.1, 0, 3.0, 10.0], 'gauss')
    for _ in range(nb):
        ol = ngmix.ObsList()
        for _ in range(rng.randint(1, 3)):
            jac, _ = gen.jacob(rng, d, scale=1.0)
            w = np.where(rng.uniform(size=d) < 0.1, gen.pick(rng, [0.0, -1.0, np.nan]), 25.0)
            if not (w > 0).any():
                w[...] = 1
            o = ngmix.Observation(gm.make_image(d, jacobian=jac) + 0.2*rng.normal(size=d), weight=w, jacobian=jac,
                                  ignore_zero_weight=bool(rng.randint(3)))
            ol.append(o)
        mb.append(ol)
    note(model=m, dims=d, nband=nb)
    fp = dict(maxfev=7, ftol=1e-3, xtol=1e-3)
    if m == 'coellip':
        r = CoellipFitter(ngauss=2, fit_pars=fp).go(mb, np.array([0, 0, 0.05, 0.02, 2.0, 4.0, 5.0, 5.0]))
    else:
        g = [0, 0, 0.05, 0.02, 2.5] + ([0.4] if m == 'bdf' else []) + [9.0]*nb
        r = Fitter(model=m, fit_pars=fp).go(mb, np.array(g))
    # few evaluations: differences stay at rounding, and are compared loosely (see TOL)
    return [r['flags'], r['nfev'], r['pars'], r.calc_fdiff(np.array(g if m != 'coellip' else [0, 0, 0.05, 0.02, 2.0, 4.0, 5.0, 5.0]))]


def o_psfflux(rng, note):
    from ngmix.fitting import PSFFluxFitter
    ol = ngmix.ObsList()
    n = int(rng.randint(1, 4))
    for _ in range(n):
        o = observation(rng, n=10, good=True)
        gm = mixture(rng, 3, hostile=0.05)
        pj = o.jacobian
        o.set_psf(ngmix.Observation(np.ones((5, 5)), jacobian=pj, gmix=gm))
        ol.append(o)
    note(n=n, dims=[o.image.shape for o in ol])
    r = PSFFluxFitter(normalize_psf=bool(rng.randint(2))).go(ol)
    return [r[k] for k in ('flags', 'flux', 'dof') if k in r]


def o_simobs(rng, note):
    o = observation(rng, psf=bool(rng.randint(2)))
    gm = gen.pick(rng, [None, mixture(rng, 3, hostile=0.05)])
    kw = dict(convolve_psf=o.has_psf())
    if rng.randint(2):
        kw.update(add_all=bool(rng.randint(2)), noise_factor=float(gen.pick(rng, [0.5, 2.0])))
    note(dims=o.image.shape, gm=gm is not None, **kw)
    n = ngmix.simobs.simulate_obs(gm, o, rng=np.random.RandomState(5), **kw)
    return [np.array(n.image), np.array(n.weight), pix(n)]


def o_gaussap(rng, note):
    m = gen.pick(rng, ['gauss', 'exp', 'dev', 'turb', 'bdf'])
    p = np.array([modelpars(rng, m, 0.3) for _ in range(rng.randint(1, 4))])
    note(model=m, p=[float(x) for x in p[0]])
    return list(ngmix.gaussap.get_gaussap_flux(p, m, gen.loguni(rng, 0.5, 10), verbose=False))


def o_psfguess(rng, note):
    from ngmix.guessers import GMixPSFGuesser, CoellipPSFGuesser
    o = observation(rng, n=10, bad=0.05)
    n = int(rng.randint(1, 6))
    moms = bool(rng.randint(2))
    k = rng.randint(2)
    note(n=n, moms=moms, dims=o.image.shape, k=int(k))
    r = (GMixPSFGuesser if k else CoellipPSFGuesser)(np.random.RandomState(3), n, guess_from_moms=moms)(o)
    return gmx(r) if k else r


def o_metacal(rng, note):
    d = (int(rng.randint(15, 22)),)*2
    jac = ngmix.DiagonalJacobian(row=(d[0] - 1)/2, col=(d[1] - 1)/2, scale=0.3)
    psf = ngmix.GMixModel([0, 0, 0.01, 0, 0.6, 1.0], 'gauss')
    w = weights(rng, d)
    gm = ngmix.GMixModel([0, 0, 0.1, 0, 1.0, 10.0], 'gauss')
    o = ngmix.Observation(gm.make_image(d, jacobian=jac), weight=w, jacobian=jac,
                          psf=ngmix.Observation(psf.make_image((17, 17), jacobian=ngmix.DiagonalJacobian(row=8, col=8, scale=0.3)),
                                                jacobian=ngmix.DiagonalJacobian(row=8, col=8, scale=0.3)))
    note(d=d, good=int((w > 0).sum()))
    r = ngmix.metacal.get_all_metacal(o, rng=np.random.RandomState(4), types=['noshear', '1p'])
    return [[np.array(r[k].image), np.array(r[k].weight), pix(r[k])] for k in sorted(r)]


# name: function, bounds run quick and thorough, interpreted quick and thorough
OPS = dict(
    pixels=(o_pixels, 800, 30000, 300, 6000), render=(o_render, 500, 20000, 120, 2500), model=(o_model, 700, 20000, 250, 5000),
    coellip=(o_coellip, 250, 8000, 120, 2000), mixture=(o_mixture, 900, 25000, 400, 8000), like=(o_like, 600, 20000, 200, 4000),
    fdiff=(o_fdiff, 500, 15000, 250, 5000), moments=(o_moments, 700, 20000, 250, 5000), gaussmom=(o_gaussmom, 300, 8000, 100, 2000),
    em=(o_em, 700, 20000, 200, 4000), admom=(o_admom, 600, 15000, 200, 3000), ndim=(o_ndim, 400, 10000, 300, 5000),
    jacobian=(o_jacobian, 150, 3000, 100, 1000), prepsf=(o_prepsf, 500, 10000, 120, 2000), fit=(o_fit, 120, 3000, 30, 500),
    psfflux=(o_psfflux, 300, 8000, 120, 2000), simobs=(o_simobs, 300, 8000, 120, 2000), gaussap=(o_gaussap, 200, 4000, 120, 1500),
    psfguess=(o_psfguess, 200, 4000, 100, 1500), metacal=(o_metacal, 40, 600, 0, 0),
)
# how far the compiled and the interpreted answers may be apart, relative to the largest element
TOL = dict(fit=1e-3, em=1e-7, admom=1e-6, prepsf=1e-7)


def plain(x):
    """nested lists of arrays"""
    if isinstance(x, dict):
        return [plain(x[k]) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, bool)):
        return str(x)
    return np.array(x)


def outcome(name, rng, note):
    """('ok', answer) or ('refused', kind); accesses outside an array are let through"""
    try:
        return 'ok', plain(OPS[name][0](rng, note))
    except IndexError as e:
        if str(e) == BAD:
            raise
        return 'refused', 'IndexError'
    except Violation:
        raise
    except Exception as e:
        return 'refused', type(e).__name__ + ': ' + str(e)[:80].replace('\n', ' ')


def nt(mon, out):
    if out[0] == 'ok':
        mon.event('answered')
    else:
        mon.event('refused: ' + out[1].split(':')[0])
        mon.trivial()


def stored(name, idx):
    return os.path.join(OUT, '%s-%d-%s.pkl' % (name, idx, MODE))


def make_workload(name):
    def func(mon, rng, idx):
        state = rng.get_state()
        note = {}
        mon.describe(op=name)
        if MODE == 'bounds':
            mon._count('bounds')
            try:
                out = outcome(name, rng, lambda **kw: mon.describe(**kw))
            except IndexError as e:
                mon.fail('bounds', '%s: %s: an access outside an array, case %s' % (name, e, core.jsonable(mon.desc)))
            if idx < OPS[name][3 if TIER == 'quick' else 4]:
                with open(stored(name, idx), 'wb') as f:
                    pickle.dump(out, f)
            nt(mon, out)
            return
        if MODE == 'interp':
            got = []
            for p in (-7.7e77, 3.3e33):
                rng.set_state(state)
                POISON[0] = p
                try:
                    got.append(outcome(name, rng, lambda **kw: note.update(kw)))
                finally:
                    POISON[0] = None
            mon.describe(**note)
            mon.true('poison', got[0][0] == got[1][0], name, got[0], got[1])
            if got[0][0] == 'ok':
                mon.same('poison', got[0][1], got[1][1], '%s: memory nothing had written was read' % name)
            with open(stored(name, idx), 'wb') as f:
                pickle.dump(got[0], f)
            nt(mon, got[0])
            return
        # replay of one case: both runs, and the comparison
        tmp = tempfile.mkdtemp(prefix='p01-')
        try:
            for mode in ('bounds', 'interp'):
                v = stage(mode, tmp, 'thorough', int(os.environ.get('VERIF_P01_SEED', '1')), only=name, idx=idx)['violations']
                if v:
                    mon.fail(v[0]['monitor'], v[0]['msg'])
            compare(mon, tmp, name, idx)
        finally:
            shutil.rmtree(tmp)
    return func


def leaves(x, path=''):
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + '/%d' % i)
    else:
        yield path, x


def compare(mon, tmp, name, idx):
    a, b = [os.path.join(tmp, '%s-%d-%s.pkl' % (name, idx, m)) for m in ('bounds', 'interp')]
    if not (os.path.exists(a) and os.path.exists(b)):
        return
    a, b = pickle.load(open(a, 'rb')), pickle.load(open(b, 'rb'))
    what = '%s, compiled and interpreted' % name
    if a[0] != b[0]:
        # one refuses (a division by zero raises in one, gives infinity in the other): the other must not look like an answer
        o = a if a[0] == 'ok' else b
        r = b if a[0] == 'ok' else a
        fin = all(np.isfinite(v).all() for _, v in leaves(o[1]) if not isinstance(v, str) and v.dtype.kind in 'fc')
        if 'ZeroDivision' in r[1] or not fin:
            mon.event('one refused, the other not finite')
            return
        mon.fail('same answer', '%s: %s against %s' % (what, a[0] if a[0] == 'ok' else a, b[0] if b[0] == 'ok' else b))
    if a[0] == 'refused':
        mon._count('same answer')
        return
    la, lb = list(leaves(a[1])), list(leaves(b[1]))
    if [p for p, _ in la] != [p for p, _ in lb]:
        longer = la if len(la) > len(lb) else lb
        if not all(np.isfinite(v).all() for _, v in longer if not isinstance(v, str) and v.dtype.kind in 'fc'):
            # a division by zero ended one of them
            mon.event('one refused, the other not finite')
            return
        mon.fail('same answer', what + ': different structure')
    tol = TOL.get(name, 1e-9)
    for (p, x), (_, y) in zip(la, lb):
        if isinstance(x, str) or isinstance(y, str):
            mon.true('same answer', isinstance(x, str) and isinstance(y, str) and x == y, what, p, str(x), str(y))
            continue
        f = y[np.isfinite(y)] if y.dtype.kind in 'fc' else y
        sc = float(np.abs(f).max()) if f.size else 0.0
        mon.close('same answer', x, y, rtol=tol, scale=sc, atol=1e-300, detail=what + ' at ' + p)


# ------------------------------------------------------------------------------------------------- the bounds run of the other workloads
_others = []


def others():
    if not _others:
        import importlib
        here = os.path.dirname(os.path.abspath(__file__))
        for f in sorted(os.listdir(here)):
            p = f[:-3]
            if f.startswith('p') and f.endswith('.py') and p not in ('p01', 'p28') and p[1:].isdigit():
                m = importlib.import_module('props.' + p)
                for w in m.WORKLOADS:
                    if 'thread' in w.name:
                        continue
                    _others.append((m, w))
    return _others


def w_other(mon, rng, idx):
    if MODE != 'bounds':
        return
    lst = others()
    m, w = lst[idx % len(lst)]
    k = idx//len(lst)
    mon.describe(prop=m.PROP, wl=w.name, k=k)
    mine = core.Monitor(core.load_known(m.PROP))
    r = core.run_case(m, mine, w, k, SEED)
    mon._count('other workloads')
    mon.event('decisions of other monitors', sum(mine.counts.values()))
    if isinstance(r, dict):
        txt = r['msg'] + r.get('traceback', '')
        if 'IndexError: ' + BAD in txt:
            mon.fail('bounds', '%s %s %d: %s' % (m.PROP, w.name, k, txt[-600:]))
        mon.event('other failures, decided by %s' % m.PROP)


TIER = os.environ.get('VERIF_P01_TIER', 'quick')
SEED = int(os.environ.get('VERIF_P01_SEED', '1'))


def workloads():
    out = []
    for n, (f, bq, bt, iq, it) in OPS.items():
        q, t = (iq, it) if MODE == 'interp' else (bq, bt)
        if q or MODE != 'interp':
            out.append(Workload(n, make_workload(n), q, t, warm=2 if MODE == 'bounds' else 0))
    if MODE == 'bounds':
        n = len(others())
        out.append(Workload('other', w_other, 4*n, 30*n, warm=0))
    return out


def warm():
    # compile what is needed before the workers are forked
    if MODE == 'bounds':
        mon = core.Monitor()
        for i in range(len(others())):
            m, w = others()[i]
            core.run_case(m, mon, w, 0, SEED)


if MODE:
    WORKLOADS = workloads()
else:
    WORKLOADS = [Workload(n, make_workload(n), 0, 0, warm=0) for n in OPS]


# ------------------------------------------------------------------------------------------------- driver
def stage(mode, tmp, tier, seed, only=None, idx=None, wait=True):
    env = dict(os.environ, VERIF_P01_MODE=mode, VERIF_P01_OUT=tmp, VERIF_P01_TIER=tier, VERIF_P01_SEED=str(seed))
    env.pop('NUMBA_BOUNDSCHECK', None)
    env['NUMBA_BOUNDSCHECK' if mode == 'bounds' else 'NUMBA_DISABLE_JIT'] = '1'
    if only:
        env['VERIF_P01_ONE'] = '%s:%s' % (only, idx if idx is not None else '')
    p = subprocess.Popen([sys.executable, '-c', 'import props.p01 as m; m.stage_main()'], env=env, cwd=core.VERIF)
    if not wait:
        return p
    p.wait()
    return collect(mode, tmp, p)


def collect(mode, tmp, p):
    path = os.path.join(tmp, mode + '.json')
    if os.path.exists(path):
        return json.load(open(path))
    sig = -p.returncode if p.returncode < 0 else 0
    if sig == 9:
        # no verdict
        return dict(done={}, counts={}, events={}, sigs=[], samples=[], known_hits={}, violations=[], skipped=0, dead=[(mode, 0)], planned=0, twarm=0)
    return dict(done={}, counts={}, events={}, sigs=[], samples=[], known_hits={}, skipped=0, dead=[], planned=0, twarm=0, violations=[dict(
        workload=WORKLOADS[0].name, idx=0, monitor='process-died', msg='the %s run ended with %s' % (mode, p.returncode), case={})])


def stage_main():
    one = os.environ.get('VERIF_P01_ONE')
    mod = sys.modules['props.p01']
    if one:
        name, idx = one.split(':')
        if idx:
            mon = core.Monitor()
            w = [w for w in WORKLOADS if w.name == name]
            agg = dict(violations=[], counts={})
            if w:
                r = core.run_case(mod, mon, w[0], int(idx), SEED)
                agg = dict(violations=[r] if isinstance(r, dict) else [], counts=mon.counts)
            with open(os.path.join(OUT, MODE + '.json'), 'w') as f:
                json.dump(agg, f, default=repr)
            return
        agg = core.drive(mod, TIER, SEED, [name])
    else:
        agg = core.drive(mod, TIER, SEED)
    agg['sigs'] = sorted(agg['sigs'])
    kern = os.path.join(OUT, MODE + '.json')
    with open(kern + '.tmp', 'w') as f:
        json.dump(agg, f, default=repr)
    os.rename(kern + '.tmp', kern)


BUDGET = {'quick': 260.0, 'thorough': 620.0}


def main(args, t0):
    tmp = tempfile.mkdtemp(prefix='p01-')
    tier, seed = args.tier, args.seed
    only = args.only
    mod = sys.modules[__name__]
    try:
        # the interpreted run does not compile: it goes on while the other compiles in one process
        ps = {m: stage(m, tmp, tier, seed, only=only, wait=False) for m in ('bounds', 'interp')}
        for p in ps.values():
            p.wait()
        parts = {m: collect(m, tmp, p) for m, p in ps.items()}
        agg = dict(done={}, counts={}, events={}, sigs=set(), samples=[], known_hits={}, violations=[], skipped=0, dead=[], planned=0, twarm=0)
        for m, part in parts.items():
            for k in ('counts',):
                for n, v in part[k].items():
                    agg[k][n] = agg[k].get(n, 0) + v
            for n, v in part['events'].items():
                agg['events'][m + ': ' + n] = v
            for n, v in part['done'].items():
                agg['done'][n] = agg['done'].get(n, 0) + v
            agg['sigs'].update((m, s) for s in part['sigs'])
            agg['samples'] += part['samples'][:4]
            agg['violations'] += part['violations']
            agg['dead'] += part['dead']
            agg['planned'] += part['planned']
            agg['skipped'] += part['skipped']
            agg['twarm'] = max(agg['twarm'], part['twarm'])
        mon = core.Monitor()
        n = 0
        for name, spec in OPS.items():
            for idx in range(spec[3 if tier == 'quick' else 4]):
                mon.begin(name, idx)
                try:
                    compare(mon, tmp, name, idx)
                    n += 1
                except Violation as e:
                    agg['violations'].append(dict(workload=name, idx=idx, monitor=e.name, msg=e.msg, case={}))
        for k, v in mon.counts.items():
            agg['counts'][k] = agg['counts'].get(k, 0) + v
        for k, v in mon.events.items():
            agg['events'][k] = v
        agg['events']['cases compared'] = n
    finally:
        shutil.rmtree(tmp)
    agg['only'] = only
    wall = time.time() - t0
    if only:
        mod.REQUIRED = []
    core.write_evidence(mod, tier, seed, agg, wall)
    return core.report(mod, tier, seed, agg, wall)
