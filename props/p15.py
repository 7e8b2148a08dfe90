"""Template and psf fluxes against the weighted linear least-squares solution, computed independently."""
import numpy as np
import ngmix
import galsim
from ngmix.fitting import PSFFluxFitter, GalsimPSFFluxFitter
from ngmix.defaults import PDEF, CDEF
from ngmix.flags import DIV_ZERO
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P15'
RULE = """one to six epochs of different shape, jacobian, weight (masked, varying, negative, NaN) and psf; psf or object templates as
mixtures (offset centres, any normalisation, several gaussians), images or interpolated galsim psfs with or without an extended model;
noise-free, noisy, negative, blank data; each case also with scaled data, with template added, with the epochs in another order and
with the fit repeated; cases differ by template kind, epochs and weights"""
REQUIRED = ['flux', 'error', 'chi2', 'dof', 'scaling', 'adding', 'order', 'repeat', 'exact', 'normalisation', 'no-weight',
            'inputs-kept', 'refused', 'one-pixel', 'mode gmix', 'mode template', 'mode galsim', 'mode galsim-model',
            'bad weights', 'calibration']


def rand_weight(rng, dims, sig):
    kind = gen.pick(rng, ['const', 'vary', 'zeros', 'stripe', 'neg', 'nan', 'zeros'])
    w, _ = gen.weight_map(rng, dims, 'zeros' if kind == 'nan' else kind)
    w = w/np.median(w[w > 0])/sig**2*gen.loguni(rng, 0.1, 10)
    if kind == 'nan':
        w[rng.randint(dims[0]), rng.randint(dims[1])] = np.nan
        if not (w > 0).any():
            w[0, 0] = 1/sig**2
    return w, kind


class Case(object):
    """epochs with templates, and the template images as they should be"""

    def __init__(self, rng, mode, nep, izw=True):
        self.mode = mode
        self.norm = bool(rng.randint(2)) if mode in ('gmix', 'template') else True
        self.do_psf = bool(rng.randint(4)) if mode in ('gmix', 'template') else True
        self.izw = izw
        self.flux = gen.loguni(rng, 1, 1e4)*gen.pick(rng, [1, 1, 1, -1])
        self.obs = []
        self.t = []
        self.kinds = []
        self.model, self.gs = None, None
        s = gen.loguni(rng, 0.1, 1)
        if mode == 'galsim-model':
            k = gen.pick(rng, ['exp', 'gauss', 'sheared'])
            r = s*rng.uniform(0.8, 2)
            self.model = {'exp': galsim.Exponential(half_light_radius=r, flux=3.0), 'gauss': galsim.Gaussian(sigma=r),
                          'sheared': galsim.Gaussian(sigma=r, flux=0.1).shear(g1=0.2, g2=-0.1).shift(0.3*s, -0.4*s)}[k]
        # normalisations and fluxes in any unit
        self.unit = gen.loguni(rng, 1e-9, 1e9) if rng.randint(3) == 0 and not mode.startswith('galsim') else 1.0
        self.flux *= gen.loguni(rng, 1e-9, 1e9) if rng.randint(3) == 0 else 1.0
        self.method = gen.pick(rng, ['auto', 'auto', 'no_pixel']) if mode.startswith('galsim') else None
        self.interp = gen.pick(rng, ['lanczos15', 'lanczos15', 'quintic', 'lanczos5', 'cubic'])
        self.noise = gen.pick(rng, [0, 0.01, 0.1, 3])
        for _ in range(nep):
            self.add(rng, s)

    def add(self, rng, s):
        dims = (rng.randint(9, 26), rng.randint(9, 26))
        jp, jk = gen.jac_pars(rng, dims, scale=s, kind=gen.pick(rng, ['diag', 'rot', 'flip', 'shear', 'general']))
        rj = ref.Jac(*jp)
        sc = np.sqrt(rj.area)
        psf = gen.psf_obs(rng, scale=sc, gmix=False)
        kw = {}
        tattr = None
        if self.mode == 'gmix':
            gm, comp = gen.full_gmix(rng, n=rng.randint(1, 4), spread=0.5, Tmin=2, Tmax=20, gmax=0.3, scale=sc)
            comp = comp.copy()
            f = gen.loguni(rng, 0.2, 50)*self.unit
            comp[:, 0] *= f/comp[:, 0].sum()
            gm = ngmix.GMix(pars=comp.ravel())
            if rng.randint(3) == 0:
                gm = ngmix.GMixModel([0.3*sc*rng.normal(), 0.3*sc*rng.normal(), 0.1, -0.05, 6*sc**2, f], 'turb')
                comp = ref.gmix_components(gm)
            tot = comp[:, 0].sum()
            if self.do_psf:
                psf = ngmix.Observation(psf.image.copy(), weight=psf.weight.copy(), jacobian=psf.jacobian, gmix=gm)
            else:
                kw['gmix'] = gm
            t = ref.render(comp, dims, rj)
            if self.norm or not self.do_psf:
                t = t/tot
        elif self.mode == 'template':
            gm, comp = gen.full_gmix(rng, n=2, spread=0.3, Tmin=3, Tmax=15, gmax=0.3, scale=sc)
            t = ref.render(comp, dims, rj)*gen.loguni(rng, 0.1, 100)*self.unit
            if rng.randint(2):
                # templates need not be positive
                t = t + 0.1*abs(t).max()*rng.normal(size=dims)/np.sqrt(t.size)
            tattr = t.copy()
            if self.norm or not self.do_psf:
                t = t/t.sum()
        else:
            # the psf may be at another scale and off centre
            pd = (rng.randint(15, 24), rng.randint(15, 24)) if rng.randint(4) else (rng.randint(15, 70), rng.randint(41, 70))
            pp, _ = gen.jac_pars(rng, pd, scale=sc*gen.pick(rng, [1, 1, 0.7]), kind=gen.pick(rng, ['diag', 'rot', 'shear', 'general']))
            prj = ref.Jac(*pp)
            g = gen.disk(rng, 0.2)
            pim = ref.render(np.array([[1.0, 0, 0] + list(ref.cov_of(g[0], g[1], 5*sc**2))]), pd, prj)*gen.loguni(rng, 0.1, 100)
            if rng.randint(2):
                # measured psfs have noise, and negative pixels
                pim = pim + 0.01*abs(pim).max()*rng.normal(size=pd)
            psf = ngmix.Observation(pim, jacobian=gen.make_jac(pp))
            t = galsim_template(pim, pp, dims, jp, self.model, self.method, self.interp)
        sig = abs(self.flux)*abs(t).max()*(self.noise or 0.01)
        im = self.flux*t
        w, wk = rand_weight(rng, dims, sig)
        self.kinds.append(wk)
        if self.noise:
            im = im + sig*rng.normal(size=dims)
        # what is in an unused pixel is of no concern
        bad = ~(w > 0)
        im = np.where(bad, 1e6*sig*rng.normal(size=dims), im)
        o = ngmix.Observation(im, weight=w, jacobian=gen.make_jac(jp), psf=psf, ignore_zero_weight=self.izw, **kw)
        if tattr is not None:
            if self.do_psf:
                o.psf.template = tattr
            else:
                o.template = tattr
        self.obs.append(o)
        self.t.append(t)

    def olist(self, order=None):
        ol = ngmix.ObsList()
        for i in (range(len(self.obs)) if order is None else order):
            ol.append(self.obs[i])
        return ol

    def fitter(self, norm=None):
        if self.mode.startswith('galsim'):
            kw = {}
            if self.model is not None:
                kw['model'] = self.model
            if self.method != 'auto':
                kw['draw_method'] = self.method
            if self.interp != 'lanczos15':
                kw['interp'] = self.interp
            return GalsimPSFFluxFitter(**kw)
        norm = self.norm if norm is None else norm
        if self.do_psf and norm:
            return PSFFluxFitter()
        return PSFFluxFitter(do_psf=self.do_psf, normalize_psf=norm)

    def set_images(self, f):
        for o, t in zip(self.obs, self.t):
            o.image = f(o.image.copy(), t)


def galsim_template(pim, pp, dims, jp, model, method, interp='lanczos15'):
    def wcs(p):
        return galsim.JacobianWCS(p[5], p[4], p[3], p[2])
    pi = galsim.Image((pim/pim.sum()).copy(), wcs=wcs(pp))
    nr, nc = pim.shape
    ii = galsim.InterpolatedImage(pi, x_interpolant=interp,
                                  offset=galsim.PositionD(pp[1] - (nc - 1)/2.0, pp[0] - (nr - 1)/2.0))
    obj = ii if model is None else galsim.Convolve(model.withFlux(1.0), ii)
    return obj.drawImage(nx=dims[1], ny=dims[0], wcs=wcs(jp), dtype=float, method=method,
                         offset=galsim.PositionD(jp[1] - (dims[1] - 1)/2.0, jp[0] - (dims[0] - 1)/2.0)).array


def solve(ims, ts, ws):
    num = den = 0.0
    n = 0
    for im, t, w in zip(ims, ts, ws):
        m = w > 0
        num += (w[m]*im[m]*t[m]).sum()
        den += (w[m]*t[m]**2).sum()
        n += m.sum()
    f = num/den
    chi2 = sum((w[w > 0]*(im - f*t)[w > 0]**2).sum() for im, t, w in zip(ims, ts, ws))
    return f, den, chi2, n


def run(mon, rng, idx):
    mode = gen.pick(rng, ['gmix', 'gmix', 'template', 'template', 'galsim', 'galsim-model'])
    nep = rng.randint(1, 7) if not mode.startswith('galsim') else rng.randint(1, 4)
    c = Case(rng, mode, nep, izw=bool(rng.randint(4)))
    mon.describe(mode=mode, nep=nep, norm=c.norm, do_psf=c.do_psf, izw=c.izw, w=c.kinds, noise=c.noise, flux=c.flux,
                 dims=[o.image.shape for o in c.obs], method=c.method)
    mon.event('mode ' + mode)
    ims, ws = [o.image.copy() for o in c.obs], [o.weight.copy() for o in c.obs]
    if any((w < 0).any() or np.isnan(w).any() for w in ws):
        mon.event('bad weights')
    f, den, chi2, n = solve(ims, c.t, ws)
    # galsim draws in single precision
    rt = 1e-9 if not mode.startswith('galsim') else 3e-6
    ol = c.olist() if nep > 1 or rng.randint(2) else c.obs[0]
    before = snap.snap(ol)
    res = c.fitter().go(obs=ol)
    d = snap.diff_snap(before, snap.snap(ol))
    mon.true('inputs-kept', d is None, d)
    mon.true('flags', res['flags'] == (0 if n > 1 else DIV_ZERO), res['flags'], n)
    mon.close('flux', res['flux'], f, rtol=rt, scale=np.sqrt(sum((w[w > 0]*i[w > 0]**2).sum() for i, w in zip(ims, ws))/den))
    mon.close('dof', res['dof'], max(n - 1.0, 1e-6))
    sc = sum((w[w > 0]*(f*t)[w > 0]**2).sum() for t, w in zip(c.t, ws))
    if n > 1:
        mon.close('chi2', res['chi2per'], chi2/(n - 1), rtol=10*rt, atol=10*rt**2*sc/(n - 1) + rt*np.sqrt(sc*chi2)/(n - 1))
        if c.izw:
            e = np.sqrt(chi2/den/(n - 1))
            mon.close('error', res['flux_err'], e, rtol=10*rt, atol=10*rt*abs(f)/np.sqrt(n))
        else:
            # all pixels are stored
            N = sum(w.size for w in ws)
            mon.true('error', np.isfinite(res['flux_err']) and res['flux_err'] <= np.sqrt(chi2/den/(n - 1))*(1 + 10*rt) + 10*rt*abs(f)
                     and res['flux_err'] >= np.sqrt(chi2/den/(N - 1))*(1 - 10*rt) - 10*rt*abs(f), res['flux_err'])
    else:
        mon.true('one-pixel', res['flags'] & DIV_ZERO, res['flags'])
    if not c.noise:
        mon.close('exact', res['flux'], c.flux, rtol=3*rt)
        mon.close('exact', res['flux_err'], 0.0, atol=30*rt*abs(c.flux)/np.sqrt(n)) if n > 1 else None
    # again, and in another order
    r2 = c.fitter().go(ol)
    mon.same('repeat', dict(r2), dict(res))
    if nep > 1:
        r2 = c.fitter().go(c.olist(rng.permutation(nep)))
        mon.close('order', [r2['flux'], r2['flux_err'], r2['chi2per'], r2['dof']],
                  [res['flux'], res['flux_err'], res['chi2per'], res['dof']], rtol=rt,
                  atol=rt*abs(f) if not c.noise else 1e-12*abs(f)) if c.noise or n < 2 else \
            mon.close('order', [r2['flux'], r2['flux_err']], [res['flux'], res['flux_err']], rtol=rt, atol=30*rt*abs(f))
    # the normalisation of the psf
    if mode in ('gmix', 'template'):
        k = gen.loguni(rng, 0.1, 10)
        for o in c.obs:
            if mode == 'gmix':
                p = o.psf if c.do_psf else o
                gm = p.get_gmix()
                gm.set_flux(gm.get_flux()*k)
                p.set_gmix(gm)
            elif c.do_psf:
                o.psf.template *= k
            else:
                o.template *= k
        r2 = c.fitter().go(ol)
        kk = 1.0 if c.norm or not c.do_psf else k
        mon.close('normalisation', [r2['flux'], r2['flux_err']], [res['flux']/kk, res['flux_err']/kk], rtol=1e-7, atol=1e-9*abs(f/kk))
        for o in c.obs:
            if mode == 'gmix':
                p = o.psf if c.do_psf else o
                gm = p.get_gmix()
                gm.set_flux(gm.get_flux()/k)
                p.set_gmix(gm)
            elif c.do_psf:
                o.psf.template /= k
            else:
                o.template /= k
    # scale the data
    a = gen.loguni(rng, 1e-3, 1e3)*gen.pick(rng, [1, -1])
    c.set_images(lambda im, t: im*a)
    r2 = c.fitter().go(ol)
    if n > 1:
        mon.close('scaling', [r2['flux'], r2['flux_err']], [a*res['flux'], abs(a)*res['flux_err']],
                  rtol=max(1e-7, 20*rt), atol=1e-6*rt*abs(a*f) if c.noise else 30*rt*abs(a*f))
        mon.close('scaling', r2['chi2per'], a*a*res['chi2per'], rtol=max(1e-7, 20*rt),
                  atol=a*a*(30*rt**2*sc + (0 if c.noise else 30*rt*np.sqrt(sc*chi2)))/(n - 1))
    # add the template
    b = c.flux*rng.normal()
    for o, im, t in zip(c.obs, ims, c.t):
        o.image = im + b*t
    r2 = c.fitter().go(ol)
    mon.close('adding', r2['flux'], f + b, rtol=rt, scale=np.sqrt(sum((w[w > 0]*i[w > 0]**2).sum() for i, w in zip(ims, ws))/den))
    if n > 1 and c.noise:
        mon.close('adding', [r2['flux_err'], r2['chi2per']], [res['flux_err'], res['chi2per']], rtol=1e3*rt,
                  atol=1e2*rt*(abs(f) + abs(b)))
    # another flux bookkeeping: one epoch without weight does not count
    if mode in ('gmix', 'template') and nep > 1:
        k = rng.randint(nep)
        o = c.obs[k]
        for o, im in zip(c.obs, ims):
            o.image = im
        o = c.obs[k]
        no = ngmix.Observation(ims[k], weight=ws[k]*0, jacobian=o.jacobian, psf=o.psf, ignore_zero_weight=False,
                               gmix=o.gmix if o.has_gmix() else None)
        if hasattr(o, 'template'):
            no.template = o.template
        keep = [i for i in range(nep) if i != k]
        f2, den2, chi22, n2 = solve([ims[i] for i in keep], [c.t[i] for i in keep], [ws[i] for i in keep])
        l2 = ngmix.ObsList()
        for i in range(nep):
            l2.append(no if i == k else c.obs[i])
        r2 = c.fitter().go(l2)
        mon.close('flux', r2['flux'], f2, rtol=rt, scale=np.sqrt(sum((ws[i][ws[i] > 0]*ims[i][ws[i] > 0]**2).sum() for i in keep)/den2))
        mon.close('dof', r2['dof'], max(n2 - 1.0, 1e-6))


def hostile(mon, rng, idx):
    kind = gen.pick(rng, ['no-weight', 'one-pixel', 'no-template', 'multiband', 'blank'])
    mode = gen.pick(rng, ['gmix', 'template', 'galsim'])
    c = Case(rng, mode, rng.randint(1, 3), izw=False)
    mon.describe(kind=kind, mode=mode, n=len(c.obs), do_psf=c.do_psf)
    if kind == 'no-weight':
        for o in c.obs:
            o.set_weight(gen.pick(rng, [o.weight*0 - (1 if rng.randint(2) else 0)]))
            o.set_weight(np.where(np.isnan(o.weight), 0, o.weight))
        res = mon.returns('no-weight', c.fitter().go, c.olist())
        mon.true('no-weight', res['flags'] != 0 and res['flux'] == PDEF and res['flux_err'] == CDEF, dict(res))
    elif kind == 'one-pixel':
        c = Case(rng, mode, 1, izw=True)
        o = c.obs[0]
        i = np.unravel_index(np.argmax(c.t[0]), c.t[0].shape)
        w = np.zeros(o.image.shape)
        w[i] = 2.0
        o.weight = w
        res = mon.returns('one-pixel', c.fitter().go, c.olist())
        mon.true('one-pixel', res['flags'] != 0 and res['flux_err'] == CDEF, dict(res))
    elif kind == 'no-template':
        if mode == 'galsim':
            mon.raises('refused', Exception, c.fitter().go, 3)
            return
        o = c.obs[0].copy()
        if o.has_gmix():
            o.set_gmix(None)
        o.psf.set_gmix(None)
        mon.raises('refused', ValueError, PSFFluxFitter(do_psf=bool(rng.randint(2))).go, o)
        o.psf = None
        mon.raises('refused', Exception, PSFFluxFitter().go, o)
    elif kind == 'multiband':
        mb = ngmix.MultiBandObsList()
        mb.append(c.olist())
        mon.raises('refused', ValueError, c.fitter().go, mb)
    else:
        c.set_images(lambda im, t: im*0)
        res = mon.returns('blank', c.fitter().go, c.olist())
        mon.true('blank', res['flags'] == 0 and res['flux'] == 0 and res['flux_err'] == 0 and res['chi2per'] == 0, dict(res))


def calibration(mon, rng, idx):
    """errors describe the scatter: pulls over many noise draws"""
    mode = gen.pick(rng, ['gmix', 'template'])
    c = Case(rng, mode, rng.randint(1, 4))
    mon.describe(mode=mode, n=len(c.obs), norm=c.norm, do_psf=c.do_psf)
    ws = [o.weight.copy() for o in c.obs]
    pulls, chis = [], []
    n = sum((w > 0).sum() for w in ws)
    if n < 100:
        mon.trivial()
        return
    N = 100
    with np.errstate(all='ignore'):
        sg = [np.where(w > 0, 1/np.sqrt(np.where(w > 0, w, 1)), 0) for w in ws]
    for _ in range(N):
        for o, t, s in zip(c.obs, c.t, sg):
            o.image = c.flux*t + s*rng.normal(size=t.shape)
        r = c.fitter().go(c.olist())
        pulls.append((r['flux'] - c.flux)/r['flux_err'])
        chis.append(r['chi2per'])
    pulls = np.array(pulls)
    # 7 sigma, a little more for the tails of student's t
    mon.true('calibration', abs(pulls.mean()) < 7/np.sqrt(N)*1.05, 'mean pull', pulls.mean())
    mon.true('calibration', abs(pulls.var() - 1) < 7*np.sqrt(2/N)*1.3, 'variance of pull', pulls.var())
    mon.true('calibration', abs(np.mean(chis) - 1) < 7*np.sqrt(2/(n*N)), 'chi2', np.mean(chis))


WORKLOADS = [
    Workload('run', run, 1600, 25000, warm=3),
    Workload('hostile', hostile, 400, 3000),
    Workload('calibration', calibration, 60, 600),
]
