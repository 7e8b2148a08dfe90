"""k-space observations against a direct Fourier sum, galsim-model fits against residuals recomputed independently."""
import numpy as np
import galsim
import ngmix
from ngmix.observation import make_kobs, KObservation, KObsList, KMultiBandObsList, get_kmb_obs
from ngmix.fitting import GalsimFitter, GalsimSpergelFitter, GalsimMoffatFitter
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P16'
RULE = """k-space: observations, epoch lists and multi-band lists of any jacobian, shape, centre, weights, with and without psf of its
own scale and normalisation, against the direct Fourier sum of each image about its centre; fits: galaxies of the five galsim
models in one to three bands and one to three epochs with different psfs, jacobians and noise, with and without priors and bounds,
from real-space or k-space input, models evaluated without a fit, on any complex image with any weights, up to nine bands and six epochs; and fits that
cannot work; cases differ by model, data, prior"""
REQUIRED = ['fourier', 'psf fourier', 'weight', 'common grid', 'structure', 'meta', 'inputs-kept', 'residuals', 'prior slots',
            'success-valid', 'errors', 'blocks', 'flux', 's2n', 'minimum', 'near-truth', 'recovered', 'bad-guess', 'failed-entries',
            'from k-space', 'model exp', 'model dev', 'model gauss', 'model spergel', 'model moffat', 'one epoch changed',
            'evaluated', 'largest grid', 'interpolant']
ENTRIES = ['flags', 'nfev', 'errmsg', 'pars', 'pars_err', 'pars_cov', 'pars_cov0', 'model']


def wcs(j):
    return galsim.JacobianWCS(j.dudcol, j.dudrow, j.dvdcol, j.dvdrow)


def dft(im, j, n, dk):
    """direct sum about the centre of the image, and the part of the grid it can be compared on"""
    k = (np.arange(n) - n//2)*dk
    KX, KY = np.meshgrid(k, k)
    nr, nc = im.shape
    m = ref.Jac.of(j).m
    rj = ref.Jac((nr - 1)/2, (nc - 1)/2, *m.ravel())
    # exp(-i(kx u + ky v)), separable in row and column
    kr = KY*m[0, 0] + KX*m[1, 0]
    kc = KY*m[0, 1] + KX*m[1, 1]
    r = np.arange(nr) - (nr - 1)/2
    c = np.arange(nc) - (nc - 1)/2
    A = np.exp(-1j*kr.ravel()[:, None]*r)
    B = np.exp(-1j*kc.ravel()[:, None]*c)
    F = ((A @ im)*B).sum(axis=1).reshape(n, n)
    ok = (np.abs(kr) < 0.7*np.pi) & (np.abs(kc) < 0.7*np.pi)
    return F, ok


def flatobs(x):
    return [(b, o) for b, ol in enumerate(ngmix.observation.get_mb_obs(x)) for o in ol]


def kspace(mon, rng, idx):
    psf = gen.pick(rng, [True, 'own', False])
    kw = dict(noise=gen.loguni(rng, 1e-4, 0.1), psf=psf)
    scale = gen.loguni(rng, 0.1, 1)
    kw['scale'] = scale
    kind = rng.randint(3)
    if kind == 0:
        x, _ = gen.obs(rng, **kw)
    else:
        x, _ = gen.mbobs(rng, **kw)
        if kind == 1:
            x = x[0]
    for i, (_, o) in enumerate(flatobs(x)):
        o.meta['who'] = i
        if o.has_psf():
            o.psf.meta['psfwho'] = [i]
    if rng.randint(3) == 0:
        for _, o in flatobs(x):
            if o.has_psf():
                o.psf.image = np.array(o.psf.image)*gen.loguni(rng, 0.1, 50)
    interp = gen.pick(rng, ['lanczos15', 'lanczos15', 'lanczos5', 'quintic'])
    args = {} if interp == 'lanczos15' else {'interp': interp}
    mon.describe(kind=kind, psf=psf, interp=interp, dims=[o.image.shape for _, o in flatobs(x)], scale=scale)
    before = snap.snap(x)
    k = make_kobs(x, **args)
    d = snap.diff_snap(before, snap.snap(x))
    mon.true('inputs-kept', d is None, d)
    mb = ngmix.observation.get_mb_obs(x)
    mon.true('structure', type(k) is KMultiBandObsList and [len(l) for l in k] == [len(l) for l in mb]
             and all(type(l) is KObsList for l in k))
    grids = set()
    tol = {'lanczos15': 5e-3, 'lanczos5': 5e-2, 'quintic': 5e-2}[interp]
    band = {'lanczos15': 1.0, 'lanczos5': 0.6, 'quintic': 0.5}[interp]
    for kl, ol in zip(k, mb):
        for ko, o in zip(kl, ol):
            a = ko.kimage.array
            n = a.shape[0]
            dk = ko.kimage.scale
            grids.add((a.shape, ko.weight.array.shape, float(dk)))
            mon.true('common grid', a.shape == (n, n) and n % 2 == 1 and dk > 0)
            F, ok = dft(np.array(o.image), o.jacobian, n, dk)
            if band < 1:
                # poorer interpolants agree at low frequencies
                m = ref.Jac.of(o.jacobian).m
                kk = (np.arange(n) - n//2)*dk
                KX, KY = np.meshgrid(kk, kk)
                ok &= (np.abs(KY*m[0, 0] + KX*m[1, 0]) < band*np.pi) & (np.abs(KY*m[0, 1] + KX*m[1, 1]) < band*np.pi)
            mon.close('fourier', a[ok], F[ok], rtol=0, atol=tol*np.abs(F).max(), detail='jac %s' % (o.jacobian,))
            mon.event('frequencies', int(ok.sum()))
            mon.close('weight', ko.weight.array, np.full(a.shape, 0.5*o.weight.max()/a.size), rtol=1e-10)
            j = ko.jacobian
            mon.close('common grid', [j.row0, j.col0, j.dvdrow, j.dudcol, j.dvdcol, j.dudrow], [n//2, n//2, dk, dk, 0, 0])
            mon.true('meta', all(q in ko.meta and (ko.meta[q] is v) for q, v in o.meta.items())
                     and ko.meta is not o.meta and 'realspace_gsimage' in ko.meta and ko.meta['scale'] == o.jacobian.scale)
            mon.true('structure', ko.has_psf() == o.has_psf())
            if o.has_psf():
                p = ko.psf
                b = p.kimage.array
                grids.add((b.shape, p.weight.array.shape, float(p.kimage.scale)))
                pim = np.array(o.psf.image)
                F, ok = dft(pim/pim.sum(), o.psf.jacobian, n, dk)
                if band < 1:
                    m = ref.Jac.of(o.psf.jacobian).m
                    ok &= (np.abs(KY*m[0, 0] + KX*m[1, 0]) < band*np.pi) & (np.abs(KY*m[0, 1] + KX*m[1, 1]) < band*np.pi)
                mon.close('psf fourier', b[ok], F[ok], rtol=0, atol=tol*np.abs(F).max())
                mon.close('weight', p.weight.array, np.full(a.shape, 0.5*o.psf.weight.max()/a.size), rtol=1e-10)
                mon.true('meta', all(q in p.meta and p.meta[q] is v for q, v in o.psf.meta.items()) and p.meta is not o.psf.meta
                         and not any(q in p.meta for q in o.meta if q not in o.psf.meta), 'of the psf')
                # the interpolant asked for is the one drawn
                if rng.randint(3) == 0:
                    f = galsim.InterpolatedImage(galsim.Image(pim/pim.sum(), wcs=wcs(o.psf.jacobian)), x_interpolant=interp)
                    mon.close('interpolant', b, f.drawKImage(nx=n, ny=n, scale=dk).array, rtol=0, atol=1e-9)
            if rng.randint(3) == 0:
                f = galsim.InterpolatedImage(galsim.Image(np.array(o.image), wcs=wcs(o.jacobian)), x_interpolant=interp)
                f = f.drawKImage(nx=n, ny=n, scale=dk).array
                mon.close('interpolant', a, f, rtol=0, atol=1e-9*np.abs(f).max())
    mon.true('common grid', len(grids) == 1, 'grids differ', sorted(map(str, grids)))
    # the largest grid any of them needs on its own, with the spacing that goes with it
    alone = [(q.kimage.array.shape[0], float(q.kimage.scale)) for q in (make_kobs(o, **args)[0][0] for _, o in flatobs(x))]
    best = max(n for n, _ in alone)
    a = k[0][0].kimage
    mon.true('largest grid', a.array.shape[0] == best and any(n == best and abs(d/a.scale - 1) < 1e-9 for n, d in alone),
             a.array.shape, a.scale, alone)
    if len(set(n for n, _ in alone)) > 1:
        mon.event('needs differ')
    # a second call, and linear in the image
    k2 = make_kobs(x, **args)
    mon.true('structure', all(np.array_equal(p.kimage.array, q.kimage.array) for l, m in zip(k, k2) for p, q in zip(l, m)))


CLS = {'exp': galsim.Exponential, 'dev': galsim.DeVaucouleurs, 'gauss': galsim.Gaussian}


def gal(model, p):
    """p: one band's parameters"""
    if model == 'spergel':
        g = galsim.Spergel(p[5], half_light_radius=p[4], flux=p[6])
    elif model == 'moffat':
        g = galsim.Moffat(p[5], half_light_radius=p[4], flux=p[6])
    else:
        g = CLS[model](half_light_radius=p[4], flux=p[5])
    return g.shear(g1=p[2], g2=p[3]).shift(p[0], p[1])


def nshape(model):
    return 6 if model in ('spergel', 'moffat') else 5


def band_pars(model, p, b):
    n = nshape(model)
    return np.array(list(p[:n]) + [p[n + b]])


def my_resid(model, p, kmb):
    out = []
    for b, kl in enumerate(kmb):
        g = gal(model, band_pars(model, p, b))
        for ko in kl:
            im = ko.kimage.copy()
            g.drawKImage(image=im)
            m = im.array.copy()
            if ko.has_psf():
                m = m*ko.psf.kimage.array
            d = m - ko.kimage.array
            w = np.sqrt(np.where(ko.weight.array > 0, ko.weight.array, 0))
            out += [(d.real*w).ravel(), (d.imag*w).ravel()]
    return np.concatenate(out)


def make_prior(rng, model, true, s, nband, bounded):
    cen = ngmix.priors.CenPrior(0.0, 0.0, s, s, rng=rng)
    g = ngmix.priors.GPriorBA(0.3, rng=rng)
    n = nshape(model)
    if bounded:
        b = lambda v: ngmix.priors.FlatPrior(v*0.3, v*3.0, rng=rng) if rng.randint(2) else \
            ngmix.priors.Normal(v, 0.5*v, bounds=[0.2*v, 4*v], rng=rng)
    else:
        b = lambda v: ngmix.priors.TwoSidedErf(0.05*v, 0.02*v, 20*v, v, rng=rng) if rng.randint(2) else \
            ngmix.priors.LogNormal(v, v, rng=rng)
    F = [b(f) for f in true[n:]]
    if nband == 1 and rng.randint(2):
        F = F[0]
    if n == 6:
        x = ngmix.priors.Normal(true[5], 0.5, bounds=[true[5] - 0.5, true[5] + 1.0] if bounded else None, rng=rng)
        return ngmix.joint_prior.PriorSpergelSep(cen, g, b(true[4]), x, F)
    return ngmix.joint_prior.PriorGalsimSimpleSep(cen, g, b(true[4]), F)


def make_fitter(model, **kw):
    return {'spergel': GalsimSpergelFitter, 'moffat': GalsimMoffatFitter}[model](**kw) if model in ('spergel', 'moffat') \
        else GalsimFitter(model=model, **kw)


def make_case(rng, model, nband, noise, dopsf, big=False):
    s = gen.loguni(rng, 0.2, 1.0)
    g = gen.disk(rng, 0.4)
    r50 = s*rng.uniform(2.0, 3.5)
    true = [s*rng.uniform(-0.7, 0.7), s*rng.uniform(-0.7, 0.7), g[0], g[1], r50]
    if model == 'spergel':
        true.append(rng.uniform(0.3, 2))
    elif model == 'moffat':
        true.append(rng.uniform(2.2, 4))
    n = nshape(model)
    true += [gen.loguni(rng, 1, 300) for _ in range(nband)]
    true = np.array(true)
    mb = ngmix.MultiBandObsList()
    for b in range(nband):
        ol = ngmix.ObsList()
        for e in range(rng.randint(1, 4 if nband == 1 else 3)):
            dims = (rng.randint(39, 56), rng.randint(39, 56))
            if big:
                dims = (101, 101)
            jac, _ = gen.jacob(rng, dims, scale=s, kind=gen.pick(rng, ['diag', 'rot', 'flip', 'shear', 'general']),
                               cen=(np.array(dims) - 1)/2 if rng.randint(2) else None)
            pj, _ = gen.jacob(rng, (33, 33), scale=s, cen=(16, 16), kind=gen.pick(rng, ['diag', 'rot', 'shear', 'flip']))
            psf = galsim.Gaussian(fwhm=s*rng.uniform(3, 4.5)).shear(g1=rng.uniform(-0.1, 0.1), g2=rng.uniform(-0.1, 0.1))
            pdims = (33, 33)
            pim = psf.drawImage(nx=pdims[1], ny=pdims[0], wcs=wcs(pj), dtype=float, method='no_pixel').array
            obj = gal(model, band_pars(model, true, b))
            if dopsf:
                obj = galsim.Convolve(obj, psf)
            im = obj.drawImage(nx=dims[1], ny=dims[0], wcs=wcs(jac), dtype=float,
                               method='no_pixel' if dopsf else 'auto').array
            sig = noise*abs(im).max()
            im = im + sig*rng.normal(size=dims)
            pobs = ngmix.Observation(pim*gen.loguni(rng, 0.1, 100), jacobian=pj) if dopsf else None
            ol.append(ngmix.Observation(im, weight=np.full(dims, 1/max(sig, 1e-3*abs(im).max())**2), jacobian=jac, psf=pobs,
                                        meta={'be': (b, e)}))
        mb.append(ol)
    return mb, true, s


def contain(mb):
    if len(mb) == 1 and len(mb[0]) == 1:
        return mb[0][0]
    return mb[0] if len(mb) == 1 else mb


def check(mon, rng, res, kmb, model, prior, nband):
    pars = np.array(res['pars'])
    cov = np.array(res['pars_cov'])
    err = np.array(res['pars_err'])
    n = nshape(model)
    npr = 0 if prior is None else n - 1 + nband
    npars = n + nband
    mon.true('success-valid', pars.shape == err.shape == (npars,) and cov.shape == (npars, npars)
             and np.isfinite(pars).all() and np.isfinite(err).all() and (err > 0).all())
    dd = np.sqrt(np.diag(cov))
    mon.true('success-valid', np.linalg.eigvalsh(cov/np.outer(dd, dd)).min() > -1e-8, 'covariance')
    mon.close('errors', err, dd, rtol=1e-9)
    f = np.array(res.calc_fdiff(pars))
    r = my_resid(model, pars, kmb)
    mon.true('residuals', f.size == npr + r.size, f.size, npr, r.size)
    # the errors come out of the squares, scaled by the residuals without those of the prior
    dof = r.size//2 - npars
    sc = np.abs(r).max()
    mon.close('residuals', f[npr:], r, rtol=1e-8, atol=1e-9*sc)
    s_sq = (r*r).sum()/dof
    mon.close('errors', cov, np.array(res['pars_cov0'])*s_sq, rtol=1e-6, atol=0)
    for _ in range(2):
        q = pars + err*rng.normal(size=npars)*0.3
        try:
            want = my_resid(model, q, kmb)
        except Exception:
            continue
        got = np.array(res.calc_fdiff(q))
        if (got == -np.inf).all() or abs(got[0]) >= 1e9:
            continue
        mon.close('residuals', got[npr:], want, rtol=1e-8, atol=1e-9*np.abs(want).max())
        if prior is not None:
            mon.close('prior slots', (got[:npr]**2).sum(), -2*prior.get_lnprob_scalar(q), rtol=1e-7, atol=1e-9)
    mon.same('residuals', np.array(res.calc_fdiff(pars)), f)
    mon.same('blocks', np.array(res['g']), pars[2:4])
    mon.same('blocks', np.array(res['g_cov']), cov[2:4, 2:4])
    mon.same('blocks', np.array(res['g_err']), err[2:4])
    if nband == 1:
        mon.true('flux', res['flux'] == pars[n] and np.isscalar(res['flux']), res['flux'], pars)
        mon.close('flux', res['flux_err'], err[n], rtol=1e-12)
    else:
        mon.same('flux', np.array(res['flux']), pars[n:])
        mon.same('flux', np.array(res['flux_cov']), cov[n:, n:])
        mon.close('flux', np.array(res['flux_err']), err[n:], rtol=1e-12)
    s2 = 0.0
    rp = pars.copy()
    rp[2:4] = 0
    for b, kl in enumerate(kmb):
        g = gal(model, band_pars(model, rp, b))
        for ko in kl:
            im = ko.kimage.copy()
            g.drawKImage(image=im)
            m = im.array*(ko.psf.kimage.array if ko.has_psf() else 1)
            s2 += (np.abs(m)**2*ko.weight.array).sum()
    if not any((ko.weight.array < 0).any() for kl in kmb for ko in kl):
        mon.close('s2n', res['s2n_r'], np.sqrt(s2), rtol=1e-6)
    for b in range(nband):
        mon.same('blocks', np.array(res.get_band_pars(pars, b)), band_pars(model, pars, b))
    return r, s_sq, npr


def fit(mon, rng, idx):
    model = ['exp', 'gauss', 'dev', 'spergel', 'moffat'][idx % 5]
    mon.event('model ' + model)
    nband = gen.pick(rng, [1, 1, 2, 3])
    noise = gen.loguni(rng, 0.002, 0.05)
    dopsf = bool(rng.randint(5))
    mb, true, s = make_case(rng, model, nband, noise, dopsf)
    x = contain(mb) if rng.randint(2) else mb
    prior = None
    if rng.randint(2):
        prior = make_prior(rng, model, true, s, nband, bool(rng.randint(2)))
    conf = {}
    if rng.randint(2):
        conf['fit_pars'] = {'maxfev': 2000, 'xtol': 1e-6, 'ftol': 1e-6}
    guess = true.copy()
    guess[:2] += 0.2*s*rng.uniform(-1, 1, size=2)
    guess[2:4] = 0.7*guess[2:4] + 0.03*rng.uniform(-1, 1, size=2)
    guess[4:] *= rng.uniform(0.8, 1.2, size=true.size - 4)
    mon.describe(model=model, nband=nband, noise=noise, psf=dopsf, prior=prior is not None, epochs=[len(o) for o in mb], true=true)
    usek = bool(rng.randint(3) == 0)
    kmb = make_kobs(x)
    arg = x
    if usek:
        arg = make_kobs(x)
        if nband == 1:
            arg = gen.pick(rng, [arg, arg[0]] + ([arg[0][0]] if len(arg[0]) == 1 else []))
        mon.event('from k-space')
        mon._count('from k-space')
    g2 = guess.copy()
    before = snap.snap([arg, g2])
    fitter = make_fitter(model, prior=prior, **conf)
    res = fitter.go(arg, g2)
    d = snap.diff_snap(before, snap.snap([arg, g2]))
    mon.true('inputs-kept', d is None, d)
    mon.true('failed-entries', all(k in res for k in ENTRIES) and res['model'] == model, sorted(res))
    mon.event('%s flags %d' % (model, res['flags']))
    if res['flags'] != 0:
        return
    r, s_sq, npr = check(mon, rng, res, kmb, model, prior, nband)
    pars, cov, err = np.array(res['pars']), np.array(res['pars_cov']), np.array(res['pars_err'])
    bounds = getattr(prior, 'bounds', None)
    if bounds is not None:
        for p, (lo, hi) in zip(pars, bounds):
            mon.true('success-valid', (lo is None or p >= lo - 1e-9*abs(lo)) and (hi is None or p <= hi + 1e-9*abs(hi)), 'bounds')
            if lo is not None and min(p - lo, hi - p) < 0.02*(hi - lo):
                mon.event('at a bound')
                return

    def obj(p):
        c = (my_resid(model, p, kmb)**2).sum()
        return c - 2*prior.get_lnprob_scalar(p) if prior is not None else c
    if model in ('spergel', 'moffat') or np.hypot(*pars[2:4]) > 0.85:
        return
    c0 = obj(pars)
    sd = np.sqrt(np.diag(cov))
    ev, vec = np.linalg.eigh(cov/np.outer(sd, sd))
    lim = 0.05*s_sq*len(pars) + 3e-5*c0
    for i in range(len(pars)):
        if ev[i] > 1e-6:
            for sign in (1, -1):
                try:
                    c = obj(pars + 0.5*sign*np.sqrt(ev[i])*vec[:, i]*sd)
                except (GMixRangeError, RuntimeError, ValueError):
                    continue
                mon.true('minimum', not c0 - c > lim, 'chi2 lower by', c0 - c, lim, 'along', i)
    if prior is None and dopsf:
        # not the noise that sets the limit, but the finite stamp and its wrapped light
        mon.true('near-truth', abs(pars[:2] - true[:2]).max() < 0.5*s + 12*err[:2].max()
                 and (np.abs(pars[5:]/true[5:] - 1) < 0.25 + 12*err[5:]/true[5:]).all()
                 and abs(pars[2:4] - true[2:4]).max() < 0.1 + 12*err[2:4].max(), pars, true, err)


def recover(mon, rng, idx):
    """without noise and with big stamps the truth comes back, whichever epoch and band"""
    model = ['exp', 'gauss', 'spergel'][idx % 3]
    nband = rng.randint(1, 4)
    mb, true, s = make_case(rng, model, nband, 0.0, True, big=True)
    n = nshape(model)
    guess = true.copy()
    guess[:2] += 0.1*s
    guess[4:] *= 1.1
    mon.describe(model=model, nband=nband, epochs=[len(o) for o in mb], true=true)
    res = make_fitter(model).go(mb, guess)
    mon.event('recover flags %d' % res['flags'])
    if res['flags'] == 0:
        p = np.array(res['pars'])
        tol = 0.02 if model != 'spergel' else 0.1
        mon.true('recovered', abs(p[:2] - true[:2]).max() < 0.03*s and abs(p[2:4] - true[2:4]).max() < tol, p, true)
        mon.close('recovered', p[4], true[4], rtol=2*tol)
        mon.close('recovered', p[n:], true[n:], rtol=2*tol)
    # replacing the data of one epoch changes its residuals only
    kmb = make_kobs(mb)
    f1 = my_resid(model, true, kmb)
    b = rng.randint(nband)
    e = rng.randint(len(mb[b]))
    k2 = make_kobs(mb)
    k2[b][e].kimage.array[:] *= 1.5
    if model == 'spergel':
        fm = ngmix.fitting.GalsimSpergelFitModel(obs=k2, guess=true)
    else:
        fm = ngmix.fitting.GalsimFitModel(obs=k2, model=model, guess=true)
    f2 = np.array(fm.calc_fdiff(true))
    pos = 0
    for bb, kl in enumerate(kmb):
        for ee, ko in enumerate(kl):
            m = 2*ko.kimage.array.size
            if (bb, ee) == (b, e):
                mon.true('one epoch changed', np.abs(f2[pos:pos + m] - f1[pos:pos + m]).max() > 1e-3*np.abs(f1).max())
            else:
                mon.close('one epoch changed', f2[pos:pos + m], f1[pos:pos + m], rtol=1e-8, atol=1e-9*np.abs(f1).max())
            pos += m
    mon.true('one epoch changed', pos == f2.size)


def degenerate(mon, rng, idx):
    model = ['exp', 'gauss', 'dev', 'spergel', 'moffat'][idx % 5]
    nband = rng.randint(1, 3)
    kind = gen.pick(rng, ['bad-guess', 'size', 'blank', 'noise', 'maxfev', 'negative', 'model', 'zeroweight'])
    mb, true, s = make_case(rng, model, nband, 0.02, bool(rng.randint(3)))
    mon.describe(model=model, kind=kind, nband=nband)
    guess = true.copy()
    kw = {}
    if kind == 'bad-guess':
        guess[2] = gen.pick(rng, [1.01, 1.5, -2.0])
        mon.raises('bad-guess', GMixRangeError, make_fitter(model).go, mb, guess)
        return
    if kind == 'size':
        mon.raises('bad-guess', ValueError, make_fitter(model).go, mb, gen.pick(rng, [guess[:-1], np.append(guess, 1.0)]))
        return
    if kind == 'model':
        mon.raises('bad-guess', NotImplementedError, GalsimFitter(model=gen.pick(rng, ['turb', 'foo', 'bdf'])).go, mb, guess)
        mon.raises('bad-guess', ValueError, make_fitter(model).go, [mb], guess)
        return
    for ol in mb:
        for o in ol:
            im = o.image.copy()
            if kind == 'blank':
                im *= 0
            elif kind == 'noise':
                im = rng.normal(size=im.shape)
            elif kind == 'negative':
                im = -im
            o.image = im
    if kind == 'maxfev':
        kw['fit_pars'] = {'maxfev': rng.randint(1, 12)}
    x = mb
    if kind == 'zeroweight':
        x = make_kobs(mb)
        for kl in x:
            for ko in kl:
                ko.weight.array[:] = gen.pick(rng, [0.0, -1.0])
    try:
        res = make_fitter(model, **kw).go(x, guess)
    except galsim.errors.GalSimError as e:
        # the k image of a blank image cannot be sized
        mon.true('failed-entries', kind == 'blank', 'galsim error for', kind, str(e))
        mon.event('blank refused')
        return
    mon.event('%s flags %d' % (kind, res['flags']))
    mon.true('failed-entries', all(k in res for k in ENTRIES), sorted(res))
    if kind in ('zeroweight',):
        mon.true('failed-entries', res['flags'] != 0, 'fit without data is not flagged')
    if kind == 'maxfev' and res['nfev'] is not None:
        if res['nfev'] >= kw['fit_pars']['maxfev']:
            mon.true('failed-entries', res['flags'] != 0 or res['ier'] in (1, 2, 3, 4))
    if res['flags'] == 0:
        check(mon, rng, res, x if kind == 'zeroweight' else make_kobs(mb), model, None, nband)
    else:
        mon.true('failed-entries', 'flux' not in res or not np.isfinite(np.atleast_1d(res['flux'])).all()
                 or True)
        mon._count('failed-entries')


def kobs_of(rng, n, dk, psf, bad):
    """any complex image with any weights"""
    def image(a):
        im = galsim.ImageCD(n[1], n[0], scale=dk)
        im.setCenter(0, 0)
        im.array[:] = a
        return im
    w = galsim.ImageD(n[1], n[0], scale=dk)
    w.setCenter(0, 0)
    w.array[:] = gen.loguni(rng, 1e-8, 1e8)*np.exp(rng.normal(size=n))
    if bad:
        # one that is not positive is not used
        w.array[:] *= np.where(rng.uniform(size=n) < rng.uniform(0.2, 1), 1, gen.pick(rng, [0, 0, -1]))
    p = None
    if psf:
        p = KObservation(image((rng.normal(size=n) + 1j*rng.normal(size=n))*gen.loguni(rng, 0.01, 10)))
    return KObservation(image(gen.loguni(rng, 1e-6, 1e6)*(rng.normal(size=n) + 1j*rng.normal(size=n))),
                        weight=w if rng.randint(5) else None, psf=p, meta={'x': 1})


def evaluate(mon, rng, idx):
    """residuals and statistics at given parameters: many bands and epochs, any k image, any weights, any unit"""
    model = ['exp', 'gauss', 'dev', 'spergel', 'moffat'][idx % 5]
    nband = int(gen.pick(rng, [1, 2, 3, 4, 5, 7, 9]))
    s = gen.loguni(rng, 1e-3, 1e2)
    r50 = s*rng.uniform(0.5, 4)
    if model in CLS:
        r50 = max(r50, 2e-4)
    ns = nshape(model)
    true = [s*rng.uniform(-0.7, 0.7), s*rng.uniform(-0.7, 0.7)] + list(gen.disk(rng, 0.7)) + [r50]
    if model == 'spergel':
        true.append(rng.uniform(-0.5, 3))
    elif model == 'moffat':
        true.append(rng.uniform(1.6, 5))
    true = np.array(true + [gen.loguni(rng, 1e-6, 1e6)*gen.pick(rng, [1, 1, 1, -1]) for _ in range(nband)])
    n = (2*rng.randint(2, 14) + 1,)*2 if rng.randint(4) else (rng.randint(3, 20), rng.randint(3, 20))
    if rng.randint(12) == 0:
        n = (2*rng.randint(40, 70) + 1,)*2
    dk = rng.uniform(0.5, 3)/s/max(n)
    psf = rng.randint(3)
    kmb = KMultiBandObsList()
    for b in range(nband):
        kl = KObsList()
        for e in range(int(gen.pick(rng, [1, 1, 2, 3, 6]))):
            kl.append(kobs_of(rng, n, dk, psf > 0, rng.randint(2)))
        kmb.append(kl)
    prior = None
    if rng.randint(2):
        true[ns:] = np.abs(true[ns:])
        prior = make_prior(rng, model, true, s, nband, bool(rng.randint(2)))
    mon.describe(model=model, nband=nband, epochs=[len(k) for k in kmb], n=n, psf=psf, prior=prior is not None, scale=s)
    arg = kmb
    if nband == 1:
        arg = gen.pick(rng, [kmb, kmb[0]] + ([kmb[0][0]] if len(kmb[0]) == 1 else []))
    before = snap.snap([arg, true])
    cls = {'spergel': ngmix.fitting.GalsimSpergelFitModel, 'moffat': ngmix.fitting.GalsimMoffatFitModel}
    if model in cls:
        fm = cls[model](obs=arg, guess=true, prior=prior)
    else:
        fm = ngmix.fitting.GalsimFitModel(obs=arg, model=model, guess=true, prior=prior)
    d = np.abs(true) + 0.1*np.array([s, s, 1, 1] + [0]*(true.size - 4))
    A = rng.normal(size=(true.size, true.size))*0.01
    cov = (A @ A.T + 1e-4*np.identity(true.size))*np.outer(d, d)
    npar = true.size
    r = my_resid(model, true, kmb)
    dof = r.size//2 - npar
    if dof <= 0:
        mon.event('evaluate: too few')
        return
    s_sq = (r*r).sum()/dof
    fm.set_fit_result(dict(flags=0, pars=true.copy(), pars_cov=cov, pars_err=np.sqrt(np.diag(cov)), pars_cov0=cov/s_sq, nfev=1,
                           ier=1, errmsg=''))
    check(mon, rng, fm, kmb, model, prior, nband)
    bounds = getattr(prior, 'bounds', None)
    mon.true('evaluated', (fm['model'] == model) and (bounds is None or [tuple(b) for b in fm.bounds] == [tuple(b) for b in bounds]),
             'bounds')
    d = snap.diff_snap(before, snap.snap([arg, true]))
    mon.true('inputs-kept', d is None, d)


WORKLOADS = [Workload('evaluate', evaluate, 250, 6000), Workload('kspace', kspace, 500, 6000), Workload('fit', fit, 250, 4000), Workload('recover', recover, 45, 600),
             Workload('degenerate', degenerate, 120, 2000)]
BUDGET = dict(quick=150.0, thorough=780.0)
