"""Maximum likelihood fits against residuals recomputed from data, model and prior."""
import numpy as np
import ngmix
from ngmix.fitting import Fitter, CoellipFitter
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P13'
RULE = """random galaxies (all models, coelliptical mixtures, bulge+disk) in one to three bands with one to three epochs,
with and without psf, masked and varying weights, s/n from a few to thousands, with and without joint priors (with and
without bounds), guesses near and far, random optimiser settings; models evaluated without a fit, with up to eight bands and
nine epochs, stamps of up to 8000 pixels, any unit and dominating priors; degenerate fits (blank, noise only, few pixels, few
evaluations, not finite data); cases differ by model, data, prior and settings"""
REQUIRED = ['success-valid', 'errors', 'blocks', 'chi2', 'dof', 's2n', 'lnprob', 'residuals', 'minimum', 'covariance',
            'mixtures', 'images', 'near-truth', 'failed-entries', 'bad-guess', 'bounds', 'inputs-kept', 'few residuals', 'evaluated',
            'evaluate-bounds']
ENTRIES = ['flags', 'nfev', 'errmsg', 'pars', 'pars_err', 'pars_cov', 'pars_cov0', 'model']
BITS = 2**4 - 1 | ngmix.flags.LM_SINGULAR_MATRIX | ngmix.flags.LM_NEG_COV_EIG | ngmix.flags.LM_NEG_COV_DIAG \
    | ngmix.flags.LM_FUNC_NOTFINITE | ngmix.flags.EIG_NOTFINITE | ngmix.flags.DIV_ZERO | ngmix.flags.ZERO_DOF

MODELS = ['gauss', 'turb', 'exp', 'dev', 'bdf', 'bd', 'coellip']
NSHARED = {'gauss': 5, 'turb': 5, 'exp': 5, 'dev': 5, 'bdf': 6, 'bd': 7}


def truth(rng, model, nband, s, ngauss=2):
    g = gen.disk(rng, 0.5)
    T = s**2*rng.uniform(4, 12)
    cen = s*rng.uniform(-0.6, 0.6, size=2)
    F = [gen.loguni(rng, 1, 1e3) for _ in range(nband)]
    if model == 'coellip':
        Ts = T*np.array([0.5, 2.0, 4.0][:ngauss])*rng.uniform(0.9, 1.1, size=ngauss)
        return np.array(list(cen) + list(g) + list(Ts) + list(F[0]*rng.uniform(0.3, 0.7, size=ngauss)))
    p = list(cen) + list(g) + [T]
    if model == 'bdf':
        p += [rng.uniform(0.1, 0.9)]
    if model == 'bd':
        p += [rng.uniform(-0.3, 0.3), rng.uniform(0.1, 0.9)]
    return np.array(p + F)


def band_pars(model, pars, band):
    """the parameters of one band"""
    pars = np.asarray(pars)
    if model == 'coellip':
        return pars.copy()
    n = NSHARED[model]
    return np.array(list(pars[:n]) + [pars[n + band]])


def mixture(model, pars, band=0):
    bp = band_pars(model, pars, band)
    return ngmix.gmix.make_gmix_model(bp, model)


def make_data(rng, model, nband, s, pars, dopsf, s2n, maxep=3, wkinds=('const', 'vary', 'zeros', 'stripe'), dimsf=None):
    mb = ngmix.MultiBandObsList()
    # psfs of the epochs and bands often have something in common
    rel = gen.pick(rng, ['size', 'shape', 'one']) if rng.randint(3) == 0 else None
    common = None
    T, (g1, g2) = rng.uniform(3, 8)*s**2, gen.disk(rng, 0.3)
    for b in range(nband):
        ol = ngmix.ObsList()
        for e in range(rng.randint(1, maxep + 1)):
            dims = (rng.randint(20, 30), rng.randint(20, 30)) if dimsf is None else dimsf(rng)
            jac, _ = gen.jacob(rng, dims, scale=s, kind=gen.pick(rng, ['diag', 'rot', 'flip', 'shear', 'general']))
            gm = mixture(model, pars, b)
            psf = None
            if dopsf:
                psf = gen.psf_obs(rng, scale=s)
                if rel == 'one':
                    psf = common = common or psf
                elif rel == 'size':
                    g = gen.disk(rng, 0.3)
                    psf.gmix = ngmix.GMixModel([0.0, 0.0, g[0], g[1], T, 1.0], 'gauss')
                elif rel == 'shape':
                    psf.gmix = ngmix.GMixModel([0.0, 0.0, g1, g2, T, gen.loguni(rng, 0.5, 2)], 'gauss')
                elif rng.uniform() < 0.5:
                    # psfs need not be normalised, or centred on their jacobian
                    pg = psf.gmix
                    pg.set_flux(gen.loguni(rng, 0.5, 2))
                    psf.gmix = pg
                gm = gm.convolve(psf.gmix)
            im = gm.make_image(dims, jacobian=jac)
            sig = np.sqrt((im**2).sum())/s2n
            w, _ = gen.weight_map(rng, dims, gen.pick(rng, wkinds))
            w = w/np.median(w[w > 0])/sig**2
            with np.errstate(all='ignore'):
                noise = np.where(w > 0, rng.normal(size=dims)/np.sqrt(np.where(w > 0, w, 1)), 1e3*sig)
            ol.append(ngmix.Observation(im + noise, weight=w, jacobian=jac, psf=psf))
        mb.append(ol)
    return mb


def make_prior(rng, model, nband, s, pars, bounds=None, ngauss=2):
    r = np.random.RandomState(rng.randint(2**31))
    cen = ngmix.priors.CenPrior(0.0, 0.0, s, s, rng=r)
    g = ngmix.priors.GPriorBA(0.3, rng=r)

    def pos(val):
        k = rng.randint(4)
        if k == 0:
            return ngmix.priors.FlatPrior(-10*val, 1e3*val, rng=r)
        if k == 1:
            return ngmix.priors.TwoSidedErf(-1*val, 0.1*val, 1e3*val, 10*val, rng=r)
        if k == 2:
            return ngmix.priors.LogNormal(val*1.2, val*0.5, rng=r)
        if bounds:
            return ngmix.priors.Normal(val*1.1, val*0.8, rng=r, bounds=[0.01*val, 20*val])
        return ngmix.priors.Normal(val*1.1, val*0.8, rng=r)
    n = NSHARED.get(model, 4)
    if model == 'coellip':
        return ngmix.joint_prior.PriorCoellipSame(ngauss, cen, g, pos(pars[4]), pos(pars[4 + ngauss]))
    F = [pos(f) for f in pars[n:]]
    if nband == 1 and rng.randint(2):
        F = F[0]
    frac = ngmix.priors.Normal(0.5, 0.1, rng=r) if not bounds else ngmix.priors.Normal(0.5, 0.1, rng=r, bounds=[0, 1])
    if model == 'bdf':
        return ngmix.joint_prior.PriorBDFSep(cen, g, pos(pars[4]), frac, F)
    if model == 'bd':
        return ngmix.joint_prior.PriorBDSep(cen, g, pos(pars[4]), ngmix.priors.Normal(0, 0.2, rng=r), frac, F)
    return ngmix.joint_prior.PriorSimpleSep(cen, g, pos(pars[4]), F)


def prior_chi2(prior, pars):
    return 0.0 if prior is None else -2*prior.get_lnprob_scalar(pars)


def data_resid(model, pars, mb):
    """(model - data)/err for all used pixels, in order; and the sums for the signal-to-noise"""
    out, num, den, mag = [], 0.0, 0.0, 0.0
    for b, ol in enumerate(mb):
        comp = ref.gmix_components(mixture(model, pars, b))
        for o in ol:
            c = ref.convolve(comp, ref.gmix_components(o.psf.gmix)) if o.has_psf_gmix() else comp
            im, _ = ref.render_cut(c, o.image.shape, ref.Jac.of(o.jacobian))
            m = o.weight > 0
            w, d, i = o.weight[m], o.image[m], im[m]
            out.append((i - d)*np.sqrt(w))
            num += (d*i*w).sum()
            den += (i*i*w).sum()
            mag += (np.abs(i)*np.abs(i - d)*w).sum()
    return np.concatenate(out), num, den, mag


def check_entries(mon, res, npars, name):
    for k in ENTRIES:
        mon.true(name, k in res, 'no entry', k)
    mon.true(name, np.shape(res['pars']) == (npars,) and np.shape(res['pars_err']) == (npars,)
             and np.shape(res['pars_cov']) == (npars, npars), 'shapes')
    mon.true(name, int(res['flags']) & ~BITS == 0, 'flags', res['flags'])


def check_success(mon, rng, res, mb, model, prior, n_prior, tight=True):
    pars, cov, err = np.array(res['pars']), np.array(res['pars_cov']), np.array(res['pars_err'])
    npars = pars.size
    nband = len(mb)
    mon.true('success-valid', np.isfinite(pars).all() and np.isfinite(cov).all() and np.isfinite(err).all()
             and (err >= 0).all(), pars, err)
    mon.close('success-valid', cov, cov.T, rtol=1e-7, scale=np.sqrt(np.outer(np.diag(cov), np.diag(cov))))
    d = np.sqrt(np.diag(cov))
    nd = cov/np.outer(d, d)
    ev = np.linalg.eigvalsh(0.5*(nd + nd.T))
    mon.true('success-valid', ev[0] > -1e-9, 'covariance eigenvalues', ev)
    mon.close('errors', err, d, rtol=1e-12)
    mon.true('success-valid', np.hypot(pars[2], pars[3]) < 1, pars[2:4])
    mon.close('blocks', res['g'], pars[2:4], rtol=0)
    mon.close('blocks', res['g_cov'], cov[2:4, 2:4], rtol=0)
    mon.close('blocks', res['g_err'], err[2:4], rtol=0)
    mon.close('blocks', [res['T'], res['T_err']], [pars[4], err[4]], rtol=1e-12)
    if model != 'coellip':
        n = NSHARED[model]
        if nband == 1:
            mon.close('blocks', [res['flux'], res['flux_err']], [pars[n], err[n]], rtol=1e-12)
        else:
            mon.close('blocks', res['flux'], pars[n:], rtol=0)
            mon.close('blocks', res['flux_err'], err[n:], rtol=1e-12)
            mon.close('blocks', res['flux_cov'], cov[n:, n:], rtol=0)
    # the data
    r, num, den, mag = data_resid(model, pars, mb)
    pc = prior_chi2(prior, pars)
    c2 = (r*r).sum() + pc
    tol = 1e-4*2*mag + 1e-7*c2 + 1e-7
    mon.close('lnprob', res['lnprob'], -0.5*c2, atol=tol, detail='tol %g' % tol)
    mon.true('dof', res['npix'] == r.size and res['dof'] == r.size - npars, res['npix'], res['dof'], r.size, npars)
    mon.close('chi2', res['chi2per'], c2/(r.size - npars), atol=2*tol/abs(r.size - npars))
    mon.close('s2n', res['s2n_numer'], num, rtol=1e-4, scale=den)
    mon.close('s2n', res['s2n_denom'], den, rtol=1e-4)
    mon.close('s2n', res['s2n_w'], num/np.sqrt(den) if den > 0 else 0.0, rtol=1e-4, scale=np.sqrt(den))
    mon.close('s2n', res['s2n'], res['s2n_w'], rtol=0)
    # evaluating elsewhere in between changes nothing
    f = np.array(res.calc_fdiff(pars))
    mon.close('residuals', f[n_prior:], r, rtol=2e-4, atol=2e-6*np.abs(r).max() + 1e-4*np.sqrt(den))
    mon.close('residuals', (f[:n_prior]**2).sum(), pc, rtol=1e-8, atol=1e-8)
    mon.true('residuals', f.size == n_prior + r.size, f.size)
    for _ in range(2):
        res.calc_lnprob(pars + err*rng.normal(size=npars))
        res.calc_fdiff(pars + err*rng.normal(size=npars))
    bad = pars.copy()
    bad[2] = 1.5
    # refused parameters have the lowest probability in both forms
    mon.true('residuals', (np.array(res.calc_fdiff(bad)) == -np.inf).all() and res.calc_lnprob(bad) == -np.inf,
             'invalid shape accepted')
    mon.same('residuals', np.array(res.calc_fdiff(pars)), f)
    mon.same('lnprob', float(res.calc_lnprob(pars)), float(res['lnprob']))
    mon.same('lnprob', float(res.calc_lnprob(pars, more=True)['lnprob']), float(res['lnprob']))
    # mixtures and images
    b = rng.randint(nband)
    e = rng.randint(len(mb[b]))
    o = mb[b][e]
    comp = ref.gmix_components(mixture(model, pars, b))
    mon.close('mixtures', ref.gmix_components(res.get_gmix(band=b)), comp, rtol=1e-12)
    conv = ref.convolve(comp, ref.gmix_components(o.psf.gmix)) if o.has_psf_gmix() else comp
    got = ref.gmix_components(res.get_convolved_gmix(band=b, obsnum=e))
    mon.close('mixtures', got, conv, rtol=1e-9, atol=1e-12)
    mon.close('mixtures', np.array(res.get_band_pars(pars, b)), band_pars(model, pars, b), rtol=0)
    e0 = ref.render(conv, o.image.shape, ref.Jac.of(o.jacobian))
    mon.close('images', res.make_image(band=b, obsnum=e), e0, rtol=1e-6, scale=abs(e0).max())
    return r, c2, tol


def objective(model, mb, prior, n_prior, p):
    r, num, den, mag = data_resid(model, p, mb)
    return (r*r).sum() + prior_chi2(prior, p)


def check_minimum(mon, res, mb, model, prior, n_prior, r, c2, tol, conf):
    """lower than at points around it, and with the covariance of its own residuals"""
    pars, cov = np.array(res['pars']), np.array(res['pars_cov'])
    npars = pars.size
    dof = r.size - npars
    s_sq = (r*r).sum()/dof
    d = np.sqrt(np.diag(cov))
    ev, vec = np.linalg.eigh(cov/np.outer(d, d))
    lim = 0.05*s_sq*npars + 3*conf['ftol']*c2 + 4*tol
    worst = 0
    for i in range(npars):
        if not ev[i] > 1e-6:
            continue
        for sign in (1, -1):
            p = pars + 0.5*sign*np.sqrt(ev[i])*vec[:, i]*d
            try:
                c = objective(model, mb, prior, n_prior, p)
            except GMixRangeError:
                continue
            if np.isnan(c):
                mon.event('minimum: nothing there')
                continue
            worst = max(worst, (c2 - c)/lim)
            mon.true('minimum', c2 - c < lim, 'half an error away along', i, 'chi2 is lower by', c2 - c, 'limit', lim,
                     's_sq', s_sq)
    # covariance
    J = np.zeros((r.size + n_prior, npars))
    for i in range(npars):
        h = 0.02*d[i]
        a, b = pars.copy(), pars.copy()
        a[i] += h
        b[i] -= h
        try:
            J[:, i] = (np.array(res.calc_fdiff(a)) - np.array(res.calc_fdiff(b)))/(2*h)
        except GMixRangeError:
            return worst
        ra, rb = data_resid(model, a, mb)[0], data_resid(model, b, mb)[0]
        J[n_prior:, i] = (ra - rb)/(2*h)
    if not np.isfinite(J).all():
        return worst
    A = J.T @ J
    sc = np.sqrt(np.diag(A))
    An = A/np.outer(sc, sc)
    if np.linalg.cond(An) > 1e4 or d[2:4].max() > 0.2:
        mon.event('covariance: ill conditioned')
        return worst
    C = np.linalg.inv(An)/np.outer(sc, sc)*s_sq
    dd = np.sqrt(np.diag(C))
    lim = 0.4 if model in ('bd', 'bdf', 'coellip', 'dev') else 0.12
    off = np.abs(cov - C)/np.outer(dd, dd)
    if (off > lim).any():
        # a forward difference over 1e-8 can cross a step of the fast exponential (1e-5 high), which
        # makes one column of the optimiser's jacobian, and so one parameter, look far better
        # measured than it is; with that parameter fixed the others have to agree
        for i in range(npars):
            k = [j for j in range(npars) if j != i]
            c1 = cov[np.ix_(k, k)] - np.outer(cov[k, i], cov[k, i])/cov[i, i]
            c2_ = np.linalg.inv(An[np.ix_(k, k)])/np.outer(sc[k], sc[k])*s_sq
            d2 = np.sqrt(np.diag(c2_))
            if cov[i, i] < 0.9*C[i, i] and (np.abs(c1 - c2_)/np.outer(d2, d2) < 0.5*lim).all():
                mon.event('covariance: derivative over a step')
                return worst
        # the optimiser's jacobian is that of the last point but one: where the derivatives change a lot within a
        # small part of an error it need not be that of the last point
        J2 = np.zeros((r.size, npars))
        for i in range(npars):
            a, b = pars.copy(), pars.copy()
            a[i] += 0.1*d[i]
            b[i] -= 0.1*d[i]
            try:
                J2[:, i] = (data_resid(model, a, mb)[0] - data_resid(model, b, mb)[0])/(0.2*d[i])
            except GMixRangeError:
                return worst
        A2 = J2.T @ J2 + J[:n_prior].T @ J[:n_prior]
        C2 = np.linalg.inv(A2/np.outer(sc, sc))/np.outer(sc, sc)*s_sq
        if not (np.abs(C2 - C)/np.outer(dd, dd) < 0.2*lim).all():
            mon.event('covariance: far from linear')
            return worst
    mon.close('covariance', cov/np.outer(dd, dd), C/np.outer(dd, dd), rtol=0.0, atol=lim)
    return worst


def fits(mon, rng, idx):
    model = gen.pick(rng, MODELS)
    nband = 1 if model == 'coellip' else rng.randint(1, 4)
    s = gen.loguni(rng, 0.15, 1.5)
    ngauss = rng.randint(1, 3)
    true = truth(rng, model, nband, s, ngauss)
    dopsf = rng.randint(2) == 1
    s2n = gen.loguni(rng, 15, 2000)
    mb = make_data(rng, model, nband, s, true, dopsf, s2n)
    bounds = rng.randint(2) == 1
    prior = make_prior(rng, model, nband, s, true, bounds, ngauss) if (rng.uniform() < 0.6 or model in ('bd', 'bdf')) else None
    conf = dict(maxfev=4000, ftol=1e-5, xtol=1e-5)
    if rng.uniform() < 0.3:
        conf.update(ftol=1e-8, xtol=1e-8)
    amp = gen.pick(rng, [0.01, 0.1, 0.2])
    guess = true.copy()
    guess[:2] += amp*s*rng.uniform(-1, 1, size=2)
    guess[2:4] = guess[2:4]*(1 - amp*rng.uniform()) + 0.2*amp*rng.uniform(-1, 1, size=2)
    guess[4:] *= 1 + amp*rng.uniform(-1, 1, size=guess.size - 4)
    obs = mb
    if nband == 1:
        k = rng.randint(3)
        if k == 1:
            obs = mb[0]
        elif k == 2 and len(mb[0]) == 1:
            obs = mb[0][0]
    mon.describe(model=model, nband=nband, epochs=[len(ol) for ol in mb], psf=dopsf, s2n=s2n, prior=prior is not None,
                 bounds=bool(prior is not None and prior.bounds is not None), amp=amp, **conf)
    before = snap.snap([obs, guess])
    kw = {} if conf['ftol'] == 1e-5 and rng.randint(2) else dict(fit_pars=conf)
    if model == 'coellip':
        fitter = CoellipFitter(ngauss=ngauss, prior=prior, **kw)
    else:
        fitter = Fitter(model=model, prior=prior, **kw)
    n_prior = 0
    if prior is not None:
        n_prior = 3 + 2*ngauss if model == 'coellip' else NSHARED[model] - 1 + nband
    g2 = guess.copy()
    res = fitter.go(obs, g2)
    d = snap.diff_snap(before, snap.snap([obs, g2]))
    mon.true('inputs-kept', d is None, d)
    check_entries(mon, res, true.size, 'entries')
    mon.true('entries', res['model'] == model, res['model'])
    mon.event('%s flags %d' % (model, res['flags']))
    if prior is not None and prior.bounds is not None:
        mon.true('bounds', len(prior.bounds) == true.size, 'bounds', len(prior.bounds))
        if res['flags'] == 0:
            for p, (lo, hi) in zip(res['pars'], prior.bounds):
                mon.true('bounds', (lo is None or p >= lo - 1e-12*abs(lo)) and (hi is None or p <= hi + 1e-12*abs(hi)),
                         'parameter', p, 'outside', lo, hi)
    if res['flags'] != 0:
        return
    r, c2, tol = check_success(mon, rng, res, mb, model, prior, n_prior)
    if s2n > 40 and np.hypot(*res['pars'][2:4]) < 0.9:
        edge = False
        if prior is not None and prior.bounds is not None:
            for p, (lo, hi) in zip(res['pars'], prior.bounds):
                if lo is not None:
                    edge = edge or p - lo < 0.02*(hi - lo) and p - lo < abs(lo) or hi - p < 0.02*(hi - lo)
        if edge:
            mon.event('at a bound')
            return
        w = check_minimum(mon, res, mb, model, prior, n_prior, r, c2, tol, conf)
        mon.event('minimum: %.0e of the limit' % 10.0**np.ceil(np.log10(w + 1e-6)))
        # a noisy minimum near the truth
        if model in ('gauss', 'turb', 'exp', 'dev') and prior is None and dopsf and amp < 0.15:
            z = (np.array(res['pars']) - true)/np.array(res['pars_err'])
            mon.true('near-truth', (np.abs(z) < 9).all(), 'pars off by', z, 'errors')


def degenerate(mon, rng, idx):
    """fits that cannot work say so, in the usual form"""
    model = gen.pick(rng, ['gauss', 'exp', 'dev', 'turb', 'bdf'])
    kind = gen.pick(rng, ['blank', 'noise', 'few', 'maxfev', 'nan', 'inf', 'negative', 'exact-dof', 'far', 'huge', 'nanprior'])
    s = gen.loguni(rng, 0.2, 1.0)
    true = truth(rng, model, 1, s)
    n = true.size
    dims = (rng.randint(12, 20), rng.randint(12, 20))
    if kind == 'few':
        dims = (2, 2)
    if kind == 'exact-dof':
        dims = (1, n)
    jac, _ = gen.jacob(rng, dims, scale=s, kind='diag')
    im = mixture(model, true).make_image(dims, jacobian=jac)
    sig = max(abs(im).max(), 1e-10)*0.05
    im = im + sig*rng.normal(size=dims)
    if kind == 'blank':
        im = im*0
    if kind == 'noise':
        im = sig*rng.normal(size=dims)
    if kind == 'negative':
        im = -im
    if kind in ('nan', 'inf'):
        im[rng.randint(dims[0]), rng.randint(dims[1])] = np.nan if kind == 'nan' else np.inf
    if kind == 'huge':
        im = im*1e200
    obs = ngmix.Observation(im, weight=np.full(dims, 1/sig**2), jacobian=jac)
    prior = make_prior(rng, model, 1, s, true) if rng.randint(2) or kind == 'nanprior' else None
    if kind == 'nanprior':
        prior.T_prior = ngmix.priors.Normal(np.nan, 1.0, rng=np.random.RandomState(1))
    conf = dict(maxfev=4000, ftol=1e-5, xtol=1e-5)
    if kind == 'maxfev':
        conf['maxfev'] = int(rng.randint(1, 12))
    guess = true*(1 + 0.05*rng.normal(size=n))
    if kind == 'far':
        guess[:2] += 100*s
    mon.describe(model=model, kind=kind, dims=dims, prior=prior is not None, conf=conf)
    nprior = 0 if prior is None else n
    res = Fitter(model=model, prior=prior, fit_pars=conf).go(obs, guess)
    if im.size + nprior < n:
        mon._count('few residuals')
    mon.event('%s flags %d' % (kind, res['flags']))
    check_entries(mon, res, n, 'failed-entries')
    if kind in ('nan', 'nanprior', 'inf'):
        mon.true('failed-entries', res['flags'] != 0, 'success with', kind)
    if kind == 'maxfev' and conf['maxfev'] <= n:
        mon.true('failed-entries', res['flags'] != 0, 'success after', conf['maxfev'], 'evaluations')
    if kind in ('few', 'exact-dof') and im.size <= n:
        mon.true('failed-entries', res['flags'] != 0, 'success without degrees of freedom')
    if res['flags'] == 0:
        mon.true('success-valid', np.isfinite(res['pars']).all() and np.isfinite(res['pars_cov']).all()
                 and np.isfinite(res['pars_err']).all() and (np.array(res['pars_err']) >= 0).all(), kind, res['pars_err'])
        for k in ('g', 'g_cov', 'g_err', 'T', 'T_err', 'flux', 'flux_err', 'chi2per', 'dof', 's2n', 's2n_w', 'lnprob', 'npix'):
            mon.true('success-valid', k in res, 'no', k)
    # wrong guesses
    wrong = guess.copy()
    wrong[2] = gen.pick(rng, [1.0, -1.2, 5.0])
    mon.raises('bad-guess', GMixRangeError, Fitter(model=model).go, obs, wrong)
    mon.raises('bad-guess', AssertionError, Fitter(model=model).go, obs, guess[:-1])
    mon.raises('bad-guess', AssertionError, Fitter(model=model).go, obs, np.array(list(guess) + [1.0]))


def evaluate(mon, rng, idx):
    """probabilities, residuals, mixtures and statistics at given parameters, without a fit: many bands and epochs,
    stamps of any size, any units, priors that dominate the data"""
    model = gen.pick(rng, MODELS)
    nband = 1 if model == 'coellip' else int(gen.pick(rng, [1, 2, 3, 4, 5, 6, 8]))
    maxep = int(gen.pick(rng, [1, 2, 3, 6, 9]))
    s = gen.loguni(rng, 1e-3, 1e2)
    ngauss = rng.randint(1, 4)
    true = truth(rng, model, nband, s, ngauss)
    nf = ngauss if model == 'coellip' else nband
    true[-nf:] *= gen.loguni(rng, 1e-9, 1e9)
    dopsf = rng.randint(2) == 1
    big = [rng.uniform() < 0.15]

    def dimsf(r):
        if big[0] and r.randint(3) == 0:
            big[0] = False
            return gen.pick(r, [(r.randint(60, 110), r.randint(60, 110)), (2, r.randint(2500, 2700)), (r.randint(2500, 2700), 3)])
        return (r.randint(3, 15), r.randint(3, 15))
    mb = make_data(rng, model, nband, s, true, dopsf, gen.loguni(rng, 0.5, 1e4), maxep=maxep, dimsf=dimsf,
                   wkinds=('const', 'vary', 'zeros', 'one', 'neg'))
    prior = make_prior(rng, model, nband, s, true, rng.randint(2) == 1, ngauss) if rng.randint(3) else None
    strong = prior is not None and rng.randint(3) == 0
    if strong:
        r = np.random.RandomState(3)
        prior.cen_prior = ngmix.priors.CenPrior(0.0, 0.0, *(s*10.0**rng.uniform(-4, -1, size=2)), rng=r)
    n_prior = 0
    if prior is not None:
        n_prior = 3 + 2*ngauss if model == 'coellip' else NSHARED[model] - 1 + nband
    guess = true.copy()
    mon.describe(model=model, nband=nband, epochs=[len(ol) for ol in mb], psf=dopsf, scale=s, prior=prior is not None,
                 strong=strong, size=max(o.image.size for ol in mb for o in ol))
    obs = mb
    if nband == 1 and rng.randint(2):
        obs = mb[0]
    before = snap.snap([obs, guess])
    if model == 'coellip':
        fm = ngmix.fitting.CoellipFitModel(obs=obs, ngauss=ngauss, guess=guess, prior=prior)
    else:
        fm = ngmix.fitting.FitModel(obs=obs, model=model, guess=guess, prior=prior)
    if prior is not None and prior.bounds is not None:
        mon.true('bounds', fm.bounds is not None and [tuple(b) for b in fm.bounds] == [tuple(b) for b in prior.bounds], fm.bounds,
                 prior.bounds)
        mon._count('evaluate-bounds')
    else:
        mon.true('bounds', fm.bounds is None, fm.bounds)
    n = true.size
    for k in range(2):
        p = true*(1 + 0.2*rng.uniform(-1, 1, size=n))
        p[:2] += 0.3*s*rng.normal(size=2)
        p[2:4] = gen.disk(rng, 0.8)
        r, num, den, mag = data_resid(model, p, mb)
        pc = prior_chi2(prior, p)
        c2 = (r*r).sum() + pc
        tol = 2e-4*mag + 1e-7*c2 + 1e-7
        if k == 1 and not np.isfinite(pc):
            mon.event('evaluate: outside the prior')
            mon.true('residuals', fm.calc_lnprob(p) == -np.inf, 'outside the prior')
            continue
        if not np.isfinite(pc):
            continue
        f = np.array(fm.calc_fdiff(p))
        mon.true('residuals', f.size == n_prior + r.size, f.size, n_prior, r.size)
        mon.close('residuals', f[n_prior:], r, rtol=2e-4, atol=2e-6*np.abs(r).max() + 1e-4*np.sqrt(den))
        mon.close('residuals', (f[:n_prior]**2).sum(), pc, rtol=1e-8, atol=1e-8)
        more = fm.calc_lnprob(p, more=True)
        mon.close('lnprob', more['lnprob'], -0.5*c2, atol=tol)
        mon.close('lnprob', fm.calc_lnprob(p), -0.5*c2, atol=tol)
        mon.close('s2n', more['s2n_numer'], num, rtol=1e-4, scale=den)
        mon.close('s2n', more['s2n_denom'], den, rtol=1e-4)
        mon.true('dof', more['npix'] == r.size, more['npix'], r.size)
        for b in range(nband):
            mon.close('mixtures', np.array(fm.get_band_pars(p, b)), band_pars(model, p, b), rtol=0)
    # a result put in
    p = true*1.01
    p[2:4] = true[2:4]
    if not np.isfinite(prior_chi2(prior, p)):
        return
    A = rng.normal(size=(n, n))*0.01
    d = np.abs(p) + s*0.1
    cov = (A @ A.T + 1e-4*np.identity(n))*np.outer(d, d)
    ndat = sum((o.weight > 0).sum() for ol in mb for o in ol)
    if ndat == n:
        mon.event('evaluate: no degrees of freedom')
        return
    fm.set_fit_result(dict(flags=0, pars=p.copy(), pars_cov=cov.copy(), pars_err=np.sqrt(np.diag(cov)), pars_cov0=cov*2,
                           nfev=3, ier=1, errmsg=''))
    check_success(mon, rng, fm, mb, model, prior, n_prior)
    for b in range(nband):
        for e, o in enumerate(mb[b]):
            comp = ref.gmix_components(mixture(model, p, b))
            mon.close('mixtures', ref.gmix_components(fm.get_gmix(band=b)), comp, rtol=1e-12)
            conv = ref.convolve(comp, ref.gmix_components(o.psf.gmix)) if o.has_psf_gmix() else comp
            mon.close('mixtures', ref.gmix_components(fm.get_convolved_gmix(band=b, obsnum=e)), conv, rtol=1e-9,
                      scale=np.abs(conv).max(axis=0))
            e0 = ref.render(conv, o.image.shape, ref.Jac.of(o.jacobian))
            mon.close('images', fm.make_image(band=b, obsnum=e), e0, rtol=1e-6, scale=abs(e0).max())
    mon._count('evaluated')
    dd = snap.diff_snap(before, snap.snap([obs, guess]))
    mon.true('inputs-kept', dd is None, dd)


WORKLOADS = [
    Workload('evaluate', evaluate, 500, 12000),
    Workload('fits', fits, 500, 8000, warm=2),
    Workload('degenerate', degenerate, 400, 4000),
]
