"""Gaussian aperture fluxes against the analytic integral and against a numerical one."""
import numpy as np
import ngmix
from ngmix.gaussap import get_gaussap_flux
from ngmix.gmix import GMixModel, GMixCM
from ngmix.flags import NO_ATTEMPT, GMIX_RANGE_ERROR
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P27'
RULE = """mixtures (random full ones, all models) with apertures much smaller to much larger than them, the size stated as width,
sigma or T, against the closed formula and, for a part, against a sum over a fine pixel grid; catalogues of 1 to 6 objects in 1 to 4
bands of every model with valid, invalid (outside the unit disk, not finite) and masked objects mixed; cases differ by model,
number of objects and bands, invalid objects and aperture"""
REQUIRED = ['analytic', 'numerical', 'stated', 'catalogue', 'flagged', 'masked', 'undisturbed', 'shape', 'inputs-kept', 'no-size',
            'limits', 'mask refused', 'model exp', 'model cm', 'model bdf', 'model dev', 'model gauss', 'model turb']


def analytic(comp, sigma):
    f = 0.0
    for p, row, col, irr, irc, icc in comp:
        # the integral of the product of two gaussians of the same centre
        d = irr*icc - irc*irc
        f += p*np.sqrt(1/((1 + irr/sigma**2)*(1 + icc/sigma**2) - (irc/sigma**2)**2)) if d > 0 else p
    return f


def single(mon, rng, idx):
    if rng.randint(2):
        gm, comp = gen.full_gmix(rng, Tmin=1e-2, Tmax=100, gmax=0.95, signs=True)
        name = 'full'
    else:
        gm, name, _ = gen.model_gmix(rng, T=gen.loguni(rng, 1e-2, 100), gmax=0.95, cen=50)
        comp = ref.gmix_components(gm)
    if rng.randint(2):
        f = gen.loguni(rng, 0.1, 100)
        gm.set_flux(f)
        comp = ref.gmix_components(gm)
    if rng.randint(3) == 0:
        gm.make_image((5, 5))
    fwhm = gen.loguni(rng, 1e-2, 100)
    sigma = fwhm/(2*np.sqrt(2*np.log(2)))
    mon.describe(kind=name, n=len(gm), fwhm=fwhm)
    before = snap.snap(gm)
    want = analytic(comp, sigma)
    sc = np.abs(comp[:, 0]).sum()
    kind = rng.randint(3)
    got = [gm.get_gaussap_flux(fwhm=fwhm), gm.get_gaussap_flux(sigma=sigma), gm.get_gaussap_flux(T=2*sigma**2)]
    mon.close('analytic', got[0], want, rtol=1e-8, atol=1e-9*min(sc, abs(want) + sc*1e-3))
    mon.close('stated', got, [want]*3, rtol=1e-8, atol=1e-9*sc)
    mon.true('inputs-kept', snap.diff_snap(before, snap.snap(gm)) is None)
    if (comp[:, 0] > 0).all():
        mon.true('limits', 0 < got[0] <= comp[:, 0].sum()*(1 + 1e-9), got[0])
        mon.close('limits', gm.get_gaussap_flux(fwhm=1e6), comp[:, 0].sum(), rtol=1e-6)
    mon.raises('no-size', ValueError, gm.get_gaussap_flux)
    if idx % 10 == 0:
        # a pixel sum
        g = gen.disk(rng, 0.6)
        T = gen.loguni(rng, 1, 20)
        fl = rng.uniform(0.5, 5)
        one = ngmix.GMixModel([rng.normal(), rng.normal(), g[0], g[1], T, fl], 'gauss')
        s = gen.loguni(rng, 0.5, 5)
        c = ref.gmix_components(one)
        h = 0.1*min(s, np.sqrt(np.linalg.eigvalsh([[c[0, 3], c[0, 4]], [c[0, 4], c[0, 5]]])[0]))*2
        n = int(6*min(s, np.sqrt(T))/h) + 3
        x = h*np.arange(-n, n + 1)
        v, u = np.meshgrid(x, x, indexing='ij')
        W = np.exp(-0.5*(v**2 + u**2)/s**2)
        I = ref.eval_components(c, v + c[0, 1], u + c[0, 2])
        mon.close('numerical', one.get_gaussap_flux(sigma=s), (W*I).sum()*h*h, rtol=2e-4)


def bad_value(rng, p, model):
    """an invalid object; returns what is wrong"""
    k = gen.pick(rng, ['g', 'g', 'g1', 'nan', 'inf', 'nan-flux', 'nan-T', 'inf-T'])
    if k == 'g':
        t = rng.uniform(0, 2*np.pi)
        r = gen.pick(rng, [1.0000001, 1.2, 30.0])
        p[2], p[3] = r*np.cos(t), r*np.sin(t)
    elif k == 'g1':
        p[2], p[3] = 1.0, 0.0
    elif k == 'nan':
        p[rng.randint(4)] = np.nan
    elif k == 'inf':
        p[rng.randint(2, 4)] = np.inf
    elif k == 'nan-flux':
        p[-1:] = np.nan
    elif k == 'nan-T':
        p[4] = np.nan
    else:
        p[4] = np.inf
    return k


def catalogue(mon, rng, idx):
    model = gen.pick(rng, ['exp', 'dev', 'gauss', 'turb', 'cm', 'bdf'])
    mon.event('model ' + model)
    n, nband = rng.randint(1, 7), rng.randint(1, 5) if rng.randint(6) else rng.randint(5, 8)
    ns = 6 if model == 'bdf' else 5
    pars = np.zeros((n, ns + nband))
    for i in range(n):
        g = gen.disk(rng, 0.95)
        pars[i, :5] = [rng.normal(), rng.normal(), g[0], g[1], gen.loguni(rng, 1.01e-4, 1e-2) if rng.randint(4) == 0 else gen.loguni(rng, 1e-3, 100)]
        if model == 'bdf':
            pars[i, 5] = rng.uniform(0, 1)
        pars[i, ns:] = [gen.loguni(rng, 0.1, 1e3)*gen.pick(rng, [1, 1, -1]) for _ in range(nband)]
    fracdev, TdByTe = rng.uniform(0, 1, size=n), np.exp(rng.uniform(-1, 1, size=n))
    good = pars.copy()
    bads = [None]*n
    for i in range(n):
        if rng.uniform() < 0.25:
            bads[i] = bad_value(rng, pars[i], model)
    mask = None
    if rng.randint(2):
        mask = rng.uniform(size=n) < 0.7
    fwhm = gen.loguni(rng, 0.1, 30) if rng.randint(3) else gen.loguni(rng, 3e-3, 0.1)
    sigma = fwhm/(2*np.sqrt(2*np.log(2)))
    kw = {}
    if model == 'cm':
        kw = dict(fracdev=fracdev, TdByTe=TdByTe)
        if n > 1 and rng.uniform() < 0.2:
            i = rng.randint(n)
            k = rng.randint(5)
            if k < 2:
                gen.pick(rng, [fracdev, TdByTe])[i] = gen.pick(rng, [np.nan, np.inf, -np.inf])
            elif k == 2:
                TdByTe[i] = -gen.loguni(rng, 0.1, 10)
            else:
                # no size: the exponential has none either
                fracdev[i], TdByTe[i] = 1.0, 0.0
            bads[i] = 'bad-cm' if k != 2 else 'negative-cm'
    if mask is not None:
        kw['mask'] = gen.pick(rng, [mask, mask.astype('i4'), list(mask), mask*4, mask*0.25])
    if rng.randint(2):
        kw['verbose'] = False
    mon.describe(model=model, n=n, nband=nband, bads=bads, mask=None if mask is None else mask.sum(), fwhm=fwhm)
    arg = pars.copy()
    if n == 1 and rng.randint(2):
        arg = arg[0]
    elif rng.randint(3) == 0:
        arg = np.asfortranarray(arg)
    before = snap.snap([arg, kw])
    flux, flags = mon.returns('catalogue', get_gaussap_flux, arg, model, fwhm, **kw)
    mon.true('inputs-kept', snap.diff_snap(before, snap.snap([arg, kw])) is None, 'arguments changed')
    mon.true('shape', flux.shape == (n, nband) and flags.shape == (n, nband), flux.shape, flags.shape)
    for i in range(n):
        for b in range(nband):
            f, fl = flux[i, b], flags[i, b]
            mon.true('flagged', np.isnan(f) == (fl != 0), 'flux and flag of object', i, bads[i], f, fl)
            if bads[i] == 'negative-cm' and (mask is None or mask[i]):
                # no such object: either it is flagged or what it has is finite
                continue
            if mask is not None and not mask[i]:
                mon.true('masked', fl == NO_ATTEMPT and np.isnan(f), f, fl)
                continue
            if bads[i] is not None and not (bads[i] == 'nan-flux' and b < nband - 1):
                mon.true('flagged', fl == GMIX_RANGE_ERROR and np.isnan(f), 'invalid object', bads[i], f, fl)
                continue
            bp = np.array(list(good[i, :ns]) + [good[i, ns + b]])
            if model == 'cm':
                gm = GMixCM(fracdev[i], TdByTe[i], bp)
            elif model == 'bdf':
                gm = GMixModel(bp, 'bdf')
            else:
                gm = GMixModel(bp, model)
            comp = ref.gmix_components(gm)
            want = analytic(comp, sigma)
            mon.close('catalogue', f, want, rtol=1e-7, atol=1e-9*np.abs(comp[:, 0]).sum(), detail='object %d band %d' % (i, b))
            mon.true('catalogue', fl == 0, 'flag', fl)
            if any(bads) or mask is not None:
                mon._count('undisturbed')
    # linear in the flux of its own band only
    if not any(bads):
        b = rng.randint(nband)
        p2 = pars.copy()
        p2[:, ns + b] *= 2
        f2, _ = get_gaussap_flux(p2, model, fwhm, **kw)
        w = np.ones(nband)
        w[b] = 2
        mon.close('catalogue', f2, flux*w, rtol=1e-9)
    mon.raises('mask refused', AssertionError, get_gaussap_flux, pars, model, fwhm, mask=np.ones(n + 1, dtype=bool),
               fracdev=fracdev, TdByTe=TdByTe)


WORKLOADS = [Workload('single', single, 2000, 30000), Workload('catalogue', catalogue, 1500, 30000)]
