"""P24 measuring changes neither its inputs nor anything outside its own generator, and always gives the same answer

A catalogue of operations (every measurement entry point) runs on one set of shared inputs.  Monitors: snapshots of all inputs before and
after every call, of the global random states of numpy and random, and comparison bit for bit of every result with the first one, for
repeated calls, other histories, other (equal) inputs, an idle or busy global generator, and calls from several threads at once.
"""
import random
import sys
import threading
import traceback

import numpy as np
import galsim
import ngmix
from ngmix.fitting import (Fitter, CoellipFitter, PSFFluxFitter, GalsimFitter, GalsimSpergelFitter, GalsimMoffatFitter, GalsimPSFFluxFitter)
from ngmix.admom import AdmomFitter, run_admom
from ngmix.em import EMFitter, EMFitterFixCen, EMFitterFluxOnly, run_em
from ngmix.em.em import EMFitterFixCov
from ngmix.gaussmom import GaussMom
from ngmix.prepsfmom import PGaussMom, PrePSFGaussMom, PrePSFMom
from ngmix.ksigmamom import KSigmaMom
from ngmix import guessers as G, joint_prior as J, priors as P
from ngmix.runners import Runner, PSFRunner
from ngmix.bootstrap import Bootstrapper
from ngmix.metacal import get_all_metacal, MetacalBootstrapper
from ngmix.simobs import simulate_obs
from ngmix.observation import make_kobs
from ngmix.gaussap import get_gaussap_flux
from ngmix.gmix_ndim import GMixND
from vlib import gen, snap
from vlib.core import Workload, load_known

PROP = 'P24'
RULE = """single: one operation on shared inputs run repeatedly, with the caller's global generator seeded differently, on equal inputs
built anew, on the same inputs after they were copied. history: random sequences of up to thirty operations on the same inputs, every
result compared with the first for that operation and generator seed. threads: the same from two to eight threads with a switch
interval of microseconds. caching: history with caches switched on and off at random. Operations: rendering, likelihoods,
moments, adaptive moments, EM, maximum-likelihood fits of all kinds, galsim fits, psf fluxes, pre-psf moments, metacal, simulated
observations, guessers, runners, bootstrappers, priors. A case differs by inputs and the sequence of operations."""
REQUIRED = ['inputs-kept', 'global-rng', 'repeat', 'equal inputs', 'history', 'threads', 'arguments', 'metacal types', 'caching', 'independent',
            'generator position', 'reuse']


def prior_simple(rs, s=1.0, nband=1, bd=None):
    cen = P.CenPrior(0.0, 0.0, s, s, rng=rs)
    g = P.GPriorBA(0.3, rng=rs)
    T = P.FlatPrior(-10*s*s, 1e3*s*s, rng=rs)
    F = [P.FlatPrior(-1e6, 1e9, rng=rs) for _ in range(nband)]
    fd = P.Normal(0.5, 0.1, rng=rs)
    if bd == 'bdf':
        return J.PriorBDFSep(cen, g, T, fd, F)
    if bd == 'bd':
        return J.PriorBDSep(cen, g, T, P.Normal(0.0, 0.3, rng=rs), fd, F)
    if bd == 'spergel':
        return J.PriorSpergelSep(cen, g, P.FlatPrior(0.1*s, 20*s, rng=rs), P.FlatPrior(-0.8, 3, rng=rs), F)
    if bd == 'coellip':
        return J.PriorCoellipSame(2, cen, g, T, F[0])
    return J.PriorSimpleSep(cen, g, T, F)


class Inputs(object):
    """everything the operations get, all of it shared"""

    def __init__(self, rng, obsonly=False):
        self.s = s = float(gen.pick(rng, [0.2, 0.263, 1.0]))
        kw = dict(dims=(25, 27), scale=s, T=6.0, noise=0.005, cen=0.3, wkind=None)
        self.obs, info = gen.obs(rng, model='gauss', **dict(kw, wkind=gen.pick(rng, ['const', 'vary', 'zeros'])))
        self.wide, _ = gen.obs(rng, **dict(kw, wkind='neg'))
        self.mb, _ = gen.mbobs(rng, nband=2, nepoch=2, **dict(kw, wkind='const', model='exp'))
        self.ol = self.mb[0]
        self.kobs = make_kobs(self.mb)
        self.gm, self.gmcomp = gen.full_gmix(rng, n=3, scale=s)
        self.psfgm, _ = gen.full_gmix(rng, n=2, scale=s, spread=0.0)
        self.gmmpars = [0.1*s, -0.1*s, 0.1, 0.2, 7*s*s, 100.0]
        self.gmm = ngmix.GMixModel(self.gmmpars, 'dev')
        self.jac, _ = gen.jacob(rng, (20, 20), scale=s)
        F = float(np.sum(np.array(self.obs.image)))*self.obs.jacobian.area
        self.flux = F
        self.guess = np.array([0.01*s, -0.02*s, 0.05, 0.03, 5*s*s, abs(F)])
        self.mbguess = np.array([0.01*s, -0.02*s, 0.05, 0.03, 5*s*s, 10.0, 12.0])
        self.bdfguess = np.array([0.01*s, -0.02*s, 0.05, 0.03, 5*s*s, 0.5, 10.0, 12.0])
        self.bdguess = np.array([0.01*s, -0.02*s, 0.05, 0.03, 5*s*s, 0.1, 0.5, 10.0, 12.0])
        self.coguess = np.array([0.0, 0.0, 0.05, 0.03, 3*s*s, 9*s*s, abs(F)/2, abs(F)/2])
        self.gsguess = np.array([0.01*s, 0.02*s, 0.05, 0.03, 1.5*s, 10.0, 12.0])
        self.spguess = np.array([0.01*s, 0.02*s, 0.05, 0.03, 1.5*s, 0.6, 10.0, 12.0])
        self.moguess = np.array([0.01*s, 0.02*s, 0.05, 0.03, 1.5*s, 3.0, 10.0, 12.0])
        self.gmguess = ngmix.GMixModel([0.02*s, 0.0, 0.05, -0.05, 9*s*s, 1.0], 'gauss')
        c = gen.full_gmix_pars(rng, n=2, spread=0.3, scale=s, Tmin=3, Tmax=15, gmax=0.3)
        c[:, 0] = abs(F)/2
        self.emguess = ngmix.GMix(pars=c.ravel())
        self.lmpars = dict(maxfev=300, ftol=1e-5, xtol=1e-5)
        self.short = dict(maxfev=25, ftol=1e-3, xtol=1e-3)
        rs = np.random.RandomState(rng.randint(2**31))
        self.prior1 = prior_simple(rs, s)
        self.prior2 = prior_simple(rs, s, 2)
        self.priorbdf = prior_simple(rs, s, 2, 'bdf')
        self.priorbd = prior_simple(rs, s, 2, 'bd')
        self.priorco = prior_simple(rs, s, 1, 'coellip')
        self.bounds = [(None, None), (-5.0*s, 5.0*s), (None, None), (None, None), (-1.0, 1e3), (None, 1e7)]
        self.parray = np.array([[0.0, 0.0, 0.1, -0.05, 4.0, 100.0], [0, 0, 0, 0, 0.0, 50.0], [0, 0, .3, .1, 9.0, np.nan], [0, 0, 0, .2, 3., -5]])
        self.types = ['noshear', '1p', '1m', '2p', '2m']
        self.types2 = ['1p', '2m']
        self.conf = dict(maxiter=100, tol=1e-4)
        # metacal works best with a centred, well sampled psf
        jac = ngmix.DiagonalJacobian(row=17.0, col=17.0, scale=s)
        pj = ngmix.DiagonalJacobian(row=14.0, col=14.0, scale=s)
        p = galsim.Moffat(beta=3.5, fwhm=3.2*s).shear(g1=0.02, g2=-0.01)
        gal = galsim.Exponential(half_light_radius=2.0*s, flux=50.0).shear(g1=0.1, g2=0.05).shift(0.3*s, -0.2*s)
        sig = 0.01

        def mk(noise=True):
            im = galsim.Convolve(gal, p).drawImage(nx=35, ny=35, scale=s).array.astype('f8')
            im += rng.normal(size=im.shape)*sig
            pim = p.drawImage(nx=29, ny=29, scale=s).array.astype('f8')
            kw = dict(noise=rng.normal(size=im.shape)*sig) if noise else {}
            w = np.full(im.shape, 1/sig**2)
            w[3, 4] = 0
            return ngmix.Observation(im, weight=w, jacobian=jac, bmask=np.zeros(im.shape, 'i4'), meta={'m': [1]},
                                     psf=ngmix.Observation(pim, weight=np.full(pim.shape, 1e6), jacobian=pj), **kw)
        self.mc = mk()
        self.mcb = ngmix.MultiBandObsList()
        for _ in range(2):
            ol = ngmix.ObsList()
            ol.append(mk())
            self.mcb.append(ol)
        self.gspsf = galsim.Gaussian(fwhm=4.2*s)
        self.np = rng.normal(size=(30, 30)) + 3.0
        self.means = rng.normal(size=(3, 2))
        self.covars = np.array([np.diag(rng.uniform(0.5, 2, size=2)) for _ in range(3)])
        self.weights = np.array([0.25, 0.25, 0.5])
        self.x = rng.normal(size=(10, 2))

    def frozen(self):
        return snap.snap({k: v for k, v in vars(self).items()})


def res(r):
    """a comparable form of a result"""
    if isinstance(r, dict):
        out = {k: r[k] for k in r}
        for n in ('_gm', '_data'):
            if hasattr(r, n):
                out[n] = getattr(r, n)
        if hasattr(r, 'get_gmix') and r.get('flags', 1) == 0 and 'numiter' in r:
            out['gmix'] = r.get_gmix()
        return out
    return r


OPS = {}
GALSIM = set()


def op(name, gs=False):
    def f(func):
        OPS[name] = func
        if gs:
            GALSIM.add(name)
        return func
    return f


OPS['image'] = lambda i, rs: i.gm.make_image((20, 21), jacobian=i.jac)
OPS['image-fast'] = lambda i, rs: i.gmm.make_image((20, 21), jacobian=i.jac, fast_exp=True)
OPS['convolve'] = lambda i, rs: i.gm.convolve(i.psfgm)
OPS['convolved-image'] = lambda i, rs: i.gmm.convolve(i.psfgm).make_image((15, 15), jacobian=i.jac)
OPS['sheared'] = lambda i, rs: i.gm.get_sheared(0.02, -0.01)
OPS['loglike'] = lambda i, rs: i.gm.get_loglike(i.obs)
OPS['loglike-more'] = lambda i, rs: i.gmm.get_loglike(i.obs, more=True)
OPS['s2n'] = lambda i, rs: i.gmm.get_model_s2n(i.obs)
OPS['s2n-sum'] = lambda i, rs: i.gmm.get_model_s2n_sum(i.obs)
OPS['obs-s2n'] = lambda i, rs: [i.obs.get_s2n(), i.ol.get_s2n(), i.mb.get_s2n()]
OPS['weighted-moments'] = lambda i, rs: i.gmguess.get_weighted_moments(i.obs, with_higher_order=bool(rs.randint(2)))
OPS['weighted-sums'] = lambda i, rs: i.gmguess.get_weighted_sums(i.wide, 1e9)
OPS['gaussmom'] = lambda i, rs: GaussMom(8*i.s).go(i.obs)
OPS['gaussmom-high'] = lambda i, rs: GaussMom(8*i.s, with_higher_order=True).go(obs=i.wide)
OPS['pgauss'] = lambda i, rs: PGaussMom(6*i.s).go(i.mc)
OPS['pgauss-nopsf'] = lambda i, rs: PrePSFGaussMom(fwhm=7*i.s, pad_factor=2).go(i.mc, no_psf=True)
OPS['ksigma'] = lambda i, rs: KSigmaMom(6*i.s, fwhm_smooth=1.5*i.s).go(i.mc)
OPS['ksigma-kernel'] = lambda i, rs: PrePSFMom(6*i.s, 'ksigma').go(i.mc, return_kernels=True)
OPS['admom'] = lambda i, rs: AdmomFitter(maxiter=100, rng=rs).go(i.obs, i.gmguess)
OPS['admom-T'] = lambda i, rs: AdmomFitter(rng=rs).go(i.obs, 6*i.s**2)
OPS['admom-cen'] = lambda i, rs: run_admom(i.wide, i.gmguess, cenonly=True)
OPS['em'] = lambda i, rs: EMFitter(**i.conf).go(i.obs, i.emguess)
OPS['em-sky'] = lambda i, rs: run_em(i.obs, i.emguess, sky=float(abs(i.obs.image.min()) + .01), **i.conf)
OPS['em-fixcen'] = lambda i, rs: EMFitterFixCen(**i.conf).go(i.obs, i.emguess)
OPS['em-fixcov'] = lambda i, rs: EMFitterFixCov(**i.conf).go(i.obs, i.emguess)
OPS['em-flux'] = lambda i, rs: EMFitterFluxOnly(**i.conf).go(i.obs, i.emguess)
OPS['fit-gauss'] = lambda i, rs: Fitter(model='gauss').go(i.obs, i.guess)
OPS['fit-exp'] = lambda i, rs: Fitter(model='exp', prior=i.prior1, fit_pars=i.lmpars).go(obs=i.obs, guess=i.guess)
OPS['fit-dev'] = lambda i, rs: Fitter(model='dev', prior=i.prior2, fit_pars=i.short).go(i.mb, i.mbguess)
OPS['fit-bdf'] = lambda i, rs: Fitter(model='bdf', prior=i.priorbdf, fit_pars=i.short).go(i.mb, i.bdfguess)
OPS['fit-bd'] = lambda i, rs: Fitter(model='bd', prior=i.priorbd, fit_pars=i.short).go(i.mb, i.bdguess)
OPS['fit-coellip'] = lambda i, rs: CoellipFitter(ngauss=2, prior=i.priorco, fit_pars=i.short).go(i.obs, i.coguess)
OPS['fit-bounded'] = lambda i, rs: Fitter(model='gauss', prior=J.PriorSimpleSep(
    i.prior1.cen_prior, i.prior1.g_prior, P.FlatPrior(0, 1e3, rng=rs), P.FlatPrior(-1e5, 1e9, rng=rs))).go(i.obs, i.guess)
OPS['psfflux'] = lambda i, rs: PSFFluxFitter().go(i.ol)
OPS['psfflux-no'] = lambda i, rs: PSFFluxFitter(do_psf=False, normalize_psf=False).go(withgmix(i))
OPS['gs-exp'] = lambda i, rs: GalsimFitter(model='exp', prior=i.prior2, fit_pars=i.short).go(i.mb, i.gsguess)
OPS['gs-kobs'] = lambda i, rs: GalsimFitter(model='gauss', prior=i.prior2, fit_pars=i.short).go(i.kobs, i.gsguess)
OPS['gs-spergel'] = lambda i, rs: GalsimSpergelFitter(fit_pars=i.short).go(i.mb, i.spguess)
OPS['gs-moffat'] = lambda i, rs: GalsimMoffatFitter(fit_pars=i.short).go(i.mb, i.moguess)
OPS['gs-psfflux'] = lambda i, rs: GalsimPSFFluxFitter().go(i.ol)
OPS['kobs'] = lambda i, rs: make_kobs(i.mb)
OPS['gaussap'] = lambda i, rs: list(get_gaussap_flux(i.parray, 'exp', 2.5, verbose=False))
OPS['gaussap-masked'] = lambda i, rs: list(get_gaussap_flux(i.parray, 'gauss', 2.5, mask=np.array([True, False, True, True]), verbose=False))
OPS['simobs'] = lambda i, rs: simulate_obs(i.gmm, i.mb[0], rng=rs)
OPS['simobs-mb'] = lambda i, rs: simulate_obs([i.gm, i.gmm], i.mb, rng=rs, noise_factor=1.5, add_all=False)
OPS['simobs-none'] = lambda i, rs: simulate_obs(None, i.obs, rng=rs, add_noise=True)
OPS['guess-TFlux'] = lambda i, rs: G.TFluxGuesser(rs, 4.0, [10.0, 20.0], prior=i.prior2)(nrand=3)
OPS['guess-TPSF'] = lambda i, rs: G.TPSFFluxGuesser(rs, 4*i.s**2, prior=None)(i.mb)
OPS['guess-pars'] = lambda i, rs: G.ParsGuesser(rs, i.mbguess, widths=abs(i.mbguess)*0.1 + 0.01)(nrand=2)
OPS['guess-psf'] = lambda i, rs: G.GMixPSFGuesser(rs, 2)(i.obs)
OPS['guess-psf-moms'] = lambda i, rs: G.GMixPSFGuesser(rs, 3, guess_from_moms=True)(i.obs)
OPS['guess-coellip'] = lambda i, rs: G.CoellipPSFGuesser(rs, 2, guess_from_moms=True)(i.obs)
OPS['guess-simple'] = lambda i, rs: G.SimplePSFGuesser(rs, guess_from_moms=True)(i.obs)
OPS['runner'] = lambda i, rs: Runner(Fitter(model='gauss', prior=i.prior1, fit_pars=i.short), G.TFluxGuesser(rs, 4*i.s**2, abs(i.flux)), ntry=2).go(i.obs)
OPS['metacal'] = lambda i, rs: get_all_metacal(i.mc, rng=rs, types=i.types)
OPS['metacal-12'] = lambda i, rs: get_all_metacal(i.mc, rng=rs, psf='dilate', types=i.types2)
OPS['metacal-fitgauss'] = lambda i, rs: get_all_metacal(i.mc, rng=rs, psf='fitgauss', types=i.types2, fixnoise=False)
OPS['metacal-own-noise'] = lambda i, rs: get_all_metacal(i.mcb, rng=rs, psf=i.gspsf, types=['noshear', '1p'], use_noise_image=True)
OPS['shape'] = lambda i, rs: ngmix.Shape(0.1, 0.2).get_sheared(0.05, -0.02)
OPS['gmixnd'] = lambda i, rs: gmixnd(i, rs)
OPS['prior-lnp'] = lambda i, rs: [i.prior1.get_lnprob_scalar(i.guess), i.prior2.get_lnprob_array(np.array([i.mbguess, i.mbguess*1.01]))]
OPS['prior-sample'] = lambda i, rs: prior_simple(rs, i.s, 2).sample(5)
OPS['copy'] = lambda i, rs: [i.obs.copy(), i.mb.copy()]
SLOW = {'gs-spergel', 'gs-moffat', 'gs-exp', 'gs-kobs'}
# these need not have kernels of ngmix only: caches of galsim are not made for threads
THREAD_UNSAFE_LIB = {n for n in OPS if n.startswith(('gs-', 'metacal', 'kobs', 'boot'))}


def withgmix(i):
    ol = ngmix.ObsList()
    for o in i.ol:
        o = o.copy()
        o.set_gmix(i.gmm)
        ol.append(o)
    return ol


def gmixnd(i, rs):
    g = GMixND(i.weights, i.means, i.covars, rng=rs)
    return [g.get_prob_array(i.x), g.get_lnprob_scalar(i.x[0]), g.sample(4)]


@op('bootstrap')
def bootstrap(i, rs):
    """a psf runner attaches its results, so it gets a copy"""
    mb = i.mb.copy()
    pr = PSFRunner(EMFitter(maxiter=50, tol=1e-2), G.GMixPSFGuesser(rs, 1), ntry=2)
    r = Runner(Fitter(model='gauss', prior=i.prior2, fit_pars=i.short), G.TFluxGuesser(rs, 4*i.s**2, [10.0, 10.0]), ntry=1)
    out = Bootstrapper(runner=r, psf_runner=pr).go(mb)
    return [res(out), [o.psf.gmix for ol in mb for o in ol]]


@op('boot-metacal')
def bootmetacal(i, rs):
    mc = i.mc.copy()
    pr = PSFRunner(AdmomFitter(rng=rs), G.GMixPSFGuesser(rs, 1), ntry=2)
    r = Runner(GaussMom(7*i.s))
    d, o = MetacalBootstrapper(runner=r, psf_runner=pr, rng=rs, types=list(i.types)).go(mc)
    return [{k: res(v) for k, v in d.items()}, o]


def run(name, i, seed):
    """what the operation gives, and where its generator ended"""
    rs = np.random.RandomState(seed)
    try:
        r = OPS[name](i, rs)
    except ngmix.GMixRangeError as e:
        r = 'GMixRangeError %s' % e
    except (ngmix.GMixFatalError, ngmix.BootPSFFailure, ngmix.PSFFluxFailure, np.linalg.LinAlgError) as e:
        r = '%s %s' % (type(e).__name__, e)
    out = snap.snap(res(r))
    return out, snap.snap(rs.get_state()), isinstance(r, str)


def gstate():
    return snap.snap(np.random.get_state()), random.getstate()


def make(rng, seed=None):
    return Inputs(np.random.RandomState(rng.randint(2**31) if seed is None else seed))


def names(rng, n, slow=0.1, without=()):
    out = []
    lst = sorted(OPS)
    while len(out) < n:
        x = gen.pick(rng, lst)
        if x in without or (x in SLOW and rng.uniform() > slow):
            continue
        out.append(x)
    return out


def checked(mon, i, frozen, name, seed):
    g = gstate()
    out, pos, failed = run(name, i, seed)
    mon.true('global-rng', gstate() == g, '%s used a global random state' % name)
    d = snap.diff_snap(frozen, i.frozen())
    mon.true('inputs-kept', d is None, '%s: %s' % (name, d))
    mon.event('op ' + name)
    if failed:
        mon.event('op raised')
    return out, pos


def agree(mon, what, name, a, b, extra=''):
    d = snap.diff_snap(b[0], a[0])
    mon.true(what, d is None, '%s %s: %s' % (name, extra, d))
    d = snap.diff_snap(b[1], a[1])
    mon.true('generator position', d is None, '%s %s: the generator: %s' % (name, extra, d))


def w_single(mon, rng, idx):
    lst = sorted(OPS)
    name = lst[idx % len(lst)]
    iseed, seed = rng.randint(2**31), rng.randint(2**31)
    mon.describe(op=name, iseed=int(iseed), seed=int(seed))
    i = make(rng, iseed)
    frozen = i.frozen()
    np.random.seed(rng.randint(2**31))
    random.seed(5)
    first = checked(mon, i, frozen, name, seed)
    np.random.seed(rng.randint(2**31))
    random.seed(6)
    agree(mon, 'repeat', name, checked(mon, i, frozen, name, seed), first, 'repeated')
    # the same inputs made again, and copies
    i2 = make(rng, iseed)
    mon.same('equal inputs', i2.frozen(), frozen, 'the harness')
    agree(mon, 'equal inputs', name, checked(mon, i2, frozen, name, seed), first, 'on equal inputs')
    i3 = make(rng, iseed)
    for n in ('obs', 'wide', 'mb', 'mc', 'mcb', 'gm', 'psfgm', 'gmguess', 'emguess', 'jac'):
        setattr(i3, n, getattr(i3, n).copy())
    i3.ol = i3.mb[0]
    agree(mon, 'equal inputs', name, checked(mon, i3, frozen, name, seed), first, 'on copies')


def w_history(mon, rng, idx):
    i = make(rng)
    frozen = i.frozen()
    pool = names(rng, rng.randint(3, 9))
    seq = [(gen.pick(rng, pool), int(rng.randint(3))) for _ in range(rng.randint(8, 28))]
    mon.describe(seq=[a for a, _ in seq], seeds=[b for _, b in seq])
    caching = bool(rng.randint(2))
    first = {}
    on = True
    try:
        for k, (name, seed) in enumerate(seq):
            if caching and rng.randint(3) == 0:
                on = not on
                # both of the caches can be switched off
                if on:
                    ngmix.prepsfmom.turn_on_fft_caching()
                    ngmix.prepsfmom.turn_on_kernel_caching()
                    ngmix.metacal.metacal.turn_on_galsim_caching()
                else:
                    ngmix.prepsfmom.turn_off_fft_caching()
                    ngmix.prepsfmom.turn_off_kernel_caching()
                    ngmix.metacal.metacal.turn_off_galsim_caching()
            out = checked(mon, i, frozen, name, seed)
            key = (name, seed)
            if key in first:
                agree(mon, 'history', name, out, first[key], 'after %s' % [a for a, _ in seq[:k]])
                if caching:
                    mon._count('caching')
            else:
                first[key] = out
    finally:
        ngmix.prepsfmom.turn_on_fft_caching()
        ngmix.prepsfmom.turn_on_kernel_caching()
        ngmix.metacal.metacal.turn_on_galsim_caching()


def threads(mon, rng, idx, without, interval):
    i = make(rng)
    pool = sorted(set(names(rng, rng.randint(2, 7), slow=0.02, without=without)))
    seeds = [int(x) for x in rng.randint(2**31, size=2)]
    nt = int(rng.randint(2, 9))
    plan = [[(pool[rng.randint(len(pool))], seeds[rng.randint(2)]) for _ in range(rng.randint(2, 7))] for _ in range(nt)]
    mon.describe(pool=pool, nthreads=nt, plan=[len(p) for p in plan], seed=seeds)
    first = {k: run(k[0], i, k[1]) for k in sorted({x for p in plan for x in p})}
    frozen = i.frozen()
    # the threads get inputs nothing has touched yet: what is set at first use is set by all at once
    i2 = make_again(rng, i)
    got, errs = [], []
    gate = threading.Barrier(nt)

    def work(p):
        try:
            gate.wait()
            for key in p:
                got.append((key, run(key[0], i2, key[1]), threading.get_ident()))
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            errs.append((p, '%s: %s at %s:%s' % (type(e).__name__, e, tb.filename, tb.lineno), tb.filename))
    ts = [threading.Thread(target=work, args=(p,)) for p in plan]
    old = sys.getswitchinterval()
    g = gstate()
    try:
        sys.setswitchinterval(interval)
        with np.errstate(all='ignore'):
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    for p, e, fn in errs:
        if '/galsim/' in fn:
            mon.event('error in a galsim cache')
            continue
        mon.fail('threads', '%s in a thread running %s' % (e, p))
    for key, out, _ in got:
        agree(mon, 'threads', key[0], out, first[key], 'from %d threads' % nt)
    order = [t for _, _, t in got]
    mon.event('thread switches between operations', sum(a != b for a, b in zip(order, order[1:])))
    mon.event('threaded operations', len(got))
    mon.true('global-rng', gstate() == g, 'threads')
    d = snap.diff_snap(frozen, i2.frozen())
    mon.true('inputs-kept', d is None, 'threads: %s' % d)


def make_again(rng, i):
    import copy
    j = copy.copy(i)
    for n in ('obs', 'wide', 'mb', 'mc', 'mcb', 'gm', 'psfgm', 'gmguess', 'emguess', 'jac'):
        setattr(j, n, getattr(i, n).copy())
    j.ol = j.mb[0]
    # mixtures whose normalisation has not been set
    j.gm = ngmix.GMix(pars=i.gm.get_full_pars())
    j.gmm = ngmix.GMixModel(i.gmmpars, 'dev')
    return j


def w_threads(mon, rng, idx):
    threads(mon, rng, idx, THREAD_UNSAFE_LIB, gen.pick(rng, [1e-6, 1e-5, 1e-4]))


def w_threads_galsim(mon, rng, idx):
    threads(mon, rng, idx, SLOW, 5e-4)


def w_arguments(mon, rng, idx):
    """lists, dicts and arrays handed over stay as they were, and what is returned is not tied to them"""
    i = make(rng)
    k = idx % 6
    seed = int(rng.randint(2**31))
    mon.describe(k=k, seed=seed)
    rs = np.random.RandomState(seed)
    if k == 0:
        # the list of metacal types
        t = [gen.pick(rng, ['1p', '1m', '2p', '2m', 'noshear'])] + [x for x in ('1p', '2p', '1m', 'noshear') if rng.randint(2)]
        t = list(dict.fromkeys(t))
        psf = gen.pick(rng, ['gauss', 'dilate'])
        if psf == 'dilate' and rng.randint(2):
            t.append('1p_psf')
        had = list(t)
        get_all_metacal(i.mc, rng=rs, psf=psf, types=t)
        if 'noshear' in had and '1p' not in had:
            mon.true('metacal types', t in (had, had + ['1p']), 'types %s became %s' % (had, t))
            mon.finding('metacal-types-append', 'metacal types', t == had, 'types %s became %s' % (had, t))
        else:
            mon.true('metacal types', t == had, 'types %s became %s' % (had, t))
        mon._count('arguments')
    elif k == 1:
        # a result does not change when the caller changes what was sent
        guess = i.guess.copy()
        r = Fitter(model='gauss', fit_pars=i.short).go(i.obs, guess)
        a = snap.snap(res(r))
        guess[:] = 99.0
        mon.same('independent', snap.snap(res(r)), a, 'result of a fit after the guess was changed')
        mon._count('arguments')
    elif k == 2:
        fp = dict(i.short)
        f = Fitter(model='gauss', fit_pars=fp)
        r1 = f.go(i.obs, i.guess)
        mon.true('arguments', fp == i.short, 'fit_pars became %s' % fp)
        r2 = f.go(i.obs, i.guess)
        mon.same('repeat', snap.snap(res(r2)), snap.snap(res(r1)), 'same fitter again')
        # a fitter is not tied to the dictionary it was given
        fp['maxfev'] = 5
        fp['ftol'] = fp['xtol'] = 0.1
        mon.same('independent', snap.snap(res(f.go(i.obs, i.guess))), snap.snap(res(r1)), 'after the fit_pars passed were changed')
        if idx % 3 == 0:
            from ngmix.fitting import GalsimFitter
            fp = dict(i.short)
            f = GalsimFitter(model='gauss', fit_pars=fp)
            gg = i.guess.copy()
            gg[4] = 1.0
            r1 = f.go(i.obs, gg)
            fp['maxfev'] = 5
            fp['ftol'] = fp['xtol'] = 0.1
            mon.same('independent', snap.snap(res(f.go(i.obs, gg))), snap.snap(res(r1)), 'after the fit_pars passed were changed')
    elif k == 3:
        # EM and adaptive moments: a result is not tied to the guess
        gm = i.emguess.copy()
        r = EMFitter(**i.conf).go(i.obs, gm)
        b = snap.snap(res(r))
        gm.set_flux(1e5)
        gm.set_cen(3.0, 4.0)
        mon.same('independent', snap.snap(res(r)), b, 'EM result after the guess was changed')
        gm = i.gmguess.copy()
        r = AdmomFitter(rng=rs).go(i.obs, gm)
        b = snap.snap(res(r))
        gm.set_flux(1e5)
        mon.same('independent', snap.snap(res(r)), b, 'adaptive moments result after the guess was changed')
        mon._count('arguments')
    elif k == 4:
        # arrays used to make priors and mixtures
        m, c, w = i.means.copy(), i.covars.copy(), i.weights.copy()
        g = GMixND(w, m, c, rng=rs)
        p = g.get_prob_array(i.x)
        mon.same('arguments', [m, c, w], [i.means, i.covars, i.weights], 'GMixND')
        mon.same('repeat', g.get_prob_array(i.x), p)
        pars = i.guess.copy()
        gm = ngmix.GMixModel(pars, 'exp')
        a = snap.snap(gm)
        gm.get_sheared(0.01, 0.02)
        mon.same('arguments', pars, i.guess, 'parameters')
        pars[:] = 1e3
        mon.same('independent', snap.snap(gm), a, 'mixture after the parameters were changed')
        fullp = i.gm.get_full_pars()
        gm = ngmix.GMix(pars=fullp)
        a = snap.snap(gm)
        fullp[:] = 7.0
        mon.same('independent', snap.snap(gm), a, 'mixture after the parameters were changed')
    else:
        # two different fitters made from the same pieces do not share state
        a = Fitter(model='exp', prior=i.prior1, fit_pars=i.short)
        b = Fitter(model='gauss', prior=i.prior1, fit_pars=i.lmpars)
        ra = a.go(i.obs, i.guess)
        s = snap.snap(res(ra))
        b.go(i.obs, i.guess*1.01)
        mon.same('independent', snap.snap(res(ra)), s, 'result after another fit')
        mon.same('repeat', snap.snap(res(a.go(i.obs, i.guess))), s, 'after another fit')
        mon._count('arguments')


def boot_on(b, o):
    o = o.copy()
    out = b.go(o)
    return [res(out), o]


def psfrun_on(r, o):
    o = o.copy()
    r.go(o)
    return o


# objects that measure: how to make one, and what it can be used for
REUSE = {
    'gaussmom': (lambda rs: GaussMom(2.0), [lambda f, i: f.go(i.obs), lambda f, i: f.go(i.wide), lambda f, i: f.go(i.mc)]),
    'gaussmom-high': (lambda rs: GaussMom(2.0, with_higher_order=True), [lambda f, i: f.go(i.obs), lambda f, i: f.go(i.mc)]),
    'pgauss': (lambda rs: PGaussMom(2.5), [lambda f, i: f.go(i.mc), lambda f, i: f.go(i.mc, no_psf=True), lambda f, i: f.go(i.mcb[1][0])]),
    'ksigma': (lambda rs: KSigmaMom(2.5, fwhm_smooth=0.5), [lambda f, i: f.go(i.mc), lambda f, i: f.go(i.mcb[0][0], return_kernels=True),
                                                           lambda f, i: f.go(i.obs.psf, no_psf=True)]),
    'admom': (lambda rs: AdmomFitter(maxiter=60, rng=rs), [lambda f, i: f.go(i.obs, i.gmguess), lambda f, i: f.go(i.wide, 6*i.s**2),
                                                           lambda f, i: f.go(i.mc, i.gmguess)]),
    'admom-cen': (lambda rs: AdmomFitter(cenonly=True, rng=rs), [lambda f, i: f.go(i.obs, i.gmguess), lambda f, i: f.go(i.mc, i.gmguess)]),
    'em': (lambda rs: EMFitter(maxiter=60, tol=1e-4), [lambda f, i: f.go(i.obs, i.emguess), lambda f, i: f.go(i.wide, i.gmguess),
                                                       lambda f, i: f.go(i.mc.psf, i.gmguess, sky=0.01)]),
    'em-fixcen': (lambda rs: EMFitterFixCen(maxiter=60, tol=1e-4), [lambda f, i: f.go(i.obs, i.emguess), lambda f, i: f.go(i.mc.psf, i.gmguess)]),
    'em-fixcov': (lambda rs: EMFitterFixCov(maxiter=60, tol=1e-4), [lambda f, i: f.go(i.obs, i.emguess), lambda f, i: f.go(i.mc.psf, i.gmguess)]),
    'em-flux': (lambda rs: EMFitterFluxOnly(maxiter=60, tol=1e-4), [lambda f, i: f.go(i.obs, i.emguess), lambda f, i: f.go(i.mc.psf, i.gmguess)]),
    'fitter': (lambda rs: Fitter(model='gauss', fit_pars=dict(maxfev=40, ftol=1e-3, xtol=1e-3)), [
        lambda f, i: f.go(i.obs, i.guess), lambda f, i: f.go(i.mb, i.mbguess), lambda f, i: f.go(i.ol, i.guess), lambda f, i: f.go(i.wide, i.guess)]),
    'fitter-prior': (lambda rs: Fitter(model='exp', prior=prior_simple(rs, 1.0, 2), fit_pars=dict(maxfev=40, ftol=1e-3, xtol=1e-3)), [
        lambda f, i: f.go(i.mb, i.mbguess)]),
    'coellip': (lambda rs: CoellipFitter(ngauss=2, fit_pars=dict(maxfev=40, ftol=1e-3, xtol=1e-3)), [
        lambda f, i: f.go(i.obs, i.coguess), lambda f, i: f.go(i.wide, i.coguess)]),
    'psfflux': (lambda rs: PSFFluxFitter(), [lambda f, i: f.go(i.ol), lambda f, i: f.go(i.mb[1]), lambda f, i: f.go(i.obs)]),
    'galsim': (lambda rs: GalsimFitter(model='gauss', fit_pars=dict(maxfev=12, ftol=1e-2, xtol=1e-2)), [
        lambda f, i: f.go(i.mb, i.gsguess), lambda f, i: f.go(i.mc, i.gsguess[:6])]),
    'galsim-psfflux': (lambda rs: GalsimPSFFluxFitter(), [lambda f, i: f.go(i.ol), lambda f, i: f.go(i.mc)]),
    'guess-TPSF': (lambda rs: G.TPSFFluxGuesser(rs, 1.0), [lambda f, i: f(obs=i.mb), lambda f, i: f(nrand=3, obs=i.ol), lambda f, i: f(obs=i.obs)]),
    'guess-psf': (lambda rs: G.GMixPSFGuesser(rs, 2, guess_from_moms=True), [lambda f, i: f(i.obs), lambda f, i: f(i.mc.psf), lambda f, i: f(i.wide)]),
    'guess-coellip': (lambda rs: G.CoellipPSFGuesser(rs, 2), [lambda f, i: f(i.obs), lambda f, i: f(i.mc.psf)]),
    'guess-simple': (lambda rs: G.SimplePSFGuesser(rs, guess_from_moms=True), [lambda f, i: f(i.obs), lambda f, i: f(i.mc.psf)]),
    'guess-TFlux': (lambda rs: G.TFluxGuesser(rs, 4.0, [10.0, 20.0]), [lambda f, i: f(), lambda f, i: f(nrand=4)]),
    'runner': (lambda rs: Runner(Fitter(model='gauss', fit_pars=dict(maxfev=40, ftol=1e-3, xtol=1e-3)), G.TPSFFluxGuesser(rs, 1.0), ntry=2), [
        lambda f, i: f.go(i.obs), lambda f, i: f.go(i.mb), lambda f, i: f.go(i.ol)]),
    'psf-runner': (lambda rs: PSFRunner(EMFitter(maxiter=40, tol=1e-2), G.GMixPSFGuesser(rs, 1), ntry=2), [
        lambda f, i: psfrun_on(f, i.mb), lambda f, i: psfrun_on(f, i.mc), lambda f, i: psfrun_on(f, i.obs)]),
    'bootstrapper': (lambda rs: Bootstrapper(
        runner=Runner(Fitter(model='gauss', fit_pars=dict(maxfev=40, ftol=1e-3, xtol=1e-3)), G.TPSFFluxGuesser(rs, 1.0), ntry=1),
        psf_runner=PSFRunner(AdmomFitter(rng=rs), G.GMixPSFGuesser(rs, 1), ntry=2)), [
            lambda f, i: boot_on(f, i.mb), lambda f, i: boot_on(f, i.obs), lambda f, i: boot_on(f, i.mc)]),
    'metacal': (lambda rs: MetacalBootstrapper(runner=Runner(GaussMom(2.0)), psf_runner=PSFRunner(AdmomFitter(rng=rs), G.GMixPSFGuesser(rs, 1), ntry=2),
                                               rng=rs, types=['1p', '2m']), [lambda f, i: boot_on(f, i.mc)]),
    'prior': (lambda rs: prior_simple(rs, 1.0, 2), [lambda f, i: f.sample(3), lambda f, i: f.sample(), lambda f, i: f.get_lnprob_scalar(i.mbguess),
                                                    lambda f, i: f.get_lnprob_array(np.array([i.mbguess]*2))]),
}


def disturb(rng, i):
    """change the inputs where they are: they are the same objects with other contents"""
    def obs(o):
        with o.writeable():
            k = rng.randint(4)
            if k == 0:
                o.image *= 1.1
            elif k == 1:
                o.image += 0.01*abs(o.image).max()*rng.normal(size=o.image.shape)
            elif k == 2:
                o.weight *= rng.uniform(0.5, 2, size=o.weight.shape)
            else:
                o.jacobian.set_cen(row=o.jacobian.row0 + 0.3, col=o.jacobian.col0 - 0.2)
        if o.has_psf() and o.psf.has_gmix() and rng.randint(2):
            g = o.psf.gmix
            g.set_flux(g.get_flux()*1.2)
            g.set_cen(0.1*i.s, 0.05*i.s)
            o.psf.set_gmix(g)
    done = []
    for o in (i.obs, i.wide, i.mc, i.mb[1][0], i.mb[0][1], i.mcb[0][0]):
        if rng.randint(2):
            obs(o)
            done.append(1)
    for n in ('guess', 'mbguess', 'coguess', 'gsguess'):
        if rng.randint(2):
            getattr(i, n)[:2] += 0.05*i.s
            getattr(i, n)[4:] *= 1.05
    if rng.randint(2):
        i.gmguess.set_cen(-0.05*i.s, 0.1*i.s)
        i.emguess.set_flux(i.emguess.get_flux()*1.1)
    return done


def w_reuse(mon, rng, idx):
    """one measuring object used for one thing after another gives what a new one gives"""
    name = sorted(REUSE)[idx % len(REUSE)]
    make_one, uses = REUSE[name]
    ins = [make(rng) for _ in range(3)]
    frozen = [i.frozen() for i in ins]
    n = rng.randint(3, 7)
    nin = int(rng.randint(1, 4))
    plan = [(int(rng.randint(nin)), int(rng.randint(len(uses))), int(rng.randint(2**31))) for _ in range(n)]
    mon.describe(name=name, plan=plan, scales=[i.s for i in ins])
    rs = np.random.RandomState(0)
    f = make_one(rs)
    kept = []

    def use(g, gen_, step):
        gen_.seed(step[2])
        try:
            return res(uses[step[1]](g, ins[step[0]]))
        except (ngmix.GMixRangeError, ngmix.GMixFatalError, ngmix.BootPSFFailure, ngmix.PSFFluxFailure, np.linalg.LinAlgError, ValueError,
                ngmix.gexceptions.FFTRangeError) as e:
            # a measurement that cannot be done says so, in the same words
            return '%s %s' % (type(e).__name__, e)
    for k, step in enumerate(plan):
        if k and rng.randint(3) == 0 and name not in ('guess-TPSF', 'runner'):
            # (those two keep the psf fluxes of the last observation: the known finding of P22)  the same objects with other contents
            disturb(rng, ins[step[0]])
            frozen[step[0]] = ins[step[0]].frozen()
            mon.event('inputs changed in place')
        got = use(f, rs, step)
        s = snap.snap(got)
        r2 = np.random.RandomState(1)
        want = snap.snap(use(make_one(r2), r2, step))
        d = snap.diff_snap(want, s)
        mon.true('reuse', d is None, '%s used %d times before: %s' % (name, k, d))
        mon.event('raised' if isinstance(got, str) else 'measured')
        kept.append((got, s))
    # what was given before has not changed
    for got, s in kept:
        mon.true('independent', snap.diff_snap(s, snap.snap(got)) is None, 'an earlier result of', name, 'changed')
    for i, fr in zip(ins, frozen):
        d = snap.diff_snap(fr, i.frozen())
        mon.true('inputs-kept', d is None, '%s: %s' % (name, d))


WORKLOADS = [
    Workload('reuse', w_reuse, quick=6*len(REUSE), thorough=100*len(REUSE)),
    Workload('single', w_single, quick=3*len(OPS), thorough=60*len(OPS)),
    Workload('history', w_history, quick=150, thorough=3000),
    Workload('threads', w_threads, quick=160, thorough=4000),
    Workload('threads_galsim', w_threads_galsim, quick=16, thorough=300),
    Workload('arguments', w_arguments, quick=180, thorough=3000),
]
