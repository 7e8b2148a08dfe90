"""Guessers: shape, order, scatter, support, and dependence on the observation and generator given only."""
import numpy as np
import ngmix
from ngmix import guessers as G, joint_prior as J, priors as P
from ngmix.gexceptions import GMixRangeError, PSFFluxFailure
from ngmix.defaults import LOWVAL
from vlib import gen, ref, snap
from vlib.core import Workload
from props.p20 import state

PROP = 'P22'
RULE = """every guesser class with random sizes, fluxes (small, large, negative, one to four bands), numbers of guesses, with no prior,
with a wide prior and with priors that exclude what would be guessed; guessers that measure an observation with a sequence of
different observations (new, repeated, freed, changed, some bands without usable data), compared with a fresh guesser and with
psf fluxes and moments computed independently; cases differ by class, values, prior and history"""
REQUIRED = ['shape', 'range', 'centred', 'support', 'generator', 'global', 'fresh', 'measured', 'history', 'valid', 'inputs-kept', 'refused',
            'prior draw', 'bad band', 'no band', 'mixture', 'coellip', 'simple psf', 'moments', 'excluded', 'pars', 'nu', 'known', 'spread', 'measured scatter'] \
    + ['class ' + n for n in ('TFlux', 'TPSFFlux', 'TPSFFluxAndPrior', 'TFluxAndPrior', 'BDFPSFFlux', 'BDF', 'BD', 'R50Flux', 'R50NuFlux',
                              'Prior', 'Pars')]
EPS = 1e-12


def ok_lnp(prior, g):
    try:
        return prior.get_lnprob_scalar(g) > LOWVAL
    except GMixRangeError:
        return False


def within(lo, hi):
    return min(lo, hi), max(lo, hi)


class Mk(object):
    """a guesser, with the ranges of what it may return"""

    def __init__(self, rng, name):
        self.name = name
        self.nband = rng.randint(1, 5) if rng.randint(5) else rng.randint(5, 9)
        self.T = gen.loguni(rng, 1e-4, 100) if rng.randint(5) else gen.loguni(rng, 1e-10, 1e6)
        sg = -1 if rng.uniform() < 0.15 else 1
        self.F = np.array([gen.loguni(rng, *gen.pick(rng, [(1e-3, 1e5)]*4 + [(1e-10, 1e10)]))*sg for _ in range(self.nband)])
        self.seed = rng.randint(2**31)
        self.pseed = rng.randint(2**31)
        self.extra = {'BDF': ['fracdev'], 'BDFPSFFlux': ['fracdev'], 'BD': ['logTratio', 'fracdev'], 'R50NuFlux': ['nu']}.get(name, [])
        self.npars = 5 + len(self.extra) + self.nband
        self.pk = gen.pick(rng, ['none', 'wide', 'wide', 'excludeT', 'excludeF', 'tight'])
        need = name in ('TPSFFluxAndPrior', 'TFluxAndPrior', 'BDFPSFFlux', 'BDF', 'BD', 'Prior')
        if need and self.pk == 'none':
            self.pk = 'wide'
        self.nu = rng.uniform(-1.5, 5) if rng.randint(2) else rng.uniform(-0.8, 3)
        self.par = rng.randint(2**31)
        self.band_array = rng.randint(3)

    def flux_arg(self):
        if self.nband == 1 and self.band_array == 0:
            return float(self.F[0])
        return [list(self.F), self.F.copy(), tuple(self.F)][self.band_array]

    def prior(self, r):
        if self.pk == 'none':
            return None
        q = np.random.RandomState(self.par)
        wide = self.pk != 'tight'
        cen = P.CenPrior(0.0, 0.0, 0.2, 0.3, r)
        g = P.GPriorBA(q.uniform(0.1, 0.5), r)

        def flat(v, exclude, lo=0.01, hi=100.0):
            a, b = within(lo*v, hi*v)
            if exclude == 'all':
                a, b = within(2*v, 3*v)
            elif exclude == 'part':
                a, b = within(0.98*v, 1.5*v)
            k = q.randint(3)
            if k == 0 or exclude:
                return P.FlatPrior(a, b, r), (a, b)
            if k == 1:
                m = (a + b)/2
                return P.TruncatedGaussian(m, (b - a), a, b, r), (a, b)
            return P.TwoSidedErf(a, (b - a)*1e-3, b, (b - a)*1e-3, r), (a - (b - a)*6e-3, b + (b - a)*6e-3)
        ex = lambda on: gen.pick(q, ['all', 'part']) if on else None
        Tp, self.Trange = flat(self.T, ex(self.pk in ('excludeT', 'tight')))
        Fs = [flat(v, ex(self.pk in ('excludeF', 'tight'))) for v in self.F]
        Fp = [f[0] for f in Fs]
        self.Frange = [f[1] for f in Fs]
        if len(Fp) == 1 and q.randint(2):
            Fp = Fp[0]
        if self.name.startswith('BDF'):
            self.xrange = [(-0.2, 1.3)]
            return J.PriorBDFSep(cen, g, Tp, P.FlatPrior(-0.2, 1.3, r), Fp)
        if self.name == 'BD':
            # support of the size ratio away from that of the fracdev guess
            self.xrange = [(-3.0, -2.0), (-0.2, 1.3)]
            return J.PriorBDSep(cen, g, Tp, P.FlatPrior(-3.0, -2.0, r), P.FlatPrior(-0.2, 1.3, r), Fp)
        if self.name == 'R50NuFlux':
            self.xrange = [(-0.95, 3.45)]
            return J.PriorSpergelSep(cen, g, Tp, P.FlatPrior(-0.95, 3.45, r), Fp)
        self.xrange = []
        return J.PriorSimpleSep(cen, g, Tp, Fp)

    def build(self, r=None):
        self.r = r or np.random.RandomState(self.seed)
        self.pr = np.random.RandomState(self.pseed)
        p = self.p = self.prior(self.pr)
        n, T, F, r = self.name, self.T, self.flux_arg(), self.r
        if n == 'TFlux':
            return G.TFluxGuesser(r, T, F, prior=p)
        if n == 'TPSFFlux':
            return G.TPSFFluxGuesser(rng=r, T=T, prior=p)
        if n == 'TPSFFluxAndPrior':
            return G.TPSFFluxAndPriorGuesser(rng=r, T=T, prior=p)
        if n == 'TFluxAndPrior':
            return G.TFluxAndPriorGuesser(r, T, F, p)
        if n == 'BDFPSFFlux':
            return G.BDFPSFFluxGuesser(T, p)
        if n == 'BDF':
            return G.BDFGuesser(T, F, p)
        if n == 'BD':
            return G.BDGuesser(T, F, p)
        if n == 'R50Flux':
            return G.R50FluxGuesser(r, T, F, prior=p)
        if n == 'R50NuFlux':
            return G.R50NuFluxGuesser(r, T, self.nu, F, prior=p)
        return G.PriorGuesser(p)

    def covered(self, F):
        """nothing of what is guessed is outside the support"""
        if self.p is None:
            return True
        if self.pk != 'wide' or (self.name == 'R50NuFlux' and not -0.85 < self.nu < 3.1):
            return False
        for (a, b), v in zip(self.Frange, F):
            lo, hi = within(0.9*v, 1.1*v)
            # the wings of the soft edges are very low
            w = 0.02*(b - a)
            if lo < a + w*(lo > 0) or hi > b - w*(hi < 0):
                return False
        return True

    def check(self, mon, g, F, nrand):
        """the array returned"""
        mon.true('shape', isinstance(g, np.ndarray) and g.dtype == 'f8', g)
        scalar = nrand == 1 if self.name not in ('Prior',) else nrand is None
        n = 1 if nrand is None else nrand
        mon.true('shape', g.shape == ((self.npars,) if scalar else (n, self.npars)), g.shape, nrand, self.npars)
        a = g.reshape(-1, self.npars)
        mon.true('valid', np.isfinite(a).all(), a)
        mon.true('valid', (a[:, 2]**2 + a[:, 3]**2 < 1).all(), a[:, 2:4])
        if self.p is not None:
            for row in a:
                mon.true('support', ok_lnp(self.p, row), 'guess is outside the support of the prior', row)
        if self.name == 'Prior' or not self.covered(F):
            mon._count('excluded')
            # sizes and fluxes are then either what was asked for or from the prior
            if self.p is not None and self.name != 'Prior':
                self.either(mon, a[:, 4], self.T, self.Trange, 'T')
                for i in range(self.nband):
                    self.either(mon, a[:, self.npars - self.nband + i], F[i], self.Frange[i], 'flux %d' % i)
            return
        self.inside(mon, 'range', a[:, 4], self.T, 0.1, 'T')
        for i in range(self.nband):
            self.inside(mon, 'range', a[:, self.npars - self.nband + i], F[i], 0.1, 'flux %d' % i)
        if self.name in ('TFlux', 'TPSFFlux', 'R50Flux', 'R50NuFlux'):
            mon.true('centred', (abs(a[:, :2]) <= 0.01 + EPS).all() and (abs(a[:, 2:4]) <= 0.02 + EPS).all(), a)
        if 'fracdev' in self.extra:
            k = 4 + len(self.extra)
            mon.true('range', ((a[:, k] >= 0.4) & (a[:, k] <= 0.6)).all(), 'fracdev', a[:, k])
        if 'logTratio' in self.extra:
            mon.true('range', ((a[:, 5] >= -3) & (a[:, 5] <= -2)).all(), 'logTratio', a[:, 5])
        if 'nu' in self.extra:
            mon._count('nu')
            nu = min(max(self.nu, -0.99), 3.5)
            self.inside(mon, 'range', a[:, 5], nu, 0.1, 'nu')
            mon.true('range', ((a[:, 5] > -0.99) & (a[:, 5] < 3.5)).all(), a[:, 5])

    def inside(self, mon, name, x, v, frac, what):
        lo, hi = within(v*(1 - frac), v*(1 + frac))
        e = abs(v)*1e-9
        mon.true(name, ((x >= lo - e) & (x <= hi + e)).all(), what, 'not within', lo, hi, x)

    def either(self, mon, x, v, rng_, what):
        lo, hi = within(v*0.9, v*1.1)
        e = abs(v)*1e-9
        a, b = rng_
        w = 0.05*(b - a)
        mon.true('range', (((x >= lo - e) & (x <= hi + e)) | ((x >= a - w) & (x <= b + w))).all(), what, x, (lo, hi), rng_)


PLAIN = ['TFlux', 'TFluxAndPrior', 'BDF', 'BD', 'R50Flux', 'R50NuFlux', 'Prior']


def plain(mon, rng, idx):
    mk = Mk(rng, PLAIN[idx % len(PLAIN)])
    mon._count('class ' + mk.name)
    go = mk.build()
    mon.describe(name=mk.name, T=mk.T, F=mk.F, pk=mk.pk, nu=mk.nu if mk.name == 'R50NuFlux' else 0)
    g0 = state(np.random.mtrand._rand)
    calls = []
    for _ in range(rng.randint(1, 5)):
        nrand = gen.pick(rng, [1, 2, 7, 30])
        if mk.name == 'Prior':
            nrand = gen.pick(rng, [None, 1, 5])
        s1, s2 = state(mk.r), state(mk.pr)
        k = rng.randint(3)
        if nrand == 1 and mk.name != 'Prior' and k == 0:
            g = mon.returns('shape', go)
        elif k == 1:
            g = mon.returns('shape', go, obs='anything', nrand=nrand)
        else:
            g = mon.returns('shape', go, nrand=nrand)
        mk.check(mon, g, mk.F, nrand)
        covered = mk.name != 'Prior' and mk.covered(mk.F)
        drew = state(mk.r) != s1 or state(mk.pr) != s2
        mon.true('generator', drew, 'nothing was drawn')
        if covered and mk.name in ('TFlux', 'R50Flux', 'R50NuFlux'):
            mon.true('generator', state(mk.pr) == s2, "the prior's generator was used")
        calls.append((nrand, g.copy()))
        g[...] = 1e30     # ours
    mon.true('global', state(np.random.mtrand._rand) == g0)
    # once more from the same seed, with another global state
    np.random.seed(rng.randint(2**31))
    np.random.uniform(size=5)
    go = mk.build()
    for nrand, g in calls:
        mon.same('generator', go(nrand=nrand), g)
    if len(calls) > 1 and calls[0][0] == calls[1][0]:
        mon.true('fresh', not np.array_equal(calls[0][1], calls[1][1]))
    mon._count('fresh')


def exp_fluxes(mb):
    """psf fluxes computed here; nan where there is no usable data"""
    out = []
    for ol in mb:
        num = den = 0.0
        for o in ol:
            t = ref.render(ref.gmix_components(o.psf.gmix), o.image.shape, ref.Jac.of(o.jacobian))
            t = t/o.psf.gmix.get_flux()
            use = o.weight > 0
            num += (o.weight*t*o.image)[use].sum()
            den += (o.weight*t*t)[use].sum()
        out.append(num/den if den > 0 else np.nan)
    return np.array(out)


def mb_obs(rng, nband, flux, bad=()):
    mb = ngmix.MultiBandObsList()
    for b in range(nband):
        ol = ngmix.ObsList()
        for e in range(rng.randint(1, 3)):
            d = (rng.randint(9, 16), rng.randint(9, 16))
            jac, _ = gen.jacob(rng, d, scale=1.0, kind=gen.pick(rng, ['diag', 'rot', 'flip']))
            gm = ngmix.GMixModel([0, 0, 0.05, -0.02, rng.uniform(3, 7), gen.pick(rng, [1.0, 3.0])], 'gauss')
            psf = ngmix.Observation(gm.make_image((11, 11), jacobian=ngmix.UnitJacobian(row=5, col=5)), gmix=gm)
            obj = gm.copy()
            obj.set_flux(flux[b])
            w = np.full(d, 1e2/flux[b]**2)*rng.uniform(0.5, 2, size=d)*(rng.uniform(size=d) < 0.9)
            if not (w > 0).any():
                w[0, 0] = 1e2/flux[b]**2
            im = obj.make_image(d, jacobian=jac) + 0.02*abs(flux[b])*rng.normal(size=d)
            o = ngmix.Observation(im, weight=w, jacobian=jac, psf=psf, ignore_zero_weight=b not in bad)
            if b in bad:
                o.weight = np.zeros(d)
            ol.append(o)
        mb.append(ol)
    return mb


def measured(mon, rng, idx):
    """guessers that measure psf fluxes, with a history of observations"""
    mk = Mk(rng, ['TPSFFlux', 'TPSFFluxAndPrior', 'BDFPSFFlux'][idx % 3])
    mon._count('class ' + mk.name)
    go = mk.build()
    mon.describe(name=mk.name, T=mk.T, F=mk.F, pk=mk.pk)
    pool = []
    hist = []
    g0 = state(np.random.mtrand._rand)
    for step in range(rng.randint(1, 6)):
        k = rng.randint(5)
        form = rng.randint(3)
        if k < 2 or not pool:
            mb = mb_obs(rng, mk.nband, mk.F*rng.uniform(0.5, 2, size=mk.nband))
            obs = mb[0][0] if mk.nband == 1 and form == 0 else (mb[0] if mk.nband == 1 and form == 1 else mb)
            pool.append(obs)
            hist.append('new')
        elif k == 2:
            obs = pool[rng.randint(len(pool))]
            hist.append('again')
        elif k == 3:
            # an equal observation, but another object, with another image
            old = pool[rng.randint(len(pool))]
            obs = old.copy()
            for ol in ngmix.observation.get_mb_obs(obs):
                for o in ol:
                    o.image = o.image*1.7
            pool.append(obs)
            hist.append('scaled copy')
        else:
            # freed: the next one may live at the same address
            del pool[:]
            obs = mb = old = o = ol = None
            mb = mb_obs(rng, mk.nband, mk.F*rng.uniform(0.5, 2, size=mk.nband))
            obs = mb
            pool.append(obs)
            hist.append('freed')
        s = snap.snap(obs)
        st, pst = mk.r.get_state(), mk.pr.get_state()
        nrand = gen.pick(rng, [1, 1, 4])
        g = mon.returns('measured', go, obs=obs, nrand=nrand)
        F = exp_fluxes(ngmix.observation.get_mb_obs(obs))
        mk.check(mon, g, F, nrand)
        mon._count('measured')
        # a fresh guesser with the generators where they were
        mk2 = Mk.__new__(Mk)
        mk2.__dict__.update(mk.__dict__)
        fresh = mk2.build()
        mk2.r.set_state(st)
        mk2.pr.set_state(pst)
        mon.same('history', fresh(obs=obs, nrand=nrand), g, 'history %s' % hist)
        mon.same('inputs-kept', snap.snap(obs), s)
    mon.true('global', state(np.random.mtrand._rand) == g0)


def changed(mon, rng, idx):
    """the observation passed was changed since the last guess"""
    mk = Mk(rng, 'TPSFFlux')
    mk.pk, mk.nband = 'none', 1
    mk.F, mk.npars = mk.F[:1], 6
    go = mk.build()
    obs = mb_obs(rng, 1, mk.F)[0][0]
    go(obs=obs)
    obs.image = obs.image*3
    F = exp_fluxes([[obs]])
    g = go(obs=obs)
    mon.describe(F=mk.F, idx=idx)
    lo, hi = within(0.9*F[0], 1.1*F[0])
    mon._count('known')
    mon.finding('psfflux-changed-in-place', 'measured', lo - 1e-9*abs(lo) <= g[5] <= hi + 1e-9*abs(hi),
                'flux guess', g[5], 'of an observation changed since, flux now', F[0])


def badband(mon, rng, idx):
    mk = Mk(rng, gen.pick(rng, ['TPSFFlux', 'TPSFFluxAndPrior']))
    mk.pk = 'wide' if mk.name != 'TPSFFlux' else 'none'
    go = mk.build()
    nb = mk.nband
    bad = [b for b in range(nb) if rng.uniform() < 0.6]
    mb = mb_obs(rng, nb, mk.F, bad=bad)
    F = exp_fluxes(mb)
    mon.describe(nb=nb, bad=bad, F=F)
    good = np.isfinite(F)
    if not good.any():
        mon._count('no band')
        mon.raises('no band', PSFFluxFailure, go, obs=mb)
        return
    g = go(obs=mb, nrand=3)
    mon.true('shape', g.shape == (3, 5 + nb) and np.isfinite(g).all(), g)
    mean = F[good].mean()
    for b in range(nb):
        if mk.p is not None:
            continue
        f = g[:, 5 + b]
        if good[b]:
            mk.inside(mon, 'measured', f, F[b], 0.1, 'flux')
        else:
            mon._count('bad band')
            lo, hi = within(0.81*mean, 1.21*mean)
            mon.true('bad band', ((f >= lo - 1e-9*abs(lo)) & (f <= hi + 1e-9*abs(hi))).all(), f, mean)


def pars(mon, rng, idx):
    mon._count('class Pars')
    nb = rng.randint(1, 5)
    n = 5 + nb + rng.randint(0, 3)
    p = np.concatenate([rng.normal(size=2)*gen.loguni(rng, 0.01, 10), gen.disk(rng, 0.999), [gen.loguni(rng, 1e-3, 100)],
                        [gen.loguni(rng, *gen.pick(rng, [(1e-3, 1e4), (1e-8, 1e10)]))*gen.pick(rng, [1, 1, -1]) for _ in range(n - 5)]])
    w = None if rng.randint(2) else np.array([gen.loguni(rng, 1e-3, 1), gen.loguni(rng, 1e-3, 1), gen.loguni(rng, 1e-3, 0.4), gen.loguni(rng, 1e-3, 0.4)]
                                             + [gen.loguni(rng, 1e-3, 0.5) for _ in range(n - 4)])
    seed = rng.randint(2**31)
    r = np.random.RandomState(seed)
    pr = np.random.RandomState(seed + 1)
    prior = None
    tight = False
    if n == 5 + nb and rng.randint(2):
        tight = bool(rng.randint(2))
        T, F = p[4], p[5:]
        lim = lambda v: within(1.01*v, 2*v) if tight else within(0.3*v, 3*v)
        prior = J.PriorSimpleSep(P.CenPrior(p[0], p[1], 1, 1, pr), P.GPriorBA(0.3, pr), P.FlatPrior(*lim(T), rng=pr),
                                 [P.FlatPrior(*lim(f), rng=pr) for f in F])
    arg = gen.pick(rng, [p.copy(), list(p)])
    keep = list(arg)
    mon.describe(p=p, w=w, prior=prior is not None, tight=tight)
    go = G.ParsGuesser(rng=r, pars=arg, prior=prior, widths=w)
    nrand = gen.pick(rng, [None, 1, 5])
    g0 = state(np.random.mtrand._rand)
    g = go(nrand=nrand) if rng.randint(2) else go(obs=None, nrand=nrand)
    mon.true('pars', g.shape == ((n,) if nrand is None else (nrand, n)), g.shape)
    a = g.reshape(-1, n)
    mon.true('valid', np.isfinite(a).all() and (np.hypot(a[:, 2], a[:, 3]) < 1).all(), a)
    ww = w if w is not None else np.array([0.02]*2 + [0.1]*(n - 2))
    if prior is not None:
        for row in a:
            mon.true('support', ok_lnp(prior, row), row)
    if prior is None or not tight:
        mon.true('pars', (abs(a[:, :2] - p[:2]) <= ww[:2] + EPS*abs(p[:2])).all(), a)
        for i in range(4, n):
            e = abs(p[i])*ww[i]*(1 + 1e-9)
            mon.true('range', (abs(a[:, i] - p[i]) <= e).all(), i, a[:, i], p[i], ww[i])
        # the shape: a shear of at most the width, about the shape (shrunk to 0.8)
        gg = np.hypot(p[2], p[3])
        s0 = p[2:4]*(min(gg, 0.8)/gg if gg > 0 else 1)
        gs, g0c = a[:, 2] + 1j*a[:, 3], s0[0] + 1j*s0[1]
        A, B = gs - g0c, gs*g0c
        d = (A + B*np.conj(A))/(1 - abs(B)**2)
        mon.true('range', ((abs(d.real) <= ww[2] + 1e-9) & (abs(d.imag) <= ww[3] + 1e-9)).all(), 'shape', d, ww[2:4])
    if prior is None:
        many = G.ParsGuesser(rng=np.random.RandomState(seed + 7), pars=p, widths=w)(nrand=300)
        for i in (0, 1):
            spread(mon, many[:, i], p[i] - ww[i], p[i] + ww[i], i, slack=EPS*abs(p[i]))
        for i in range(4, n):
            spread(mon, many[:, i], p[i] - abs(p[i])*ww[i], p[i] + abs(p[i])*ww[i], i)
    mon.true('global', state(np.random.mtrand._rand) == g0)
    mon.true('inputs-kept', list(arg) == keep)
    if prior is not None and not tight:
        mon.true('generator', state(pr) == state(np.random.RandomState(seed + 1)))
    mon.same('generator', G.ParsGuesser(rng=np.random.RandomState(seed), pars=p, prior=None if prior is None or tight else prior, widths=w)(nrand=nrand)
             if not tight else g, g)


def psf_guess(mon, rng, idx):
    """guesses for psf fits"""
    kind = ['mixture', 'coellip', 'simple psf'][idx % 3]
    mon._count(kind)
    ng = rng.randint(1, 6)
    fm = bool(rng.randint(2))
    d = (rng.randint(15, 35), rng.randint(15, 35))
    scale = gen.loguni(rng, 0.005, 20)
    jp, jk = gen.jac_pars(rng, d, scale=scale)
    jac = gen.make_jac(jp)
    s = jac.scale
    T0 = ngmix.moments.fwhm_to_T(3.5*s)
    model = gen.pick(rng, ['gauss', 'turb', 'noise', 'negative'])
    flux = gen.loguni(rng, 1e-2, 1e6)
    T = T0*rng.uniform(0.2, 1.5)
    g1, g2 = gen.disk(rng, 0.2)
    im = ngmix.GMixModel([0, 0, g1, g2, T, flux], 'turb' if model == 'turb' else 'gauss').make_image(d, jacobian=jac)
    if model == 'noise':
        im = im + 0.1*im.max()*rng.normal(size=d)
    if model == 'negative':
        im = -im
    obs = ngmix.Observation(im, jacobian=jac, weight=np.full(d, 1/(0.01*abs(im).max())**2))
    seed = rng.randint(2**31)
    mk = {'mixture': lambda r: G.GMixPSFGuesser(r, ng, guess_from_moms=fm) if rng.randint(2) else G.GMixPSFGuesser(rng=r, ngauss=ng, guess_from_moms=fm),
          'coellip': lambda r: G.CoellipPSFGuesser(rng=r, ngauss=ng, guess_from_moms=fm),
          'simple psf': lambda r: G.SimplePSFGuesser(rng=r, guess_from_moms=fm)}[kind]
    r = np.random.RandomState(seed)
    go = mk(r)
    mon.describe(kind=kind, ng=ng, fm=fm, d=d, scale=scale, model=model, jk=jk)
    sn = snap.snap(obs)
    g0 = state(np.random.mtrand._rand)
    out = []
    for _ in range(rng.randint(1, 4)):
        g = mon.returns('valid', go, obs=obs)
        out.append(g.get_full_pars() if kind == 'mixture' else g.copy())
        isum = im.sum()
        # what is measured: the sum and the default size, or (by moments) the flux and size
        known = not fm or model in ('gauss',)
        if kind == 'mixture':
            mon.true('mixture', isinstance(g, ngmix.GMix) and len(g) == ng)
            c = ref.gmix_components(g)
            mon.true('valid', np.isfinite(c).all() and (abs(c[:, 1:3]) <= 0.1 + EPS).all(), c)
            det = c[:, 3]*c[:, 5] - c[:, 4]**2
            mon.true('valid', (c[:, 3] > 0).all() and (c[:, 5] > 0).all() and (det > 0).all(), 'not positive definite', c)
            mon.true('valid', (c[:, 0]*np.sign(isum) > 0).all() or fm, c[:, 0])
            gF, gT = c[:, 0].sum(), (c[:, 0]*(c[:, 3] + c[:, 5])).sum()/c[:, 0].sum()
            tolF, tolT = 0.2, 0.35
            if ng == 1:
                tolF = tolT = 0.1
        else:
            npar = 6 if kind == 'simple psf' else 4 + 2*ng
            mon.true('shape', g.shape == (npar,) and np.isfinite(g).all(), g)
            mon.true('centred', (abs(g[:2]) <= 0.01 + EPS).all() and (abs(g[2:4]) <= 0.05 + EPS).all(), g)
            n1 = 1 if kind == 'simple psf' else ng
            Ts, Fs = g[4:4 + n1], g[4 + n1:]
            mon.true('valid', (Ts > 0).all() and ((Fs*np.sign(isum) > 0).all() or fm), Ts, Fs)
            gF, gT = Fs.sum(), (Ts*Fs).sum()/Fs.sum()
            tolF = 0.1 if n1 == 1 else 0.02
            tolT = 0.1 if n1 == 1 else 0.06
        if known:
            if fm:
                mon._count('moments')
                # pixels are points: moments of the gaussian itself, as long as it is inside the stamp
                inside = min(d) > 20 and jk in ('unit', 'diag', 'rot', 'flip')
                if T < 0.9*T0 and inside and abs(jp[0] - (d[0] - 1)/2) < 1.5 and np.hypot(g1, g2) < 0.15:
                    gg = g1*g1 + g2*g2
                    # deweighting by a round size: exact for round ones, better than 15 percent for these
                    slack = 0.03 + 4*gg
                    mon.true('measured', abs(gT/T - 1) < tolT + slack, 'T', gT, T)
                    mon.true('measured', abs(gF/flux - 1) < tolF + slack + 0.03, 'flux', gF, flux)
            else:
                mon.true('measured', abs(gT/T0 - 1) <= tolT + 1e-9, 'T', gT, T0)
                mon.true('measured', abs(gF - isum) <= (tolF + 1e-9)*abs(isum), 'flux', gF, isum)
    mon.true('global', state(np.random.mtrand._rand) == g0)
    mon.same('inputs-kept', snap.snap(obs), sn)
    # the same from the same seed, whatever was guessed before by other guessers
    go2 = mk(np.random.RandomState(seed))
    for k, o in enumerate(out):
        q = go2(obs.copy())
        mon.same('history', q.get_full_pars() if kind == 'mixture' else q, o)
    if len(out) > 1:
        mon.true('fresh', not np.array_equal(out[0], out[1]))


def refused(mon, rng, idx):
    mon.describe(idx=idx)
    r = np.random.RandomState(1)
    for n in (0, 6, -1, 10):
        mon.raises('refused', ValueError, G.GMixPSFGuesser, r, n)
        mon.raises('refused', ValueError, G.CoellipPSFGuesser, r, n)
    mon.raises('refused', GMixRangeError, G.R50FluxGuesser, r, -rng.uniform(), 1.0)
    mon.raises('refused', GMixRangeError, G.R50NuFluxGuesser, r, -rng.uniform(), 0.5, 1.0)


def scatter(mon, rng, idx):
    """the scatter fills the stated range and is centred on the values"""
    mk = Mk(rng, gen.pick(rng, ['TFlux', 'R50Flux', 'TFluxAndPrior', 'BDF', 'BD']))
    mk.pk = 'wide'
    go = mk.build()
    n = 4000
    g = go(nrand=n)
    mon.describe(name=mk.name, T=mk.T, F=mk.F)
    for k, v in [(4, mk.T)] + [(mk.npars - mk.nband + i, f) for i, f in enumerate(mk.F)]:
        x = g[:, k]/v - 1
        if abs(x).max() > 0.1 + 1e-9:
            continue     # some came from the prior
        # mean of uniform(-0.1, 0.1)
        mon.true('prior draw', abs(x.mean()) < 8*0.1/np.sqrt(3*n) and abs(x.std()/(0.1/np.sqrt(3)) - 1) < 0.1, k, x.mean(), x.std())
    cc = np.corrcoef(g[:, 4], g[:, -1])[0, 1]
    mon.true('prior draw', abs(cc) < 8/np.sqrt(n), 'size and flux are correlated', cc)


def spread(mon, x, lo, hi, what, slack=0.0):
    """n draws, uniform on lo..hi: both ends are reached"""
    w = (hi - lo)*25/len(x) + slack
    e = 1e-9*max(abs(lo), abs(hi)) + slack
    mon.true('spread', x.min() >= lo - e and x.max() <= hi + e, what, 'outside', lo, hi, x.min(), x.max())
    mon.true('spread', x.min() <= lo + w and x.max() >= hi - w and len(np.unique(x)) > 0.9*len(x), what, 'does not fill', lo, hi, x.min(), x.max())


def psf_scatter(mon, rng, idx):
    """every parameter of the guesses for psf fits is scattered on both sides"""
    kind = ['mixture', 'coellip', 'simple psf'][idx % 3]
    ng = 1 + (idx//3) % 5
    n = 400
    d = (rng.randint(15, 25), rng.randint(15, 25))
    jp, jk = gen.jac_pars(rng, d, scale=gen.loguni(rng, 0.05, 5))
    jac = gen.make_jac(jp)
    T0 = ngmix.moments.fwhm_to_T(3.5*jac.scale)
    flux = gen.loguni(rng, 1e-2, 1e5)
    im = ngmix.GMixModel([0, 0, 0, 0, T0, flux], 'gauss').make_image(d, jacobian=jac)
    obs = ngmix.Observation(im, jacobian=jac)
    r = np.random.RandomState(rng.randint(2**31))
    mon.describe(kind=kind, ng=ng, d=d, flux=flux)
    mon._count('scatter ' + kind)
    F = im.sum()
    if kind == 'mixture':
        go = G.GMixPSFGuesser(rng=r, ngauss=ng)
        c = np.array([go(obs=obs).get_full_pars() for _ in range(n)]).reshape(n, ng, 6)
        for k in range(ng):
            for j, what in ((1, 'row'), (2, 'col')):
                spread(mon, c[:, k, j], -0.1, 0.1, '%s of gaussian %d' % (what, k))
            for j, what in ((3, 'irr'), (5, 'icc')):
                m = 0.5*(c[:, k, 3:6:2].min() + c[:, k, 3:6:2].max())
                # +- ten percent about the same value for both
                spread(mon, c[:, k, j], 0.9*m, 1.1*m, '%s of gaussian %d' % (what, k), 0.012*m)
            if ng == 1:
                spread(mon, c[:, k, 0], 0.9*F, 1.1*F, 'flux')
                spread(mon, c[:, k, 4], -0.2*T0/2, 0.2*T0/2, 'irc')
            elif ng == 2:
                mon.true('spread', (c[:, k, 4] == 0).all(), 'irc')
            else:
                spread(mon, c[:, k, 4], -0.01*T0/2, 0.01*T0/2, 'irc of gaussian %d' % k)
                m = 0.5*(c[:, k, 0].min() + c[:, k, 0].max())
                spread(mon, c[:, k, 0], 0.9*m, 1.1*m, 'flux of gaussian %d' % k, 0.012*m)
        return
    go = G.CoellipPSFGuesser(rng=r, ngauss=ng) if kind == 'coellip' else G.SimplePSFGuesser(rng=r)
    c = np.array([go(obs=obs) for _ in range(n)])
    for j in range(2):
        spread(mon, c[:, j], -0.01, 0.01, 'cen %d' % j)
        spread(mon, c[:, 2 + j], -0.05, 0.05, 'g %d' % j)
    for j in range(4, c.shape[1]):
        m = 0.5*(c[:, j].min() + c[:, j].max())
        mon.true('spread', len(np.unique(c[:, j])) > 0.9*n, 'parameter %d' % j)
        f = (c[:, j].max() - c[:, j].min())/2/m
        mon.true('spread', 0.005 < f < 0.1 + 1e-9, 'parameter %d' % j, f)
    if kind == 'simple psf':
        spread(mon, c[:, 4], 0.9*T0, 1.1*T0, 'T')
        spread(mon, c[:, 5], 0.9*F, 1.1*F, 'flux')


def measured_scatter(mon, rng, idx):
    """the same for guessers that measure fluxes"""
    mk = Mk(rng, ['TPSFFlux', 'TPSFFluxAndPrior', 'BDFPSFFlux'][idx % 3])
    mk.pk = 'wide'
    go = mk.build()
    obs = mb_obs(rng, mk.nband, mk.F)
    F = exp_fluxes(obs)
    mon.describe(name=mk.name, F=F)
    n = 500
    g = go(obs=obs, nrand=n)
    for k, v in [(4, mk.T)] + [(mk.npars - mk.nband + i, f) for i, f in enumerate(F)]:
        x = g[:, k]/v - 1
        if abs(x).max() > 0.1 + 1e-9:
            continue     # some came from the prior
        mon._count('measured scatter')
        spread(mon, x, -0.1, 0.1, 'parameter %d' % k)


WORKLOADS = [Workload('plain', plain, 1400, 20000), Workload('measured', measured, 240, 4000), Workload('changed', changed, 12, 60),
             Workload('badband', badband, 120, 1500), Workload('pars', pars, 600, 9000), Workload('psf_guess', psf_guess, 900, 12000),
             Workload('refused', refused, 6, 20), Workload('scatter', scatter, 60, 800),
             Workload('psf_scatter', psf_scatter, 15, 150), Workload('measured_scatter', measured_scatter, 15, 150)]
