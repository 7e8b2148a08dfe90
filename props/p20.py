"""Priors on one or two parameters: all forms against one reference density."""
import contextlib
import io
import numpy as np
import scipy.stats
import scipy.special
import ngmix
from ngmix import priors as P
from ngmix.gexceptions import GMixRangeError
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P20'
RULE = """every prior class with random parameters over orders of magnitude (tiny to very wide, shifted, truncated, bounded), evaluated
at points inside, at the edge of and outside the support in scalar, array and residual form against a reference density, and
sampled against the cumulative of that density (KS test, p < 1e-10); generators compared with a twin; parameters changed between
evaluations; cases differ by class, parameters and sample size"""
REQUIRED = ['lnprob', 'prob', 'array', 'fdiff', 'peak', 'outside', 'samples', 'support', 'shape', 'generator', 'global', 'changed',
            'refused', 'bounds', 'fit', 'flat', 'erf', 'normal', 'lmbounds', 'bounded', 'lognormal', 'sinh', 'truncated', 'cen',
            'ba', 'ggauss', 'zdisk', 'kde', 'brute', 'marginal', 'angle', 'order', 'deep2d']
PMIN = 1e-10


class Spec(object):
    """reference: lnp (vectorised, -inf outside), lo and hi of the support, range for the numerical cumulative"""

    def __init__(self, obj, lnp, lo, hi, rng_lo, rng_hi, **kw):
        self.obj, self.lnp, self.lo, self.hi, self.rlo, self.rhi = obj, lnp, lo, hi, rng_lo, rng_hi
        self.forms = kw.get('forms', 'lpf')      # l lnprob, p prob, f fdiff
        self.signed = kw.get('signed', None)     # the residual itself
        self.outside = kw.get('outside', 'raise')
        self.slnp = kw.get('slnp', lnp)          # density of the samples
        self.peak = kw.get('peak', None)
        self.closed = kw.get('closed', True)     # the limits belong to the support


def make1(rng, r, kind):
    if kind == 'flat':
        a = rng.normal()*gen.loguni(rng, 0.01, 100)
        b = a + gen.loguni(rng, 1e-3, 1e3)
        return Spec(P.FlatPrior(a, b, rng=r), lambda x: np.where((x >= a) & (x <= b), 0.0, -np.inf), a, b, a, b, peak=(a + b)/2)
    if kind == 'erf':
        w1, w2 = gen.loguni(rng, 1e-3, 10), gen.loguni(rng, 1e-3, 10)
        if rng.randint(3) == 0:
            w2 = w1*gen.loguni(rng, 0.1, 10)
        a = rng.normal()*10
        b = a + (w1 + w2)*gen.loguni(rng, 5, 100)

        def lnp(x):
            # exact, without the cancellation of two nearly equal numbers
            p = np.where(x > (a + b)/2, 0.5*scipy.special.erfc((x - b)/w2) - 0.5*scipy.special.erfc((x - a)/w1),
                         0.5*scipy.special.erfc((a - x)/w1) - 0.5*scipy.special.erfc((b - x)/w2))
            with np.errstate(all='ignore'):
                return np.log(np.where(p > 0, p, 0))
        # the float form of erf ends at 1e-16
        return Spec(P.TwoSidedErf(a, w1, b, w2, rng=r), lnp, a - 3*w1, b + 3*w2, a - 5*w1, b + 5*w2, outside='low', peak=(a*w2 + b*w1)/(w1 + w2))
    if kind == 'normal':
        m, s = rng.normal()*gen.loguni(rng, 0.01, 100), gen.loguni(rng, 1e-3, 1e3)
        bounds = None if rng.randint(2) else gen.pick(rng, [(m - s, m + 2*s), [m - s, m + s]])
        o = P.Normal(m, s, rng=r, bounds=bounds) if bounds is not None or rng.randint(2) else P.Normal(mean=m, sigma=s, rng=r)
        sp = Spec(o, lambda x: -0.5*((x - m)/s)**2, -np.inf, np.inf, m - 9*s, m + 9*s, signed=lambda x: (x - m)/s, peak=m)
        sp.bounds = bounds
        return sp
    if kind == 'lmbounds':
        a = rng.normal()*10
        b = a + gen.loguni(rng, 1e-3, 1e3)
        sp = Spec(P.LMBounds(a, b, rng=r), lambda x: np.where((x >= a) & (x <= b), 0.0, -np.inf), a, b, a, b, forms='f',
                  signed=lambda x: 0*x, outside='none')
        sp.bounds = (a, b)
        return sp
    if kind == 'bounded':
        base = make1(rng, r, gen.pick(rng, ['normal', 'lognormal', 'flat', 'truncated']))
        q = np.sort(inv_cdf(base, rng.uniform(size=2)))
        a, b = float(q[0]), float(q[1])
        w = cdf_of(base)
        if w(np.array([b]))[0] - w(np.array([a]))[0] < 0.05:
            a, b = [float(v) for v in inv_cdf(base, np.array([0.2, 0.7]))]
        cls = gen.pick(rng, [P.Bounded1D, P.LimitPDF])
        lim = gen.pick(rng, [(a, b), [a, b], np.array([a, b])])
        sp = Spec(cls(base.obj, lim), lambda x: np.where((x > a) & (x < b), base.slnp(x), -np.inf), a, b, a, b, forms='')
        sp.bounds = (a, b)
        sp.base = base
        return sp
    if kind == 'lognormal':
        m = gen.loguni(rng, 1e-2, 1e3)
        s = m*gen.loguni(rng, 0.02, 3)
        sh = None if rng.randint(2) else rng.normal()*m
        v = np.log(1 + (s/m)**2)
        mu = np.log(m) - v/2
        s0 = 0.0 if sh is None else sh
        mode = np.exp(mu - v)

        def f(x):
            return -0.5*(np.log(x) - mu)**2/v - np.log(x)

        def lnp(x):
            y = np.asarray(x, dtype='f8') - s0
            with np.errstate(all='ignore'):
                return np.where(y > 0, f(np.where(y > 0, y, 1)) - f(mode), -np.inf)
        o = P.LogNormal(m, s, rng=r) if sh is None else P.LogNormal(m, s, rng=r, shift=sh)
        sp = Spec(o, lnp, s0, np.inf, s0, s0 + np.exp(mu + 8.5*np.sqrt(v)), peak=s0 + mode, closed=False)
        sp.logcdf = lambda x: scipy.stats.norm.cdf((np.log(np.maximum(np.asarray(x) - s0, 1e-300)) - mu)/np.sqrt(v))
        sp.linear = (m, s, s0)
        return sp
    if kind == 'sinh':
        m, s = rng.normal()*10, gen.loguni(rng, 1e-4, 1e6)
        return Spec(P.Sinh(m, s, rng=r), lambda x: -0.5*np.sinh((x - m)/s)**2, -np.inf, np.inf, m - s, m + s, forms='f',
                    signed=lambda x: np.sinh((x - m)/s), peak=m,
                    slnp=lambda x: np.where((x >= m - s) & (x <= m + s), 0.0, -np.inf))
    if kind == 'truncated':
        m, s = rng.normal()*10, gen.loguni(rng, 1e-2, 1e2)
        a = m + s*rng.uniform(-3, 1.0)
        b = a + s*gen.loguni(rng, 0.2, 8)
        return Spec(P.TruncatedGaussian(m, s, a, b, rng=r), lambda x: np.where((x >= a) & (x <= b), -0.5*((x - m)/s)**2, -np.inf), a, b,
                    max(a, m - 9*s), min(b, m + 9*s), forms='lf', signed=lambda x: (x - m)/s, outside='mixed',
                    peak=m if a <= m <= b else None)
    raise ValueError(kind)


KINDS1 = ['flat', 'erf', 'normal', 'lmbounds', 'bounded', 'lognormal', 'sinh', 'truncated']


def cdf_of(sp):
    if hasattr(sp, 'logcdf'):
        return sp.logcdf
    x = np.linspace(sp.rlo, sp.rhi, 60001)
    xm = 0.5*(x[1:] + x[:-1])
    if hasattr(sp, 'base') and hasattr(sp.base, 'logcdf'):
        c0 = sp.base.logcdf(np.array([sp.rlo, sp.rhi]))
        return lambda v: np.clip((sp.base.logcdf(v) - c0[0])/(c0[1] - c0[0]), 0, 1)
    p = np.exp(sp.slnp(xm))
    c = np.concatenate([[0], np.cumsum(p)])
    c /= c[-1]
    return lambda v: np.interp(v, x, c)


def inv_cdf(sp, q):
    x = np.linspace(sp.rlo, sp.rhi, 60001)
    c = cdf_of(sp)(x)
    return np.interp(q, c, x)


def state(r):
    s = r.get_state()
    return (s[1].tobytes(),) + tuple(s[2:])


def points(rng, sp):
    """inside, edge and outside"""
    x = list(inv_cdf(sp, rng.uniform(0.001, 0.999, size=6)))
    out = []
    if np.isfinite(sp.lo):
        d = max(abs(sp.lo), (sp.rhi - sp.rlo))
        out += [sp.lo - d*1e-9, sp.lo - d, sp.lo - 100*d] if sp.outside != 'low' else [sp.lo - 30*d]
        if sp.closed and sp.outside != 'low':
            x.append(sp.lo)
        elif sp.outside != 'low':
            out.append(sp.lo)
    if np.isfinite(sp.hi):
        d = max(abs(sp.hi), (sp.rhi - sp.rlo))
        out += [sp.hi + d*1e-9, sp.hi + d, sp.hi + 100*d] if sp.outside != 'low' else [sp.hi + 30*d]
        if sp.closed and sp.outside != 'low':
            x.append(sp.hi)
    return [float(v) for v in x], [float(v) for v in out]


def low(v):
    return v <= -1e37 or v == -np.inf


def forms1(mon, rng, idx):
    kind = KINDS1[idx % len(KINDS1)]
    seed = rng.randint(2**31)
    r = np.random.RandomState(seed)
    sp = make1(rng, r, kind)
    o = sp.obj
    mon._count(kind)
    x, out = points(rng, sp)
    mon.describe(kind=kind, lo=sp.lo, hi=sp.hi, x=x[:3])
    g0, r0 = state(np.random.mtrand._rand), state(r)
    ref = sp.lnp(np.array(x))
    xa = np.array(x)
    keep = xa.copy()
    rt = 1e-9
    at = 1e-9 if kind != 'erf' else 1e-8
    if 'l' in sp.forms:
        got = [mon.returns('lnprob', o.get_lnprob_scalar, v) for v in x]
        mon.close('lnprob', np.array(got, dtype='f8'), ref, rtol=rt, atol=at)
        mon.close('array', np.asarray(o.get_lnprob_array(xa)), ref, rtol=rt, atol=at)
        if sp.peak is not None:
            mon.close('peak', float(o.get_lnprob_scalar(sp.peak)), 0.0, atol=1e-8)
            mon.true('peak', max(got) < 1e-9)
    if 'p' in sp.forms:
        got = [mon.returns('prob', o.get_prob_scalar, v) for v in x]
        mon.close('prob', np.array(got, dtype='f8'), np.exp(ref), rtol=1e-8, atol=1e-12)
        mon.close('array', np.asarray(o.get_prob_array(xa)), np.exp(ref), rtol=1e-8, atol=1e-12)
    if kind == 'normal':
        mon.close('array', o.get_lnprob(xa), ref, rtol=rt, atol=at)
        mon.close('array', o.get_prob(xa), np.exp(ref), rtol=1e-8)
    if 'f' in sp.forms:
        got = np.array([mon.returns('fdiff', o.get_fdiff, v) for v in x], dtype='f8')
        mon.close('fdiff', got**2, -2*ref if kind != 'lmbounds' else 0*ref, rtol=1e-7, atol=1e-7)
        if sp.signed is not None:
            mon.close('fdiff', got, np.array([sp.signed(v) for v in x]), rtol=1e-8, atol=1e-12)
        if kind in ('normal', 'sinh', 'erf', 'lmbounds'):
            mon.close('array', np.asarray(o.get_fdiff(xa)), got, rtol=1e-12)
        if sp.peak is not None:
            mon.close('peak', float(o.get_fdiff(sp.peak)), 0.0, atol=2e-4)
    for v in out:
        for f, nm in (('l', 'lnprob'), ('p', 'prob'), ('f', 'fdiff')):
            if f not in sp.forms or sp.outside == 'none':
                continue
            sc = getattr(o, 'get_fdiff' if f == 'f' else 'get_%s_scalar' % nm)
            if sp.outside in ('raise', 'mixed'):
                mon.raises('outside', GMixRangeError, sc, v)
            elif f == 'l':
                mon.true('outside', low(sc(v)), 'lnprob', sc(v), 'outside at', v)
            elif f == 'p':
                mon.true('outside', abs(sc(v)) < 1e-15, sc(v))
            else:
                mon.true('outside', sc(v) > 8, sc(v))
            if f == 'f':
                continue
            arr = getattr(o, 'get_%s_array' % nm)
            mixed = np.array([x[0], v, x[1]])
            if sp.outside == 'raise':
                mon.raises('outside', GMixRangeError, arr, mixed)
            else:
                a = np.asarray(arr(mixed))
                mon.true('outside', a.shape == (3,) and (low(a[1]) if f == 'l' else abs(a[1]) < 1e-15), a)
                mon.close('outside', a[[0, 2]], (ref if f == 'l' else np.exp(ref))[:2], rtol=1e-8, atol=1e-8)
                a = np.asarray(arr(np.array([v, x[0]])))
                mon.true('outside', a.shape == (2,) and (low(a[0]) if f == 'l' else abs(a[0]) < 1e-15), a)
                mon.close('outside', a[1], (ref if f == 'l' else np.exp(ref))[0], rtol=1e-8, atol=1e-8)
                a = np.asarray(arr(np.array([v, v])))
                mon.true('outside', a.shape == (2,) and ((a <= -1e37).all() if f == 'l' else (abs(a) < 1e-15).all()), a)
    if kind == 'erf':
        # far into both tails, as far as the difference of two erf has digits
        for z in np.append(rng.uniform(2.5, 5.4, size=3), 5.2):
            for v in (o.minval - z*o.width_at_min, o.maxval + z*o.width_at_max):
                w = float(sp.lnp(np.array([v]))[0])
                tol = 1e-15/np.exp(w)
                if tol > 0.5:
                    continue
                e = -np.log1p(-tol) + 1e-9
                mon.true('lnprob', abs(o.get_lnprob_scalar(v) - w) < e, o.get_lnprob_scalar(v), w, z)
                mon.true('array', abs(o.get_lnprob_array(np.array([v]))[0] - w) < e)
                mon.true('prob', abs(o.get_prob_scalar(v) - np.exp(w)) < 1e-15)
                mon.true('fdiff', abs(o.get_fdiff(v)**2 + 2*w) < 2*e)
    mon.same('array', xa, keep)
    mon.true('generator', state(r) == r0, 'evaluation drew from the generator')
    mon.true('global', state(np.random.mtrand._rand) == g0)
    b = getattr(sp, 'bounds', None)
    mon.true('bounds', bool(o.has_bounds()) == (b is not None), o.bounds)
    if b is not None:
        mon.true('bounds', tuple(o.bounds) == tuple(b))


def uniform(mon, name, u, ordered=True):
    """independent and uniform on 0, 1"""
    n = u.size
    p = scipy.stats.kstest(u, 'uniform').pvalue
    mon.true(name, p > PMIN, 'KS p-value', p, 'n', n)
    nb = int(np.clip(n//50, 4, 200))
    p = scipy.stats.chisquare(np.bincount(np.clip((u*nb).astype(int), 0, nb - 1), minlength=nb)).pvalue
    mon.true(name, p > PMIN, 'chi squared p-value', p, 'n', n)
    # the far tails
    q = 30.0/n
    if q < 0.1:
        for k in ((u < q).sum(), (u > 1 - q).sum()):
            mon.true(name, scipy.stats.binomtest(int(k), n, q).pvalue > PMIN, 'tail has', k, 'expected', 30)
    if ordered:
        v = u - 0.5
        t = np.linspace(-0.5, 0.5, n)
        c1 = (v*t).sum()/np.sqrt((t*t).sum()/12)
        mon.true('order', abs(c1) < 8, 'values trend with their position by', c1, 'sigma')
        for lag in (1, 2, 7):
            c = (v[lag:]*v[:-lag]).sum()/np.sqrt((n - lag)/144.0)
            mon.true('order', abs(c) < 8, 'values follow those', lag, 'before by', c, 'sigma')
        h = n//2
        d = np.abs(np.diff(u))
        # mean distance of neighbours is 1/3; neighbours are one-dependent
        mon.true('order', abs(d.mean() - 1/3.) < 8*0.3/np.sqrt(n), 'distance of neighbours', d.mean())
        # every quarter of the sequence is uniform as well
        for k in range(4):
            p = scipy.stats.kstest(u[k*n//4:(k + 1)*n//4], 'uniform').pvalue
            mon.true('order', p > PMIN, 'quarter', k, 'p', p)


def samples1(mon, rng, idx, n=None):
    kind = KINDS1[idx % len(KINDS1)]
    seed = rng.randint(2**31)
    par = rng.randint(2**31)
    r, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    sp = make1(np.random.RandomState(par), r, kind)
    tw = make1(np.random.RandomState(par), r2, kind)
    n = n or gen.pick(rng, [500, 2000, 4000])
    mon.describe(kind=kind, n=n, lo=sp.lo, hi=sp.hi, par=par)
    mon._count(kind)
    g0 = state(np.random.mtrand._rand)
    x = sp.obj.sample(n) if rng.randint(2) else sp.obj.sample(nrand=n)
    np.random.seed(rng.randint(2**31))
    np.random.uniform(size=3)
    g1 = state(np.random.mtrand._rand)
    y = tw.obj.sample(n)
    mon.true('global', state(np.random.mtrand._rand) == g1, 'the global generator was used')
    mon.same('generator', np.asarray(x), np.asarray(y))
    mon.true('shape', isinstance(x, np.ndarray) and x.shape == (n,) and x.dtype == 'f8', x)
    s = sp.obj.sample()
    mon.true('shape', np.ndim(s) == 0 and np.isfinite(s), s)
    mon.true('generator', state(r) != state(r2), 'a sample was not drawn from the generator')
    one = sp.obj.sample(1)
    mon.true('shape', np.shape(one) == (1,), one)
    allx = np.append(x, s)
    if sp.outside != 'low':
        mon.true('support', (allx >= sp.lo).all() and (allx <= sp.hi).all(), allx.min(), allx.max())
    else:
        mon.true('support', np.isfinite(sp.obj.get_lnprob_array(allx)).all())
    cdf = cdf_of(sp)
    u = np.asarray(cdf(x))
    uniform(mon, 'samples', u)
    if 'f' in sp.forms and kind != 'sinh':
        for v in x[:5]:
            mon.returns('support', sp.obj.get_fdiff, v)
    if kind == 'lognormal':
        m, sg, s0 = sp.linear
        mon.close('samples', [sp.obj.mean, sp.obj.sigma], [m, sg])
        if sg < 0.5*m:
            mon.true('samples', abs(x.mean() - s0 - m) < 8*sg/np.sqrt(n), x.mean(), m)
        xb = sp.obj.sample_brute(n) if sg > 0.1*m else None
        if xb is not None:
            top = s0 + m + 10*sg
            c = sp.logcdf
            p = scipy.stats.kstest(xb, lambda v: np.minimum(c(v)/c(np.array([top]))[0], 1)).pvalue
            mon.true('brute', p > PMIN, 'sample_brute p-value', p)
            mon.true('shape', np.ndim(sp.obj.sample_brute()) == 0)
    if kind == 'bounded':
        lo, hi = sp.lo, sp.hi
        mid = 0.5*(lo + hi)
        o = sp.obj
        for bad in ((hi, lo), (lo, lo), (lo,), (lo, mid, hi), 3.0, None):
            mon.raises('refused', ValueError, o.set_limits, bad)
        mon.true('bounds', tuple(o.bounds) == (lo, hi), 'refused limits were kept')
        c = cdf_of(sp)(np.array([mid]))[0]
        if c > 0.02:
            o.set_limits((lo, mid))
            z = o.sample(200)
            mon.true('changed', (z >= lo).all() and (z <= mid).all() and o.bounds == (lo, mid) and z.shape == (200,))
            z = o.sample(size=7)
            mon.true('shape', z.shape == (7,))


# ------------------------------------------------------------------ two parameters
def lnp_ba(s):
    def f(g1, g2):
        gsq = np.asarray(g1)**2 + np.asarray(g2)**2
        with np.errstate(all='ignore'):
            return np.where(gsq < 1, 2*np.log(np.where(gsq < 1, 1 - gsq, 1)) - 0.5*gsq/s**2, -np.inf)
    return f


def radial_cdf(f, rmax):
    x = np.linspace(0, rmax, 40001)
    xm = 0.5*(x[1:] + x[:-1])
    c = np.concatenate([[0], np.cumsum(xm*np.exp(f(xm)))])
    c /= c[-1]
    return lambda v: np.interp(v, x, c)


def ba_forms(mon, rng, o, s, A):
    f = lnp_ba(s)
    g = np.array([gen.disk(rng, 0.999) for _ in range(6)])
    g1, g2 = g[:, 0].copy(), g[:, 1].copy()
    want = f(g1, g2)
    mon.close('lnprob', np.array([o.get_lnprob_scalar2d(a, b) for a, b in g]), want, rtol=1e-9, atol=1e-10)
    mon.close('array', o.get_lnprob_array2d(g1, g2), want, rtol=1e-9, atol=1e-10)
    mon.close('array', o.get_lnprob_array2d(list(g1), list(g2)), want, rtol=1e-9, atol=1e-10)
    mon.close('prob', np.array([o.get_prob_scalar2d(a, b) for a, b in g]), A*np.exp(want), rtol=1e-9, atol=1e-300)
    mon.close('array', o.get_prob_array2d(g1, g2), A*np.exp(want), rtol=1e-9, atol=1e-300)
    mon.close('fdiff', np.array([float(o.get_fdiff(float(a), float(b))) for a, b in g])**2, -2*want, rtol=1e-8, atol=1e-9)
    mon.close('array', o.get_fdiff(g1, g2)**2, -2*want, rtol=1e-8, atol=1e-9)
    mon.close('peak', [o.get_lnprob_scalar2d(0.0, 0.0), o.get_prob_scalar2d(0.0, 0.0)/A, o.get_fdiff(0.0, 0.0)], [0, 1, 0], atol=1e-12)
    r = np.hypot(g1, g2)
    w1 = A*2*np.pi*r*np.exp(want)
    mon.close('prob', np.array([o.get_prob_scalar1d(v) for v in r]), w1, rtol=1e-9, atol=1e-300)
    mon.close('array', o.get_prob_array1d(r), w1, rtol=1e-9, atol=1e-300)
    # outside
    t = rng.uniform(0, 2*np.pi)
    for rr in (1.0000001, 1.5, 40.0):
        a, b = rr*np.cos(t), rr*np.sin(t)
        mon.raises('outside', GMixRangeError, o.get_lnprob_scalar2d, a, b)
        mon.raises('outside', GMixRangeError, o.get_fdiff, a, b)
        mon.true('outside', o.get_prob_scalar2d(a, b) == 0 and o.get_prob_scalar1d(rr) == 0)
        m1, m2 = np.array([g1[0], a]), np.array([g2[0], b])
        v = o.get_lnprob_array2d(m1, m2)
        mon.true('outside', low(v[1]) and abs(v[0] - want[0]) < 1e-9*(1 + abs(want[0])), v)
        mon.true('outside', o.get_prob_array2d(m1, m2)[1] == 0 and o.get_prob_array1d(np.array([rr, r[0]]))[0] == 0)
        mon.true('outside', not o.get_fdiff(m1, m2)[1] < 1e9)


def ba(mon, rng, idx):
    mon._count('ba')
    seed = rng.randint(2**31)
    r = np.random.RandomState(seed)
    s = gen.loguni(rng, 0.02, 20)
    A = gen.pick(rng, [1.0, 1.0, gen.loguni(rng, 1e-5, 1e6)])
    o = P.GPriorBA(s, r) if A == 1.0 else P.GPriorBA(sigma=s, rng=r, A=A)
    hist = ['new']
    mon.describe(s=s, A=A, idx=idx)
    for step in range(rng.randint(1, 4)):
        g0 = state(np.random.mtrand._rand)
        k = rng.randint(3)
        n = gen.pick(rng, [400, 2000])
        f = lnp_ba(s)
        c = radial_cdf(lambda v: f(v, 0*v), 1.0)
        if k == 0:
            ba_forms(mon, rng, o, s, A)
        elif k == 1 or s < 0.1:
            x, y = o.sample2d(n) if rng.randint(2) else o.sample2d(nrand=n)
            mon.true('shape', x.shape == y.shape == (n,))
            check2d(mon, rng, x, y, c)
            a, b = o.sample2d()
            mon.true('shape', np.ndim(a) == 0 and np.ndim(b) == 0)
            z = o.sample1d(n)
            mon.true('shape', z.shape == (n,))
            mon.true('samples', scipy.stats.kstest(z, c).pvalue > PMIN)
            mon.true('support', (z >= 0).all() and (z < 1).all())
        else:
            x, y = o.sample2d_brute(n)
            mon.true('brute', scipy.stats.kstest(np.hypot(x, y), c).pvalue > PMIN)
            check2d(mon, rng, x, y, c)
        mon.true('global', state(np.random.mtrand._rand) == g0)
        # change it
        if step:
            mon._count('changed')
        op = rng.randint(3)
        if op == 0:
            s = gen.loguni(rng, 0.02, 20)
            o.set_sigma(s)
        elif op == 1:
            s, A = gen.loguni(rng, 0.02, 20), gen.loguni(rng, 1e-5, 1e6)
            o.set_pars(gen.pick(rng, [[A, s], np.array([A, s])]))
        hist.append(op)
    ba_forms(mon, rng, o, s, A)
    # twin
    a, b = P.GPriorBA(s, np.random.RandomState(seed)), P.GPriorBA(s, np.random.RandomState(seed))
    mon.same('generator', list(a.sample2d(20)), list(b.sample2d(20)))


def check2d(mon, rng, x, y, c, disk=True):
    r = np.hypot(x, y)
    if disk:
        mon.true('support', (r < 1).all())
    mon.true('samples', scipy.stats.kstest(r, c).pvalue > PMIN, 'radius')
    t = np.arctan2(y, x)
    mon.true('angle', scipy.stats.kstest(t, scipy.stats.uniform(-np.pi, 2*np.pi).cdf).pvalue > PMIN, 'angle')
    # radius and angle are independent
    h = r > np.median(r)
    if h.sum() > 20:
        mon.true('angle', scipy.stats.ks_2samp(t[h], t[~h]).pvalue > PMIN)


def other2d(mon, rng, idx):
    kind = ['cen', 'ggauss', 'zdisk', 'kde'][idx % 4]
    mon._count(kind)
    seed = rng.randint(2**31)
    r = np.random.RandomState(seed)
    n = gen.pick(rng, [500, 2000])
    g0 = state(np.random.mtrand._rand)
    if kind == 'cen':
        c = rng.normal(size=2)*gen.loguni(rng, 0.01, 10)
        s = np.array([gen.loguni(rng, 1e-3, 100), gen.loguni(rng, 1e-3, 100)])
        mon.describe(kind=kind, c=c, s=s, n=n)
        mk = lambda q: gen.pick(rng, [P.CenPrior, P.SimpleGauss2D])(c[0], c[1], s[0], s[1], rng=q)
        o = mk(r)
        x = c + s*rng.normal(size=(6, 2))*3
        want = -0.5*((x - c)**2/s**2)
        for (a, b), w in zip(x, want):
            mon.close('lnprob', o.get_lnprob_scalar(a, b), w.sum(), rtol=1e-9)
            mon.close('lnprob', o.get_lnprob_scalar_sep(a, b), w, rtol=1e-9)
            mon.close('prob', o.get_prob_scalar(a, b), np.exp(w.sum()), rtol=1e-8)
            f = o.get_fdiff(a, b)
            mon.close('fdiff', f, (np.array([a, b]) - c)/s, rtol=1e-9)
        mon.close('array', o.get_lnprob_array(x[:, 0], x[:, 1]), want.sum(axis=1), rtol=1e-9)
        mon.close('array', o.get_prob_array(x[:, 0], x[:, 1]), np.exp(want.sum(axis=1)), rtol=1e-8)
        mon.close('peak', [o.get_lnprob_scalar(*c), o.get_prob_scalar(*c)], [0, 1], atol=1e-14)
        a, b = o.sample(n) if rng.randint(2) else o.sample2d(nrand=n)
        mon.true('shape', a.shape == b.shape == (n,))
        for q, m, w in zip((a, b), c, s):
            mon.true('marginal', scipy.stats.kstest((q - m)/w, 'norm').pvalue > PMIN)
        mon.true('angle', abs(np.corrcoef(a, b)[0, 1]) < 7/np.sqrt(n))
        q = o.sample()
        mon.true('shape', len(q) == 2 and np.ndim(q[0]) == np.ndim(q[1]) == 0)
        mon.same('generator', list(mk(np.random.RandomState(seed)).sample(9)), list(mk(np.random.RandomState(seed)).sample(9)))
        mon.true('bounds', not o.has_bounds())
    elif kind == 'ggauss':
        s = gen.loguni(rng, 0.02, 2)
        mon.describe(kind=kind, s=s, n=n)
        o = P.GPriorGauss(s, r) if rng.randint(2) else P.GPriorGauss(pars=s, rng=r)
        x, y = o.sample2d(n)
        mon.true('shape', x.shape == y.shape == (n,))
        check2d(mon, rng, x, y, radial_cdf(lambda v: -0.5*v**2/s**2, 1 - 1e-4))
        q = o.sample2d()
        mon.true('shape', np.ndim(q[0]) == np.ndim(q[1]) == 0)
        mon.raises('refused', NotImplementedError, o.sample1d, 3)
        mon.same('generator', list(P.GPriorGauss(s, np.random.RandomState(seed)).sample2d(9)),
                 list(P.GPriorGauss(s, np.random.RandomState(seed)).sample2d(9)))
    elif kind == 'zdisk':
        R = gen.loguni(rng, 1e-3, 1e3)
        mon.describe(kind=kind, R=R, n=n)
        o = P.ZDisk2D(R, r)
        c = radial_cdf(lambda v: 0*v, R)
        x, y = o.sample2d(n)
        check2d(mon, rng, x, y, c, disk=False)
        mon.true('support', (o.get_prob_array2d(x, y) == 1).all() and np.hypot(x, y).max() < R)
        z = o.sample1d(n)
        mon.true('samples', scipy.stats.kstest(z, c).pvalue > PMIN)
        mon.true('shape', x.shape == y.shape == z.shape == (n,) and np.ndim(o.sample1d()) == 0 and np.ndim(o.sample2d()[0]) == 0)
        t = rng.uniform(0, 2*np.pi)
        for f in (0.0, 0.5, 0.999999, 1.000001, 2, 1e3):
            a, b = f*R*np.cos(t), f*R*np.sin(t)
            inn = f < 1
            mon.true('prob', o.get_prob_scalar2d(a, b) == inn and o.get_prob_scalar1d(f*R) == inn
                     and o.get_prob_array2d(a, b)[0] == inn and tuple(o.get_prob_array2d(np.array([0, a, a]), np.array([0, b, b]))) == (1, inn, inn))
            if inn:
                mon.true('lnprob', o.get_lnprob_scalar2d(a, b) == 0 and o.get_lnprob_scalar1d(f*R) == 0)
            else:
                mon.raises('outside', GMixRangeError, o.get_lnprob_scalar2d, a, b)
                mon.raises('outside', GMixRangeError, o.get_lnprob_scalar1d, f*R)
        mon.same('generator', list(P.ZDisk2D(R, np.random.RandomState(seed)).sample2d(9)),
                 list(P.ZDisk2D(R, np.random.RandomState(seed)).sample2d(9)))
    else:
        nd = rng.randint(1, 4)
        N = rng.randint(20, 300)
        data = rng.normal(size=(N, nd))*np.exp(rng.uniform(-3, 3, size=nd)) + rng.normal(size=nd)*5
        bw = gen.pick(rng, [0.1, 0.5, 'scott', 'silverman', None])
        arg = data[:, 0] if nd == 1 and rng.randint(2) else data
        mon.describe(kind=kind, nd=nd, N=N, bw=bw, flat=arg.ndim == 1)
        keep = arg.copy()
        o = P.KDE(arg, bw, rng=r)
        x = o.sample(n)
        mon.same('shape', arg, keep)
        mon.true('shape', x.shape == ((n,) if arg.ndim == 1 else (n, nd)), x.shape)
        q = o.sample()
        mon.true('shape', np.shape(q) == (() if arg.ndim == 1 else (nd,)), q)
        k = scipy.stats.gaussian_kde(data.T, bw_method=bw)
        xx = x.reshape(n, nd)
        for d in range(nd):
            sg = np.sqrt(k.covariance[d, d])
            p = scipy.stats.kstest(xx[:, d], lambda v: scipy.stats.norm.cdf((np.atleast_1d(v)[:, None] - data[:, d])/sg).mean(axis=1)).pvalue
            mon.true('marginal', p > PMIN, 'KDE marginal', p)
        mon.same('generator', P.KDE(arg, bw, np.random.RandomState(seed)).sample(5), P.KDE(arg, bw, np.random.RandomState(seed)).sample(5))
    mon.true('global', state(np.random.mtrand._rand) == g0)


def fits(mon, rng, idx):
    """fitting a prior to a density, and what it is afterwards"""
    r = np.random.RandomState(rng.randint(2**31))
    if idx % 2:
        m = gen.loguni(rng, 0.1, 100)
        s = m*rng.uniform(0.2, 0.8)
        amp = gen.loguni(rng, 0.1, 100)
        mon.describe(kind='lognormal', m=m, s=s, amp=amp)
        o = P.LogNormal(m, s, rng=r)
        x = np.linspace(0.02*m, m + 5*s, 300)
        y = amp*o.get_prob_array(x)
        res = P.LogNormal(1.0, 0.5, rng=r).fit(x, y)
        mon.event('lognormal fit flags %d' % res['flags'])
        if res['flags'] == 0:
            got = P.LogNormal(res['pars'][0], abs(res['pars'][1]), rng=r).get_prob_array(x)*res['pars'][2]
            mon.close('fit', got, y, atol=0.02*amp, rtol=0)
    else:
        s, A = rng.uniform(0.08, 0.6), gen.loguni(rng, 1, 1e3)
        mon.describe(kind='ba', s=s, A=A)
        o = P.GPriorBA(s, r, A=A)
        x = np.linspace(0.01, 0.99, 99)
        y = o.get_prob_array1d(x)
        f = P.GPriorBA(0.2, r)
        if rng.randint(2):
            f.sample1d(10)
        with contextlib.redirect_stdout(io.StringIO()):
            f.fit(x, y, guess=np.array([A*rng.uniform(0.7, 1.4), s*rng.uniform(0.8, 1.2)]))
        p = f.fit_pars
        mon.true('fit', abs(abs(p[1]) - s) < 0.02*s and abs(p[0] - A) < 0.02*A, p, s, A)
        # whatever the parameters are now, densities and samples go together
        s2 = f.sigma
        c = radial_cdf(lambda v: lnp_ba(abs(s2))(v, 0*v), 1.0)
        z = f.sample1d(2000)
        mon.true('changed', scipy.stats.kstest(z, c).pvalue > PMIN)
        mon.close('changed', f.get_prob_array1d(x), f.A*2*np.pi*x*np.exp(lnp_ba(s2)(x, 0*x)), rtol=1e-9, atol=1e-300)


def refused(mon, rng, idx):
    mon.describe(idx=idx)
    for cls, args in ((P.FlatPrior, (0, 1)), (P.TwoSidedErf, (0, 1, 10, 1)), (P.Normal, (0, 1)), (P.LMBounds, (0, 1)),
                      (P.LogNormal, (1.0, 1.0)), (P.Sinh, (0, 1)), (P.TruncatedGaussian, (0, 1, -1, 1)), (P.CenPrior, (0, 0, 1, 1)),
                      (P.GPriorBA, (0.3,)), (P.GPriorGauss, (0.3,)), (P.ZDisk2D, (1.0,))):
        mon.raises('refused', AssertionError, cls, *args, rng=None)
        mon.raises('refused', TypeError, cls, *args)
    r = np.random.RandomState(1)
    mon.raises('refused', ValueError, P.LogNormal, -rng.uniform(), 1.0, r)
    mon.raises('refused', ValueError, P.LogNormal, 0.0, 1.0, r)
    mon.raises('refused', ValueError, P.Bounded1D, P.Normal(0, 1, r), (1, 0))
    s = np.random.RandomState(5)
    x = ngmix.priors.srandu(1000, rng=s)
    mon.true('samples', x.shape == (1000,) and abs(x).max() <= 1 and abs(x.mean()) < 7*0.577/np.sqrt(1000) and x.min() < -0.9 < 0.9 < x.max())
    mon.true('shape', np.ndim(ngmix.priors.srandu(rng=s)) == 0)
    q = np.random.RandomState(3)
    mon.true('generator', ngmix.priors.make_rng(q) is q and isinstance(ngmix.priors.make_rng(None), np.random.RandomState))


def deep(mon, rng, idx):
    samples1(mon, rng, idx, n=40000 if idx % 4 else 1000000)


def deep2d(mon, rng, idx):
    """millions of samples: densities cut at their top, holes in the angles"""
    n = 2000000
    r = np.random.RandomState(rng.randint(2**31))
    kind = idx % 6
    mon._count('deep2d')
    if kind < 4:
        s = gen.loguni(rng, 0.1 if kind == 3 else 0.03, 5)
        o = P.GPriorBA(s, r)
        f = lnp_ba(s)
        mon.describe(kind='ba', how=kind, s=s)
        # sample1d stops 1e-4 before the edge
        c = radial_cdf(lambda v: f(v, 0*v), 1 - 1e-4 if kind < 3 else 1.0)
        if kind == 0:
            uniform(mon, 'samples', c(o.sample1d(n)))
            return
        x, y = o.sample2d(n) if kind < 3 else o.sample2d_brute(n//2)
        nm = 'brute' if kind == 3 else 'samples'
    elif kind == 4:
        R = gen.loguni(rng, 1e-3, 1e3)
        mon.describe(kind='zdisk', R=R)
        x, y = P.ZDisk2D(R, r).sample2d(n)
        c = lambda v: (v/R)**2
        nm = 'samples'
    else:
        s = gen.loguni(rng, 0.03, 2)
        mon.describe(kind='ggauss', s=s)
        x, y = P.GPriorGauss(s, r).sample2d(n)
        c = radial_cdf(lambda v: -0.5*v**2/s**2, 1 - 1e-4)
        nm = 'samples'
    u = c(np.hypot(x, y))
    t = np.arctan2(y, x)/(2*np.pi) + 0.5
    uniform(mon, nm, u)
    uniform(mon, 'angle', t)
    # jointly
    k = 20
    h = np.bincount(np.clip((u*k).astype(int), 0, k - 1)*k + np.clip((t*k).astype(int), 0, k - 1), minlength=k*k)
    p = scipy.stats.chisquare(h).pvalue
    mon.true('angle', p > PMIN, 'radius and angle together', p)


WORKLOADS = [Workload('forms1', forms1, 1600, 24000), Workload('samples1', samples1, 480, 8000), Workload('deep', deep, 48, 800),
             Workload('deep2d', deep2d, 36, 400), Workload('ba', ba, 300, 5000), Workload('other2d', other2d, 320, 6000), Workload('fits', fits, 60, 1000),
             Workload('refused', refused, 8, 50)]
