"""N-dimensional mixtures against scipy's multivariate normals; samples against the distribution function of projections."""
import os
import shutil
import tempfile
import numpy as np
import scipy.stats
from scipy.special import logsumexp, ndtr
from ngmix.gmix_ndim import GMixND
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P26'
RULE = """mixtures with 1 to 6 dimensions and 1 to 8 gaussians of very different widths and correlations, points at, near and up to
1e12 widths from the means, scalar and array, total and per component, points of wrong dimensions; histories of set, fit, save,
load, sample and evaluate on one object, after each of which densities and samples must be those of the current mixture; cases
differ by dimensions, number of gaussians and history"""
REQUIRED = ['lnprob', 'prob', 'component', 'sum', 'array', 'far', 'wrong-dim', 'new', 'inputs-kept', 'sample', 'sample-shape', 'own-rng',
            'loaded', 'fit', 'incomplete', 'op set', 'op fit', 'op load', 'op sample']


def rand_mix(rng, nd=None, ng=None, spread=None):
    nd = nd or rng.randint(1, 7)
    ng = ng or rng.randint(1, 9)
    w = rng.uniform(0.05, 1, size=ng)
    w /= w.sum()
    sc = gen.loguni(rng, 1e-2, 1e2)
    mu = sc*rng.normal(size=(ng, nd))*gen.pick(rng, [1, 5, 20])
    cov = np.zeros((ng, nd, nd))
    for i in range(ng):
        q, _ = np.linalg.qr(rng.normal(size=(nd, nd)))
        ev = np.exp(rng.uniform(-2, 2, size=nd))*sc**2
        cov[i] = (q*ev) @ q.T
        cov[i] = 0.5*(cov[i] + cov[i].T)
    return w, mu, cov


def lnparts(mix, x):
    w, mu, cov = mix
    out = []
    for i in range(w.size):
        L = np.linalg.cholesky(cov[i])
        z = np.linalg.solve(L, x - mu[i])
        out.append(np.log(w[i]) - 0.5*(z*z).sum() - np.log(np.diag(L)).sum() - 0.5*len(x)*np.log(2*np.pi))
    return np.array(out)


def cdf(mix, a):
    """of the projection on a"""
    w, mu, cov = mix
    m = mu @ a
    s = np.sqrt(np.einsum('i,kij,j->k', a, cov, a))

    def f(t):
        return (w*ndtr((np.asarray(t)[..., None] - m)/s)).sum(axis=-1)
    return f


def check_density(mon, rng, g, mix, n=6):
    w, mu, cov = mix
    nd = mu.shape[1]
    pts = []
    for _ in range(n):
        k = rng.randint(w.size)
        r = gen.pick(rng, [0, 1, 1, 3, 30, 1e3, 1e5, 1e6, 1e8, 1e12])
        L = np.linalg.cholesky(cov[k])
        pts.append(mu[k] + r*(L @ rng.normal(size=nd)))
        if r > 1e4:
            mon._count('far')
    pts = np.array(pts)
    lp = np.array([lnparts(mix, p) for p in pts])
    tot = logsumexp(lp, axis=1)
    arg = pts if nd > 1 or rng.randint(2) else pts[:, 0]
    la, pa = g.get_lnprob_array(arg), g.get_prob_array(arg)
    mon.close('lnprob', la, tot, rtol=1e-9, atol=1e-9)
    mon.close('prob', pa, np.exp(tot), rtol=1e-8*(1 + abs(tot).clip(max=1e3)), atol=1e-300)
    c = rng.randint(w.size)
    mon.close('component', g.get_lnprob_array(arg, component=c), lp[:, c], rtol=1e-9, atol=1e-9)
    mon.close('component', g.get_prob_array(arg, component=c), np.exp(lp[:, c]), rtol=1e-8*(1 + abs(lp[:, c]).clip(max=1e3)), atol=1e-300)
    s = sum(g.get_prob_array(arg, component=i) for i in range(w.size))
    mon.close('sum', s, pa, rtol=1e-9, atol=1e-300)
    for i, p in enumerate(pts):
        a = p if nd > 1 else gen.pick(rng, [p, float(p[0]), [float(p[0])]])
        if nd > 1 and rng.randint(2):
            a = list(p)
        mon.same('array', [float(g.get_lnprob_scalar(a)), float(g.get_prob_scalar(a)), float(g.get_lnprob_scalar(a, component=c)),
                           float(g.get_prob_scalar(a, component=c))],
                 [float(la[i]), float(pa[i]), float(g.get_lnprob_array(arg, component=c)[i]), float(g.get_prob_array(arg, component=c)[i])])
    bad = [np.zeros(nd + 1)] + ([np.zeros(nd - 1)] if nd > 1 else [])
    for b in bad:
        mon.raises('wrong-dim', ValueError, g.get_lnprob_scalar, b)
        mon.raises('wrong-dim', ValueError, g.get_prob_scalar, b, component=0)
        mon.raises('wrong-dim', ValueError, g.get_prob_array, np.zeros((2, len(b))) if len(b) > 1 or nd > 1 else np.zeros((2, 2)))
    mon.raises('wrong-dim', Exception, g.get_prob_scalar, np.zeros(nd), component=w.size)
    mon.raises('wrong-dim', Exception, g.get_prob_scalar, np.zeros(nd), component=-1)


def check_samples(mon, rng, g, mix, n=400):
    nd = mix[1].shape[1]
    s = g.sample(n)
    mon.true('sample-shape', s.shape == ((n,) if nd == 1 else (n, nd)), s.shape)
    one = g.sample()
    mon.true('sample-shape', np.shape(one) == (() if nd == 1 else (nd,)), np.shape(one))
    mon.true('sample-shape', g.sample(1).shape == ((1,) if nd == 1 else (1, nd)))
    s = s.reshape(n, nd)
    # what is drawn is new every time
    again = g.sample(n).reshape(n, nd)
    mon.true('new', not np.isin(again[:, 0], s[:, 0]).any() and np.unique(s[:, 0]).size == n, 'values drawn before')
    for a in [np.eye(nd)[rng.randint(nd)], rng.normal(size=nd)]:
        r = scipy.stats.kstest(s @ a, cdf(mix, a))
        mon.true('sample', r.pvalue > 1e-10, 'samples do not follow the mixture', r.pvalue, 'dims', nd)
        mon.event('samples compared', n)


def run(mon, rng, idx):
    tmp = None
    seed = rng.randint(2**31)
    own = np.random.RandomState(seed)
    mix = rand_mix(rng)
    given = [m.copy() for m in mix]
    kw = dict(rng=own)
    order = gen.pick(rng, ['C', 'F'])
    args = [np.array(m, order=order) for m in given]
    if rng.randint(3) == 0:
        args = [m.astype('>f8') for m in args]
    if mix[1].shape[1] == 1 and rng.randint(2):
        args[1], args[2] = args[1][:, 0].copy(), args[2][:, 0, 0].copy()
    g = GMixND(weights=args[0], means=args[1], covars=args[2], **kw)
    for a in args:
        a[...] = 99.0   # ours
    ops = []
    gl = np.random.get_state()
    try:
        for _ in range(rng.randint(1, 6)):
            op = gen.pick(rng, ['set', 'fit', 'load', 'sample', 'sample', 'eval', 'eval'])
            ops.append(op)
            mon.event('op ' + op)
            if op == 'set':
                mix = rand_mix(rng)
                a = [m.copy() for m in mix]
                g.set_mixture(*a)
                mon.same('inputs-kept', a, list(mix))
                a[1][...] = 7
            elif op == 'fit':
                nd = rng.randint(1, 3)
                true = rand_mix(rng, nd=nd, ng=rng.randint(1, 3))
                N = 300
                k = rng.choice(true[0].size, p=true[0], size=N)
                data = np.array([rng.multivariate_normal(true[1][i], true[2][i]) for i in k])
                arg = data[:, 0].copy() if nd == 1 and rng.randint(2) else data.copy()
                keep = arg.copy()
                ng = rng.randint(1, 4)
                with open(os.devnull, 'w') as f:
                    import contextlib
                    with contextlib.redirect_stdout(f):
                        g.fit(arg, ng, min_covar=1e-8)
                mon.same('inputs-kept', arg, keep)
                mon.true('fit', g.weights.shape == (ng,) and g.means.shape == (ng, nd) and g.covars.shape == (ng, nd, nd)
                         and g.ngauss == ng and g.ndim == nd)
                mon.true('fit', isinstance(bool(g.converged), bool))
                mon.close('fit', g.weights.sum(), 1.0, rtol=1e-9)
                mon.close('fit', g.weights @ g.means, data.mean(axis=0), rtol=1e-6, atol=1e-6*np.abs(data).max())
                mix = (g.weights.copy(), g.means.copy(), g.covars.copy())
                c = np.cov(data.T, bias=True).reshape(nd, nd)
                ll = g.get_lnprob_array(arg).mean()
                one = scipy.stats.multivariate_normal(data.mean(axis=0), c + 1e-8*np.eye(nd)).logpdf(data.reshape(N, nd)).mean()
                mon.true('fit', ll > one - 0.1, 'fit is worse than one gaussian', ll, one)
                if rng.randint(2):
                    mix2 = rand_mix(rng)
                    g.set_mixture(*mix2)
                    mix = mix2
            elif op == 'load':
                tmp = tmp or tempfile.mkdtemp(prefix='p26')
                fn = os.path.join(tmp, 'mix.fits')
                with open(os.devnull, 'w') as f:
                    import contextlib
                    with contextlib.redirect_stdout(f):
                        g.save_mixture(fn)
                        if rng.randint(2):
                            g2 = GMixND(*rand_mix(rng), rng=own)
                            g2.sample(3)
                            g2.load_mixture(fn)
                        else:
                            g2 = GMixND(file=fn, rng=own)
                mon.same('loaded', [g2.weights, g2.means, g2.covars], [np.asarray(x, dtype='f8') for x in mix])
                g = g2
            elif op == 'sample':
                check_samples(mon, rng, g, mix)
            else:
                check_density(mon, rng, g, mix)
            if op not in ('sample', 'eval'):
                check_density(mon, rng, g, mix, 2)
                check_samples(mon, rng, g, mix, 200)
    finally:
        if tmp:
            shutil.rmtree(tmp)
    mon.describe(nd=mix[1].shape[1], ng=mix[0].size, ops=ops)
    g2 = np.random.get_state()
    mon.true('own-rng', gl[2] == g2[2] and np.array_equal(gl[1], g2[1]), 'the global generator was used')
    # samples come from the generator given
    a = GMixND(*mix, rng=np.random.RandomState(seed)).sample(5)
    b = GMixND(*mix, rng=np.random.RandomState(seed)).sample(5)
    c = GMixND(*mix, rng=np.random.RandomState(seed + 1)).sample(5)
    mon.same('own-rng', a, b)
    mon.true('own-rng', not np.array_equal(a, c), 'another seed gives the same')
    k = rng.randint(3)
    parts = dict(zip(['weights', 'means', 'covars'], mix))
    parts.pop(['weights', 'means', 'covars'][k])
    mon.raises('incomplete', RuntimeError, GMixND, **parts)


WORKLOADS = [Workload('run', run, 900, 20000)]
