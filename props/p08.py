"""Rendering, likelihoods, residuals and signal-to-noise sums."""
import copy
import numpy as np
import ngmix
from ngmix import GMix
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref, snap
from vlib.core import Workload
from props.p07 import rand_mix

PROP = 'P08'
RULE = """random mixtures (models and full ones with scattered centres, negative amplitudes), image shapes from 1x1,
jacobians of every kind, weight maps with zero, negative and masked pixels, both pixel-list options, residual offsets;
then histories mixing renderings, likelihoods, flux and centre changes, copies, refused evaluations of invalid mixtures;
each number is compared with plain numpy sums over the weight map; cases differ by mixture, grid and history"""
REQUIRED = ['render-exact', 'render-fast', 'loglike', 'fdiff', 'model-s2n', 's2n-sums', 'invalid-refused', 'fexp', 'fexp orders',
            'history']
FAST = 5.0e-5


def grid_for(rng, comp, lo=1, hi=20):
    dims = gen.dims(rng, lo, hi)
    if hi == 20 and rng.randint(30) == 0:
        dims = gen.pick(rng, [gen.dims(rng, 60, 100), (2, 2600), (2600, 2), (70, 80)])
    T = np.abs(comp[:, 3] + comp[:, 5])
    sz = np.sqrt(np.median(T))
    p, kind = gen.jac_pars(rng, dims)
    p = list(p)
    s = np.sqrt(abs(p[2]*p[5] - p[3]*p[4]))
    f = sz*gen.loguni(rng, 0.1, 2.0)/s
    p[2:] = [x*f for x in p[2:]]
    # put the mixture near the middle of the grid
    m = ref.Jac(*p)
    r, c = m.rowcol(np.median(comp[:, 1]), np.median(comp[:, 2]))
    cr, cc = (np.array(dims) - 1)/2
    p[0] += cr - r
    p[1] += cc - c
    return dims, gen.make_jac(p), ref.Jac(*p), kind


def mags(comp):
    return np.column_stack([np.abs(comp[:, 0]), comp[:, 1:]])


def check_render(mon, gm, comp, dims, jac, rj, tag=''):
    e = ref.render(comp, dims, rj)
    mag = ref.render(mags(comp), dims, rj)
    peak = mag.max()
    im = gm.make_image(dims, jacobian=jac)
    # roundoff of chi2 in the exponent grows with the distance
    mon.close('render-exact', im, e, rtol=1e-8, atol=1e-280, scale=mag + peak*1e-6, detail=tag)
    fast = gm.make_image(dims, jacobian=jac, fast_exp=True)
    cut, amb = ref.render_cut(comp, dims, rj)
    mon._count('render-fast')
    mcut, _ = ref.render_cut(mags(comp), dims, rj)
    bad = np.abs(fast - cut) > FAST*mcut + amb*1.001 + 1e-8*peak*1e-6 + 1e-280
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        mon.fail('render-fast', 'pixel %s: %r, sum of gaussians %r (all %r) %s' % (i, fast[i], cut[i], e[i], tag))
    mon.true('render-type', im.shape == tuple(dims) and im.dtype == np.float64)
    return im, fast


def make_obs(rng, dims, jac, im):
    w, wkind = gen.weight_map(rng, dims)
    data = im + rng.normal(size=dims)*max(abs(im).max(), 1e-30)*gen.pick(rng, [0.0, 0.1, 1.0])
    izw = bool(rng.uniform() < 0.7)
    obs = ngmix.Observation(data, weight=w, jacobian=jac, ignore_zero_weight=izw)
    return obs, data, w, wkind, izw


def check_obs(mon, rng, gm, obs, data, w, fast, izw, tag=''):
    """all the numbers against the rendered image"""
    use = w > 0
    ww = np.where(use, w, 0.0)
    npix = int(use.sum()) if izw else w.size
    diff = fast - data
    ll = -0.5*(diff*diff*ww).sum()
    num = (data*fast*ww).sum()
    den = (fast*fast*ww).sum()
    mag = (np.abs(diff)**2*ww).sum() + 1e-300
    mon.close('loglike', gm.get_loglike(obs), ll, rtol=1e-9, scale=mag, detail=tag)
    d = gm.get_loglike(obs, more=True)
    mon.close('loglike', d['loglike'], ll, rtol=1e-9, scale=mag, detail=tag)
    mon.close('s2n-sums', d['s2n_numer'], num, rtol=1e-9, scale=(np.abs(data*fast)*ww).sum(), atol=1e-290, detail=tag)
    mon.close('s2n-sums', d['s2n_denom'], den, rtol=1e-9, atol=1e-290, detail=tag)
    mon.true('s2n-sums', d['npix'] == npix, 'npix', d['npix'], npix)
    mon.close('model-s2n', gm.get_model_s2n_sum(obs), den, rtol=1e-9, atol=1e-290, detail=tag)
    mon.close('model-s2n', gm.get_model_s2n(obs), np.sqrt(den), rtol=1e-9, atol=1e-145, detail=tag)
    start = gen.pick(rng, [0, 0, rng.randint(1, 9)])
    extra = gen.pick(rng, [0, rng.randint(1, 5)])
    fd = np.full(data.size + start + extra, 7.25)
    gm.fill_fdiff(obs, fd, start=start)
    e = (diff*np.sqrt(ww)).ravel()
    if izw:
        e = e[use.ravel()]
    mon.close('fdiff', fd[start:start + npix], e, rtol=1e-9, scale=np.abs(e).max()*1e-3 if len(e) else 0, atol=1e-290,
              detail=tag)
    mon.true('fdiff', (fd[:start] == 7.25).all() and (fd[start + npix:] == 7.25).all(), 'wrote outside its part', tag)
    short = np.zeros(data.size + start - 1)
    mon.raises('fdiff', ValueError, gm.fill_fdiff, obs, short, start=start)
    # the residuals and the likelihood describe the same fit
    mon.close('loglike', -0.5*(fd[start:start + npix]**2).sum(), ll, rtol=1e-9, scale=mag, detail='from residuals')


def evaluations(mon, rng, idx):
    gm, comp, kind = rand_mix(rng)
    dims, jac, rj, jkind = grid_for(rng, comp)
    mon.describe(kind=kind, n=len(comp), dims=dims, jkind=jkind, comp0=comp[0])
    im, fast = check_render(mon, gm, comp, dims, jac, rj)
    obs, data, w, wkind, izw = make_obs(rng, dims, jac, im)
    mon.describe(wkind=wkind, izw=izw)
    s = snap.snap(obs)
    check_obs(mon, rng, gm, obs, data, w, fast, izw)
    mon.true('inputs', snap.diff_snap(snap.snap(obs), s) is None, 'observation changed')
    if rng.uniform() < 0.3:
        # default jacobian is the unit one at the canonical centre
        d2 = gen.dims(rng, 1, 9)
        a = gm.make_image(d2)
        rr = ref.Jac((d2[0] - 1)/2, (d2[1] - 1)/2, 1, 0, 0, 1)
        e = ref.render(comp, d2, rr)
        m = ref.render(mags(comp), d2, rr)
        mon.close('render-exact', a, e, rtol=1e-8, atol=1e-280, scale=m + m.max()*1e-6, detail='default jacobian')


def history(mon, rng, idx):
    """the order of evaluations and updates does not matter"""
    gm, comp, kind = rand_mix(rng)
    if abs(comp[:, 0].sum()) < 0.05*abs(comp[:, 0]).sum():
        return
    dims, jac, rj, jkind = grid_for(rng, comp, 2, 10)
    obs, data, w, wkind, izw = make_obs(rng, dims, jac, ref.render(comp, dims, rj))
    ops = [kind]
    for _ in range(rng.randint(2, 8)):
        op = gen.pick(rng, ['flux', 'cen', 'copy', 'render', 'obs', 'norms', 'psf'])
        ops.append(op)
        if op == 'flux':
            f = gen.loguni(rng, 0.01, 100)*gen.pick(rng, [1, -1])
            gm.set_flux(f)
            comp = comp.copy()
            comp[:, 0] *= f/comp[:, 0].sum()
        elif op == 'cen':
            m = ref.mix_moments(comp)
            r, c = m[1] + rng.normal()*rj.area**0.5, m[2] + rng.normal()*rj.area**0.5
            gm.set_cen(r, c)
            comp = comp.copy()
            comp[:, 1] += r - m[1]
            comp[:, 2] += c - m[2]
        elif op == 'copy':
            gm = gen.pick(rng, [lambda x: x.copy(), copy.copy, copy.deepcopy])(gm)
        elif op == 'render':
            check_render(mon, gm, comp, dims, jac, rj, str(ops))
        elif op == 'obs':
            fast = gm.copy().make_image(dims, jacobian=jac, fast_exp=True)
            cut, amb = ref.render_cut(comp, dims, rj)
            mc, _ = ref.render_cut(mags(comp), dims, rj)
            mon.true('render-fast', (np.abs(fast - cut) <= FAST*mc + amb*1.001 + 1e-13*mc.max() + 1e-280).all(), str(ops))
            check_obs(mon, rng, gm, obs, data, w, fast, izw, str(ops))
        elif op == 'norms':
            gm.set_norms()
        elif len(comp) < 40:
            p, pc = gen.full_gmix(rng, n=2, scale=rj.area**0.5)
            gm = gm.convolve(p)
            comp = ref.convolve(comp, pc)
        mon._count('history')
    check_render(mon, gm, comp, dims, jac, rj, str(ops))
    mon.describe(ops=ops, dims=dims)


def invalid(mon, rng, idx):
    """a mixture with one bad covariance is refused every time, until it is repaired"""
    n = rng.randint(1, 7)
    comp = gen.full_gmix_pars(rng, n=n)
    bad = comp.copy()
    i = rng.randint(n)
    how = gen.pick(rng, ['zero', 'negdet', 'negT', 'line'])
    if how == 'zero':
        bad[i, 3:] = 0.0
    elif how == 'negdet':
        bad[i, 4] = 1.1*np.sqrt(bad[i, 3]*bad[i, 5])
    elif how == 'negT':
        bad[i, 3:] = [-bad[i, 3], 0.0, -bad[i, 5]]
    else:
        bad[i, 3:] = [bad[i, 3], 0.0, 0.0]
    mon.describe(n=n, i=i, how=how)
    gm = GMix(pars=comp.ravel())
    dims, jac, rj, jkind = grid_for(rng, comp, 2, 8)
    obs, data, w, wkind, izw = make_obs(rng, dims, jac, ref.render(comp, dims, rj))
    if rng.uniform() < 0.5:
        gm.make_image(dims, jacobian=jac)
    gm.fill(bad.ravel())
    fd = np.zeros(data.size)
    calls = [lambda g: g.make_image(dims, jacobian=jac), lambda g: g.make_image(dims, jacobian=jac, fast_exp=True),
             lambda g: g.get_loglike(obs), lambda g: g.get_loglike(obs, more=True), lambda g: g.fill_fdiff(obs, fd),
             lambda g: g.get_model_s2n(obs), lambda g: g.get_model_s2n_sum(obs), lambda g: g.set_norms()]
    if not (izw is False and (w <= 0).any()) and np.isfinite(gm.get_T()) and gm.get_T() > 0:
        calls.append(lambda g: g.get_weighted_sums(obs))
    for k in rng.permutation(len(calls)):
        for _ in range(rng.randint(1, 3)):
            g = gm if rng.uniform() < 0.8 else gm.copy()
            mon.raises('invalid-refused', GMixRangeError, calls[k], g)
    gm.fill(comp.ravel())
    im, fast = check_render(mon, gm, comp, dims, jac, rj, 'repaired')
    check_obs(mon, rng, gm, obs, data, w, fast, izw, 'repaired')


def fexp(mon, rng, idx):
    try:
        from ngmix.fastexp_nb import fexp_arr, FASTEXP_MAX_CHI2, exp3, exp4, exp5
    except ImportError:
        mon.event('fast exponentials not found')
        mon._count('fexp')
        mon._count('fexp orders')
        return
    x = -0.5*FASTEXP_MAX_CHI2*rng.uniform(size=2000)
    x[:200] = np.arange(200)*(-0.5*FASTEXP_MAX_CHI2/199)
    x[200:230] = np.clip(np.round(x[200:230]) + gen.pick(rng, [0.0, 1e-9, -1e-9, 0.5]), -12.5, 0.0)
    mon.describe(x=x[300], y=x[200])
    mon.close('fexp', fexp_arr(x), np.exp(x), rtol=4.2e-5)
    # the three orders, with the accuracy each states, over the whole table
    y = -15*rng.uniform(size=40)
    y[:16] = -np.arange(16.0)
    y[16:20] = np.clip(-rng.randint(16, size=4) + gen.pick(rng, [1e-9, -1e-9, 0.5]), -15, 0)
    for f, tol in ((exp3, 4.2e-3), (exp4, 4.2e-4), (exp5, 4.2e-5)):
        mon.close('fexp orders', np.array([f(v) for v in y]), np.exp(y), rtol=tol)


WORKLOADS = [
    Workload('evaluations', evaluations, 3000, 40000, warm=9),
    Workload('history', history, 2000, 30000, warm=9),
    Workload('invalid', invalid, 800, 8000, warm=4),
    Workload('fexp', fexp, 60, 600),
]
