"""EM: every iteration against a numpy EM step, conservation, fixed quantities, honest flags."""
import numpy as np
import ngmix
from ngmix.em.em import EMFitter, EMFitterFixCen, EMFitterFixCov, EMFitterFluxOnly, run_em, prep_obs, prep_image
from ngmix.flags import EM_RANGE_ERROR, EM_MAXITER
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P12'
RULE = """random images made of one to three gaussians (and blank, constant or negative ones), with and without psf mixtures of
one to three gaussians (centred, offset, elliptical) and noise, guesses of one to three gaussians from close to absurd, all
four variants, sky given, found or varied, masked pixels filled in, tolerances and iteration limits; the mixture after n
iterations is compared with one numpy EM step applied to the mixture after n-1; cases differ by image, guess and settings"""
REQUIRED = ['em-step', 'conserve-exact', 'conserve', 'converged', 'maxiter', 'fixed', 'range-error', 'image', 'prep',
            'inputs-kept', 'repeat', 'own', 'fdiff', 'fixed-point']

KINDS = {'free': EMFitter, 'fixcen': EMFitterFixCen, 'fixcov': EMFitterFixCov, 'fluxonly': EMFitterFluxOnly}


class Ambiguous(Exception):
    pass


def model_values(conv, v, u, area):
    """per gaussian model pixel values, cut at chi2=25 like the kernels say"""
    out = np.zeros((len(conv), v.size))
    chi = np.zeros((len(conv), v.size))
    for k, (p, row, col, irr, irc, icc) in enumerate(conv):
        det = irr*icc - irc*irc
        if det <= 1e-200:
            raise Ambiguous
        dv, du = v - row, u - col
        chi2 = (icc*dv*dv + irr*du*du - 2*irc*dv*du)/det
        ok = (chi2 < 25) & (chi2 >= 0)
        out[k] = np.where(ok, p/(2*np.pi*np.sqrt(det))*np.exp(-0.5*np.where(ok, chi2, 0))*area, 0)
        chi[k] = chi2
    return out, chi


def em_step(kind, comp, psf, v, u, val, masked, area, sky, vary):
    """one EM iteration; returns components, the sky, the likelihood of the input, sums"""
    conv = ref.convolve(comp, psf)
    npsf = len(psf)
    g, chi = model_values(conv, v, u, area)
    gsum = g.sum(axis=0)
    if masked.any():
        val = np.where(masked, sky + gsum, val)
    gtot = gsum + sky
    fac = val/gtot
    with np.errstate(all='ignore'):
        lt = np.log(conv[:, 0])
        ld = np.log(conv[:, 3]*conv[:, 5] - conv[:, 4]**2)
        ll = (g*(lt - 0.5*ld)[:, None] - 0.5*g*np.where(g != 0, chi, 0)).sum(axis=0)
        elogl = np.where(gsum != 0, ll/np.where(gsum != 0, gsum, 1), 0).sum()
    pm = ref.mix_moments(psf)
    out = comp.copy()
    for i in range(len(comp)):
        s = slice(i*npsf, (i + 1)*npsf)
        w = g[s]*fac
        p = w.sum()
        if not p > 0 or p < 1e-8*abs(val).sum():
            raise Ambiguous
        out[i, 0] = p
        if kind in ('free', 'fixcov'):
            out[i, 1] = (w*v).sum()/p
            out[i, 2] = (w*u).sum()/p
        if kind in ('free', 'fixcen'):
            dv = v[None, :] - conv[s, 1][:, None]
            du = u[None, :] - conv[s, 2][:, None]
            a, b, c = (w*dv*dv).sum()/p, (w*dv*du).sum()/p, (w*du*du).sum()/p
            size = a + c
            a, b, c = a - pm[3], b - pm[4], c - pm[5]
            if min(abs(a), abs(c), abs(a*c - b*b)/size) < 2e-3*size:
                raise Ambiguous
            if a < 0 or c < 0:
                a, b, c = 1e-4, 0.0, 1e-4
            elif a*c - b*b < 0:
                a = c = (a + c)/2
                b = 0.0
            out[i, 3:] = a, b, c
    skysum = (sky*val/gtot).sum()
    return out, (skysum/v.size if vary else sky), elogl, skysum, val.sum()


def make_case(rng, plain=False, gmax=0.5):
    dims = (rng.randint(9, 26), rng.randint(9, 26))
    jp, jkind = gen.jac_pars(rng, dims)
    rj = ref.Jac(*jp)
    s = np.sqrt(rj.area)
    n = gen.pick(rng, [1, 1, 2, 3, 1, 1, 2, 3, 4, 6])
    comp = gen.full_gmix_pars(rng, n=n, scale=s, spread=1.5 if n > 1 else 0.5, Tmin=3, Tmax=min(dims)*1.5, gmax=gmax)
    comp[:, 0] *= gen.loguni(rng, 0.1, 1e3)
    psf = None
    pk = gen.pick(rng, ['none', 'none', 'nogmix', 'one', 'many', 'offset'])
    if pk in ('one', 'many', 'offset'):
        psf = gen.full_gmix_pars(rng, n=1 if pk == 'one' else gen.pick(rng, [2, 3, 3, 4, 5]), scale=s, spread=0.0, Tmin=1, Tmax=4, gmax=0.4)
        if pk == 'offset':
            psf[:, 1:3] += rng.normal(size=2)*s
        psf[:, 0] *= gen.loguni(rng, 0.1, 10)
    ikind = 'good' if plain else gen.pick(rng, ['good']*7 + ['blank', 'const', 'neg', 'noise'])
    conv = comp if psf is None else ref.convolve(comp, psf)
    im = ref.render(conv, dims, rj)
    noise = gen.pick(rng, [0, 1e-4, 1e-2, 0.1])
    im = im + noise*im.max()*rng.normal(size=dims)
    if ikind == 'blank':
        im = np.zeros(dims)
    elif ikind == 'const':
        im = np.full(dims, 3.0)
    elif ikind == 'neg':
        im = -im
    elif ikind == 'noise':
        im = rng.normal(size=dims)
    gk = 'near' if plain else gen.pick(rng, ['near', 'near', 'near', 'far', 'other'])
    if gk == 'other':
        guess = gen.full_gmix_pars(rng, n=rng.randint(1, 4), scale=s, spread=2, Tmin=1, Tmax=40, gmax=0.6)
        guess[:, 0] *= max(im.sum(), 1)/len(guess)
    else:
        guess = comp.copy()
        a = 0.1 if gk == 'near' else 0.6
        guess[:, 0] *= np.exp(a*rng.normal(size=n))
        guess[:, 1:3] += a*s*rng.normal(size=(n, 2))
        guess[:, 3:] *= np.exp(a*rng.normal(size=(n, 1)))
    return dims, jp, jkind, rj, s, im, ikind, psf, pk, guess, gk


def make_obs(rng, im, jp, psf, pk, w=None, izw=True):
    kw = {}
    if pk != 'none':
        pim = rng.normal(size=(11, 11))
        kw['psf'] = ngmix.Observation(pim, gmix=None if psf is None else ngmix.GMix(pars=psf.ravel()))
    if w is not None:
        kw['weight'] = w
    return ngmix.Observation(im.copy(), jacobian=gen.make_jac(jp), ignore_zero_weight=izw, **kw)


def steps(mon, rng, idx):
    plain = rng.uniform() < 0.5
    dims, jp, jkind, rj, s, im, ikind, psf, pk, guess, gk = make_case(rng, plain, gen.pick(rng, [0.5, 0.5, 0.97]))
    kind = gen.pick(rng, list(KINDS))
    vary = bool(rng.uniform() < 0.4)
    skyk = gen.pick(rng, ['none', 'given', 'masked'])
    maxiter = int(gen.pick(rng, [0, 1, 2, 3, 5, 10, 30, 100, 300]))
    miniter = int(gen.pick(rng, [1, 2, 5, 20]))
    tol = gen.pick(rng, [1e-2, 1e-3, 1e-5, 1e-7])
    mon.describe(dims=dims, jac=jkind, image=ikind, psf=pk, guess=gk, n=len(guess), kind=kind, vary=vary, sky=skyk,
                 maxiter=maxiter, miniter=miniter, tol=tol)
    mon.event('variant ' + kind)
    masked = np.zeros(dims, dtype=bool)
    if skyk == 'none':
        obs = make_obs(rng, im, jp, psf, pk)
        sky = None
        sky0 = 0.001*(im.max() - im.min()) - im.min()
        val = im + sky0
    else:
        sky = sky0 = max(im.max() - im.min(), 1e-3)*gen.loguni(rng, 0.01, 1) + max(-im.min(), 0)
        val = im + sky0
        w = np.ones(dims)
        if skyk == 'masked':
            mk = rng.randint(5)
            if mk == 0:
                masked[gen.pick(rng, [(0, 0), (-1, -1), (0, -1), (dims[0]//2, dims[1]//2)])] = True
            elif mk == 1:
                masked[:, rng.randint(dims[1])] = True
            else:
                masked = rng.uniform(size=dims) < 0.15
            if masked.all():
                masked[0, 0] = False
            w[masked] = 0.0
            val = np.where(masked, 1e4*np.abs(val).max() + 1, val)
        obs = make_obs(rng, val, jp, psf, pk, w=w, izw=False)
    v, u = rj.grid(dims)
    v, u = v.ravel(), u.ravel()
    pc = np.array([[1.0, 0, 0, 0, 0, 0]]) if psf is None else psf
    gg = ngmix.GMix(pars=guess.ravel())
    if rng.uniform() < 0.3:
        gg.set_norms()
    before = snap.snap([obs, gg])

    def fit(mini, maxi, t=tol):
        f = KINDS[kind](miniter=mini, maxiter=maxi, tol=t, vary_sky=vary)
        if rng.uniform() < 0.5:
            if rng.uniform() < 0.3:
                # the fitter was used before, for something else
                o2 = ngmix.Observation(rng.uniform(size=(7, 6)), jacobian=ngmix.DiagonalJacobian(row=3, col=3, scale=s))
                f.go(o2, ngmix.GMixModel([0, 0, 0.1, 0, 4*s*s, 3.0], gen.pick(rng, ['gauss', 'exp'])), sky=0.3)
            r = f.go(obs, gg) if sky is None else f.go(obs=obs, guess=gg, sky=sky)
        else:
            kw = {} if kind == 'free' else {kind: True}
            r = run_em(obs, gg, sky=sky, miniter=mini, maxiter=maxi, tol=t, vary_sky=vary, **kw)
        d = snap.diff_snap(before, snap.snap([obs, gg]))
        mon.true('inputs-kept', d is None, d)
        return r

    res = fit(miniter, maxiter)
    fl = res['flags']
    mon.event('flags %d' % fl)
    mon.true('flag-known', fl in (0, EM_RANGE_ERROR, EM_MAXITER), fl)
    if fl & EM_RANGE_ERROR:
        mon.true('range-error', not res.has_gmix(), 'range error but a mixture')
        mon.raises('range-error', RuntimeError, res.get_gmix)
        mon.raises('range-error', RuntimeError, res.get_convolved_gmix)
        mon.raises('range-error', RuntimeError, res.make_image)
        # it has to be invalid somewhere on the way
        honest_range(mon, kind, guess, pc, v, u, val.ravel(), masked.ravel(), rj.area, sky0, vary, maxiter)
        return
    n = res['numiter']
    mon.true('converged' if fl == 0 else 'maxiter', n <= maxiter and (fl != 0) == (n >= maxiter), 'flags', fl, 'numiter', n,
             'maxiter', maxiter)
    if fl == 0:
        mon.true('converged', miniter <= n < maxiter and res['fdiff'] < tol and np.isfinite(res['fdiff']),
                 n, miniter, maxiter, res['fdiff'], tol)
        mon.true('converged', res['message'] == 'OK')
    elif n >= 1 and n >= miniter:
        pass
    else:
        mon.true('maxiter', not res['fdiff'] < tol or n >= miniter, 'fdiff small though never tested', res['fdiff'])
    gm = res.get_gmix()
    comp = ref.gmix_components(gm)
    cv = ref.gmix_components(res.get_convolved_gmix())
    if kind in ('fixcen', 'fluxonly'):
        mon.same('fixed', comp[:, 1:3], guess[:, 1:3], kind)
    if kind in ('fixcov', 'fluxonly'):
        mon.same('fixed', comp[:, 3:], guess[:, 3:], kind)
    if not vary:
        mon.same('fixed', float(res['sky']), float(sky0)) if sky is not None else mon.close(
            'fixed', res['sky'], sky0, rtol=1e-13)
    if not np.isfinite(comp).all():
        mon.true('finite', fl != 0, 'no flag, but', comp)
        return
    if fl == 0:
        det = comp[:, 3]*comp[:, 5] - comp[:, 4]**2
        mon.true('valid', (det > 0).all() and (comp[:, 3] + comp[:, 5] > 0).all(), comp)
        mon.true('valid', (comp[:, 0] >= 0).all() or im.sum() < 0 or masked.any() or (val < 0).any(), comp)
    # the convolved mixture is the mixture convolved
    want = ref.convolve(comp, pc)
    sc = np.array([abs(want[:, 0]).max() + 1e-300, s*10, s*10] + [want[:, 3].max()]*3)
    mon.close('convolved', cv, want, rtol=1e-8, scale=sc)
    if (want[:, 3]*want[:, 5] - want[:, 4]**2 > 1e-9*(want[:, 3] + want[:, 5])**2).all():
        e = ref.render(want, dims, rj)
        mon.close('image', res.make_image(), e, rtol=1e-7, scale=abs(e).max())
    # flux bookkeeping that holds exactly
    tot = val.sum()
    if vary and n > 0 and not masked.any():
        mon.close('conserve-exact', comp[:, 0].sum() + res['sky']*v.size, tot, rtol=1e-9, scale=abs(val).sum())
    # what is handed out belongs to the caller
    for get in (res.get_gmix, res.get_convolved_gmix):
        o = get()
        o.set_flux(1.0 + rng.uniform())
        o.get_data()['row'] += 3.0
        o.get_data()['irr'] *= 2.0
    mon.same('own', [ref.gmix_components(res.get_gmix()), ref.gmix_components(res.get_convolved_gmix())], [comp, cv])
    # again: same answer
    mon.same('repeat', ref.gmix_components(fit(miniter, maxiter).get_gmix()), comp)
    if n == 0:
        mon.same('em-step', comp, guess)
        return
    # one step from the previous iteration
    if n == 1:
        prev, psky = guess, sky0
        pr = None
    else:
        pr = fit(miniter, n - 1)
        if pr['flags'] & EM_RANGE_ERROR:
            mon.fail('repeat', '%d iterations work, %d do not' % (n, n - 1))
        prev, psky = ref.gmix_components(pr.get_gmix()), pr['sky']
        mon.true('maxiter', pr['flags'] == EM_MAXITER and pr['numiter'] == n - 1)
        if n - 1 >= miniter:
            mon.true('converged', not pr['fdiff'] < tol, 'went on after it converged', pr['fdiff'], tol)
    again = fit(miniter, n)
    mon.same('repeat', ref.gmix_components(again.get_gmix()), comp, 'the same number of iterations')
    if not np.isfinite(prev).all() or (prev[:, 0] <= 0).any():
        return
    try:
        out, sk, ell, skysum, vs = em_step(kind, prev, pc, v, u, val.ravel(), masked.ravel(), rj.area, psky, vary)
    except Ambiguous:
        mon.event('step not comparable')
        return
    T = out[:, 3] + out[:, 5] + (pc[:, 3] + pc[:, 5]).max()
    sc = np.column_stack([np.full(len(out), 0.1*abs(out[:, 0]).sum()), np.sqrt(T), np.sqrt(T), T, T, T])
    mon.close('em-step', comp, out, rtol=4e-4, scale=sc, detail='%s, iteration %d' % (kind, n))
    mon.close('em-step', res['sky'], sk, rtol=1e-3, detail='sky')
    mon.close('conserve', comp[:, 0].sum() + skysum, vs, rtol=4e-4, scale=abs(val).sum() if not masked.any() else abs(vs))
    if n >= max(miniter, 2) and kind != 'fluxonly':
        if n == 2:
            p2, s2 = guess, sky0
        else:
            r2 = fit(miniter, n - 2)
            p2, s2 = ref.gmix_components(r2.get_gmix()), r2['sky']
        try:
            l2 = em_step(kind, p2, pc, v, u, val.ravel(), masked.ravel(), rj.area, s2, vary)[2]
        except Ambiguous:
            return
        if np.isfinite(ell) and np.isfinite(l2) and abs(ell) > 1e-3*v.size:
            fd = abs((ell - l2)/ell)
            mon.close('fdiff', res['fdiff'], fd, rtol=0.02, atol=5e-4)
    elif n >= miniter:
        last = prev[:, 0].sum()
        if kind == 'fluxonly':
            mon.close('fdiff', res['fdiff'], abs(comp[:, 0].sum()/last - 1), rtol=1e-9, atol=1e-12)


def honest_range(mon, kind, comp, pc, v, u, val, masked, area, sky, vary, maxiter):
    """a range error is believable unless every iteration is comfortably valid"""
    mon._count('range-error')
    try:
        for i in range(min(maxiter, 60)):
            comp, sky, ell, _, _ = em_step(kind, comp, pc, v, u, val, masked, area, sky, vary)
            if sky <= 0 or not np.isfinite(comp).all() or (comp[:, 0] <= 0).any() or abs(ell) < 1e-3*v.size:
                return
    except Ambiguous:
        return
    if maxiter > 60:
        return
    mon.fail('range-error', 'reported invalid, but all %d iterations are fine' % maxiter)


def converge(mon, rng, idx):
    """good data: ends at a fixed point that accounts for the flux"""
    dims, jp, jkind, rj, s, im, ikind, psf, pk, guess, gk = make_case(rng, True)
    kind = gen.pick(rng, list(KINDS))
    obs = make_obs(rng, im, jp, psf, pk)
    maxiter = 20000
    tol = 1e-6
    mon.describe(dims=dims, jac=jkind, psf=pk, n=len(guess), kind=kind, jp=jp)
    gg = ngmix.GMix(pars=guess.ravel())
    r = KINDS[kind](maxiter=maxiter, tol=tol).go(obs, gg)
    if r['flags'] != 0:
        mon.event('did not converge')
        return
    comp = ref.gmix_components(r.get_gmix())
    v, u = rj.grid(dims)
    v, u = v.ravel(), u.ravel()
    sky = 0.001*(im.max() - im.min()) - im.min()
    pc = np.array([[1.0, 0, 0, 0, 0, 0]]) if psf is None else psf
    try:
        out, sk, ell, skysum, vs = em_step(kind, comp, pc, v, u, (im + sky).ravel(), np.zeros(v.size, dtype=bool),
                                           rj.area, sky, False)
    except Ambiguous:
        return
    # flux and sky account for the image
    mon.close('fixed-point', comp[:, 0].sum() + skysum, vs, rtol=2e-3 if len(comp)*len(pc) < 4 else 3e-2, detail='flux')
    if len(comp) == 1:
        T = out[:, 3] + out[:, 5] + (pc[:, 3] + pc[:, 5]).max()
        sc = np.column_stack([abs(out[:, 0]), np.sqrt(T), np.sqrt(T), T, T, T])
        mon.close('fixed-point', comp, out, rtol=5e-3, scale=sc)


def prep(mon, rng, idx):
    dims = gen.dims(rng, 1, 12)
    im = rng.normal(size=dims)*gen.loguni(rng, 1e-3, 1e3) + rng.normal()*10
    kind = gen.pick(rng, ['none', 'psf', 'psfgm'])
    kw = {}
    if kind != 'none':
        p = ngmix.Observation(rng.normal(size=(4, 5)), gmix=gen.full_gmix(rng)[0] if kind == 'psfgm' else None)
        kw['psf'] = p
    jac, jkind = gen.jacob(rng, dims)
    obs = ngmix.Observation(im.copy(), jacobian=jac, **kw)
    mon.describe(dims=dims, kind=kind, jac=jkind, im=im.ravel()[:3])
    before = snap.snap(obs)
    new, sky = prep_obs(obs)
    d = snap.diff_snap(before, snap.snap(obs))
    mon.true('inputs-kept', d is None, d)
    sc = abs(im).max()
    mon.close('prep', new.image, im + sky, rtol=1e-12, scale=sc)
    mon.close('prep', new.image.min(), 0.001*(im.max() - im.min()), rtol=1e-9, atol=1e-12*sc)
    mon.true('prep', (new.image > -1e-12*sc).all(), new.image.min())
    mon.same('prep', snap.snap(new.jacobian), snap.snap(obs.jacobian))
    mon.true('prep', new.has_psf() == obs.has_psf())
    if obs.has_psf():
        mon.same('prep', snap.snap(new.psf), snap.snap(obs.psf))
    x = im.copy()
    a, sk = prep_image(x)
    mon.same('prep', a, np.array(new.image))
    mon.same('inputs-kept', x, im)
    for bad in ([1, 2], im, ngmix.ObsList()):
        mon.raises('refused', ValueError, EMFitter().go, bad, gen.full_gmix(rng)[0])


WORKLOADS = [
    Workload('steps', steps, 2500, 40000, warm=4),
    Workload('converge', converge, 300, 4000, warm=2),
    Workload('prep', prep, 500, 5000),
]
