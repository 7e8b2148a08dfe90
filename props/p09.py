"""Weighted moments against plain sums over the weight map."""
import numpy as np
import ngmix
from ngmix import GMix, GMixModel
from ngmix.gaussmom import GaussMom
from ngmix.moments import MOMENTS_NAME_MAP
from vlib import gen, ref
from vlib.core import Workload

PROP = 'P09'
RULE = """random images (galaxies, pure noise, negative, blank, off-centre), shapes from 1x1, every kind of jacobian and
weight map, weight sizes, maximum radii, plain and higher-order moments; every sum, covariance entry, count and
derived number is compared with a numpy sum over the pixels of the weight map, and with the moments of related images
(scaled, added, masked differently, rotated, rescaled frames); cases differ by image, grid and weight"""
REQUIRED = ['sums', 'cov', 'npix', 'wsum', 'gaussmom', 'flagged-area', 'unflagged', 'linear', 'masked', 'additive', 'frame',
            'named', 'repeat']


def F_of(v, u, vc, uc, nm):
    dv, du = v - vc, u - uc
    r2 = dv*dv + du*du
    z = du + 1j*dv
    out = [v, u, (z*z).real, (z*z).imag, r2, np.ones(v.shape)]
    if nm == 17:
        z2 = z*z
        z3 = z2*z
        z4 = z2*z2
        out += [du*r2, dv*r2, z3.real, z3.imag, r2**2, r2*z2.real, r2*z2.imag, z4.real, z4.imag, r2**3, r2**4]
    return np.array(out)


def ref_sums(image, weight, rj, wt, nm, maxrad=None):
    """wt: components of the weight; only the first gives the centre"""
    v, u = rj.grid(image.shape)
    vc, uc = wt[0, 1], wt[0, 2]
    m = weight > 0
    r2 = (v - vc)**2 + (u - uc)**2
    edge = False
    if maxrad is not None:
        edge = bool((np.abs(r2 - maxrad**2) < 1e-9*maxrad**2).any())
        m = m & (r2 < maxrad**2)
    v, u = v[m], u[m]
    W = ref.eval_components(wt, v, u)*rj.area
    F = F_of(v, u, vc, uc, nm)
    # rounding of the coordinates is relative to the size of what is subtracted
    rad = np.hypot(v - vc, u - uc) + 1e-6*(abs(v) + abs(u) + abs(vc) + abs(uc))
    power = [0, 0, 2, 2, 2, 0, 3, 3, 3, 3, 4, 4, 4, 4, 4, 6, 8][:nm]
    Fm = np.array([rad**k for k in power])
    Fm[0] = abs(v) + abs(vc)
    Fm[1] = abs(u) + abs(uc)
    a = (F*(W*image[m])).sum(axis=1)
    amag = (Fm*np.abs(W*image[m])).sum(axis=1)
    c = np.einsum('ik,jk,k->ij', F, F, W**2/weight[m])
    cmag = np.einsum('ik,jk,k->ij', Fm, Fm, W**2/weight[m])
    return dict(sums=a, smag=amag, cov=c, cmag=cmag, npix=int(m.sum()), wsum=W.sum(), edge=edge)


def rand_image(rng, dims, rj, size):
    kind = gen.pick(rng, ['gal', 'gal', 'gal', 'noise', 'neg', 'blank', 'const', 'offset'])
    T = size**2*gen.loguni(rng, 0.3, 3)
    g = gen.disk(rng, 0.7)
    c = rng.normal(size=2)*size*(0.2 if kind != 'offset' else 2.0)
    comp = np.array([[gen.loguni(rng, 1e-2, 1e3), c[0], c[1]] + list(ref.cov_of(g[0], g[1], T))])
    im = ref.render(comp, dims, rj)
    sig = max(im.max(), 1e-12)*gen.loguni(rng, 1e-3, 0.5)
    if kind == 'noise':
        im = rng.normal(size=dims)
    elif kind == 'neg':
        im = -im + sig*rng.normal(size=dims)
    elif kind == 'blank':
        im = np.zeros(dims)
    elif kind == 'const':
        im = np.full(dims, rng.normal())
    else:
        im = im + sig*rng.normal(size=dims)
    return im, kind


def setup(rng, lo=1, hi=26):
    dims = gen.dims(rng, lo, hi)
    jp, jkind = gen.jac_pars(rng, dims)
    rj = ref.Jac(*jp)
    size = np.sqrt(rj.area)*max(dims)*gen.loguni(rng, 0.05, 0.5)
    im, kind = rand_image(rng, dims, rj, size)
    w, wkind = gen.weight_map(rng, dims)
    return dims, jp, rj, jkind, size, im, kind, w, wkind


def obs_of(im, w, jp):
    return ngmix.Observation(im.copy(), weight=w.copy(), jacobian=gen.make_jac(jp))


def check_raw(mon, res, r, tag=''):
    n = len(r['sums'])
    mon.true('npix', res['npix'] == r['npix'], res['npix'], r['npix'], tag)
    mon.close('wsum', res['wsum'], r['wsum'], rtol=1e-9, detail=tag)
    mon.close('sums', np.array(res['sums'])[:n], r['sums'], rtol=1e-9, atol=1e-290, scale=r['smag'], detail=tag)
    mon.close('cov', np.array(res['sums_cov'])[:n, :n], r['cov'], rtol=1e-9, atol=1e-290, scale=r['cmag'], detail=tag)


def raw(mon, rng, idx):
    """GMix.get_weighted_sums and get_weighted_moments with any weight mixture"""
    dims, jp, rj, jkind, size, im, kind, w, wkind = setup(rng)
    nm = gen.pick(rng, [6, 17])
    if rng.uniform() < 0.5:
        g = gen.disk(rng, 0.7)
        wt = np.array([[gen.loguni(rng, 0.1, 10), rng.normal()*size*0.3, rng.normal()*size*0.3] + list(
            ref.cov_of(g[0], g[1], size**2*gen.loguni(rng, 0.3, 3)))])
    else:
        wt = gen.full_gmix_pars(rng, n=rng.randint(1, 4), scale=size, spread=0.3, Tmin=0.2, Tmax=3)
    maxrad = gen.pick(rng, [None, None, size*gen.loguni(rng, 0.3, 5), 1e6])
    mon.describe(dims=dims, jac=jkind, image=kind, w=wkind, nm=nm, maxrad=maxrad, nwt=len(wt))
    mon.event('weights ' + wkind)
    mon.event('image ' + kind)
    gm = GMix(pars=wt.ravel())
    obs = obs_of(im, w, jp)
    mr = maxrad
    if mr is None:
        T = gm.get_T()
        mr = 100*np.sqrt(T/2) if T > 0 else 0
    r = ref_sums(im, w, rj, wt, nm, mr)
    if r['edge']:
        mon.trivial()
        return
    kw = dict(maxrad=maxrad, with_higher_order=nm == 17)
    res = gm.get_weighted_sums(obs, **kw)
    check_raw(mon, res, r, 'sums')
    m = gm.get_weighted_moments(obs, **kw)
    check_raw(mon, m, r, 'moments')
    if m['flags'] == 0:
        mon.close('unflagged', m['flux'], r['sums'][5], rtol=1e-8, scale=r['smag'][5])
        mon.close('unflagged', m['sums_norm'], r['wsum'], rtol=1e-9)
    # adding onto sums already there: images add up
    dims2, jp2, rj2, jkind2, size2, im2, kind2, w2, wkind2 = setup(rng, 1, 12)
    r2 = ref_sums(im2, w2, rj2, wt, nm, mr)
    if not r2['edge']:
        tot = {k: r[k] + r2[k] for k in ('sums', 'smag', 'cov', 'cmag', 'npix', 'wsum')}
        both = gm.get_weighted_sums(obs_of(im2, w2, jp2), res=res, **kw)
        check_raw(mon, both, tot, 'two images')
        mon._count('additive')
    # the observation and weight are usable again, with the same answer
    again = gm.get_weighted_sums(obs, **kw)
    check_raw(mon, again, r, 'again')
    mon.same('repeat', np.array(again['sums']), np.array(m['sums']))


def gaussmom(mon, rng, idx):
    dims, jp, rj, jkind, size, im, kind, w, wkind = setup(rng)
    ho = bool(rng.randint(2))
    nm = 17 if ho else 6
    fwhm = size*gen.loguni(rng, 0.5, 4)
    mon.describe(dims=dims, jac=jkind, image=kind, w=wkind, nm=nm, fwhm=fwhm/size)
    mon.event('jacobian ' + jkind)
    sig2 = (fwhm/(2*np.sqrt(2*np.log(2))))**2
    # without the higher order ones unless asked for
    fitter = GaussMom(fwhm, with_higher_order=ho) if ho or rng.randint(2) else GaussMom(fwhm)

    kept = []

    def measure(image, weight, jac):
        res = fitter.go(obs_of(image, weight, jac))
        kept.append(res)
        return res

    # unit height and no pixel area
    wt = np.array([[2*np.pi*sig2, 0, 0, sig2, 0, sig2]])
    r = ref_sums(im, w, rj, wt, nm)
    a = rj.area
    for k, p in (('sums', 1), ('smag', 1), ('wsum', 1), ('cov', 2), ('cmag', 2)):
        r[k] = r[k]/a**p

    def check(res, r, tag):
        check_raw(mon, res, r, tag)
        d = np.diagonal(np.array(res['sums_cov']))
        if (d > 1e-250).all() and np.isfinite(res['sums_err']).all():
            mon.close('gaussmom', res['sums_err'], np.sqrt(d), rtol=1e-9, detail=tag + ' sums_err')
        mon._count('gaussmom')
        s, c = r['sums'], r['cov']
        fl = res['flags']
        mon.close('gaussmom', res['flux'], s[5], rtol=1e-9, atol=1e-290, scale=r['smag'][5], detail=tag + ' flux, flags %d' % fl)
        if np.diagonal(c).min() < 1e-280:
            # the weight is zero to machine precision
            return
        mon.close('gaussmom', res['sums_norm'], r['wsum'], rtol=1e-9, detail=tag)
        for n in ('MF', 'M00'):
            mon.close('gaussmom', res[n], s[5], rtol=1e-9, scale=r['smag'][5], detail=tag + ' ' + n)
            mon.close('gaussmom', res[n + '_err'], np.sqrt(c[5, 5]), rtol=1e-9, detail=tag + ' ' + n)
        mon.close('gaussmom', res['flux_err'], np.sqrt(c[5, 5]), rtol=1e-9, detail=tag)
        mon.close('gaussmom', res['s2n'], s[5]/np.sqrt(c[5, 5]), rtol=1e-8, scale=r['smag'][5]/np.sqrt(c[5, 5]), detail=tag)
        mon._count('unflagged' if fl == 0 else 'flagged-area')
        # a sum that may be on either side of zero after rounding says nothing
        sharp = abs(s[5]) > 1e-6*r['smag'][5]
        if sharp and (s[5] <= 0 or (np.diagonal(c) <= 0).any()):
            mon.true('flagged', fl != 0, 'no flag with flux', s[5], tag)
        if not sharp:
            return
        cond = r['smag'][5]/abs(s[5])
        rt = 1e-8*(1 + cond**2)
        if s[5] > 0:
            sm = r['smag']
            for n, i in MOMENTS_NAME_MAP.items():
                if i == 5 or i >= nm:
                    mon.true('named', i == 5 or n not in res, n)
                    continue
                rat = s[i]/s[5]
                mon.close('named', res[n], rat, rtol=rt, scale=sm[i]/s[5], detail=tag + ' ' + n)
                var = (c[i, i] - 2*rat*c[i, 5] + rat**2*c[5, 5])/s[5]**2
                vm = (r['cmag'][i, i] + 2*abs(sm[i]/s[5])*r['cmag'][i, 5] + (sm[i]/s[5])**2*r['cmag'][5, 5])/s[5]**2
                mon.close('named', res[n + '_err']**2, max(var, 0), rtol=rt, scale=vm, detail=tag + ' ' + n + '_err')
            mon.close('gaussmom', res['T'], s[4]/s[5], rtol=rt, scale=sm[4]/s[5], detail=tag)
        if fl == 0 and abs(s[4]) > 1e-6*r['smag'][4]:
            condT = r['smag'][4]/abs(s[4])
            rt = 1e-8*(1 + cond**2 + condT**2)
            e = np.array([s[2], s[3]])/s[4]
            mon.close('unflagged', res['e'], e, rtol=rt, scale=1 + np.abs(e), detail=tag)
            mon.close('unflagged', res['pars'][2:], [e[0], e[1], s[4]/s[5], s[5]], rtol=rt,
                      scale=np.array([1, 1, r['smag'][4]/s[5], r['smag'][5]]), detail=tag)
            for k, i in ((0, 2), (1, 3)):
                var = (c[i, i] - 2*e[k]*c[i, 4] + e[k]**2*c[4, 4])/s[4]**2
                vm = (r['cmag'][i, i] + 2*abs(e[k])*r['cmag'][i, 4] + e[k]**2*r['cmag'][4, 4])/s[4]**2
                mon.close('unflagged', res['e_err'][k]**2, max(var, 0), rtol=rt, scale=vm, detail=tag)

    res = measure(im, w, jp)
    check(res, r, 'direct')
    if np.diagonal(r['cov']).min() < 1e-280:
        return
    rel = gen.pick(rng, ['linear', 'masked', 'frame', 'frame', 'repeat'])
    if rel == 'linear':
        im2, _ = rand_image(rng, dims, rj, size)
        x, y = rng.normal(size=2)
        ra, rb = measure(im2, w, jp), measure(x*im + y*im2, w, jp)
        sm = abs(x)*r['smag'] + abs(y)*ref_sums(im2, w, rj, wt, nm)['smag']/a
        mon.close('linear', rb['sums'], x*res['sums'] + y*ra['sums'], rtol=1e-9, scale=sm)
        mon.same('linear', rb['sums_cov'], res['sums_cov'])
        k = gen.loguni(rng, 1e-3, 1e3)
        rc = measure(k*im, w/k**2, jp)
        mon.true('linear', rc['flags'] == res['flags'] or abs(r['sums'][5]) < 1e-9*r['smag'][5] or
                 abs(r['sums'][4]) < 1e-9*r['smag'][4] or (np.diagonal(r['cov']) < 1e-250).any(), rc['flags'], res['flags'])
        mon.close('linear', rc['flux'], k*res['flux'], rtol=1e-9, scale=k*r['smag'][5])
        mon.close('linear', rc['flux_err'], k*res['flux_err'], rtol=1e-9)
    elif rel == 'masked':
        # what is in masked pixels, and whether they are there at all, does not matter
        im2 = im.copy()
        bad = ~(w > 0)
        im2[bad] = gen.pick(rng, [1e9, -1e9, np.nan, np.inf])
        mon.same('masked', measure(im2, w, jp)['sums'], res['sums'])
        w2 = w.copy()
        w2[bad] = gen.pick(rng, [0.0, -1.0, -np.inf])
        m = measure(im, w2, jp)
        mon.same('masked', m['sums'], res['sums'])
        mon.same('masked', m['sums_cov'], res['sums_cov'])
        pad = rng.randint(0, 4, size=4)
        imp = np.pad(im, ((pad[0], pad[1]), (pad[2], pad[3])), constant_values=3.0)
        wp = np.pad(w, ((pad[0], pad[1]), (pad[2], pad[3])))
        m = measure(imp, wp, (jp[0] + pad[0], jp[1] + pad[2]) + tuple(jp[2:]))
        mon.close('masked', m['sums'], res['sums'], rtol=1e-9, scale=r['smag'])
        mon.close('masked', m['sums_cov'], res['sums_cov'], rtol=1e-9, scale=r['cmag'])
        mon.true('masked', m['npix'] == res['npix'])
    elif rel == 'frame':
        # rotate (and scale) the sky about the centre; or transpose the stamp
        if rng.uniform() < 0.5:
            j2 = (jp[1], jp[0], jp[3], jp[2], jp[5], jp[4])
            m = measure(im.T, w.T, j2)
            mon.close('frame', m['sums'], res['sums'], rtol=1e-9, scale=r['smag'])
            mon.close('frame', m['sums_cov'], res['sums_cov'], rtol=1e-9, scale=r['cmag'])
        else:
            th = rng.uniform(0, 2*np.pi)
            sc = gen.loguni(rng, 0.3, 3)
            flip = gen.pick(rng, [1, -1])
            R = sc*np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([1, flip])
            M2 = R @ rj.m
            j2 = (jp[0], jp[1], M2[0, 0], M2[0, 1], M2[1, 0], M2[1, 1])
            m = GaussMom(fwhm*sc, with_higher_order=ho).go(obs_of(im, w, j2))
            big = np.max(r['smag'])
            mon.close('frame', m['sums'][5], res['sums'][5], rtol=1e-9, scale=r['smag'][5])
            mon.close('frame', m['flux'], res['flux'], rtol=1e-9, scale=r['smag'][5])
            mon.close('frame', m['flux_err'], res['flux_err'], rtol=1e-9)
            mon.close('frame', m['sums'][4], sc**2*res['sums'][4], rtol=1e-9, scale=sc**2*r['smag'][4])
            vu = R @ res['sums'][:2]
            mon.close('frame', m['sums'][:2], vu, rtol=1e-9, scale=sc*(r['smag'][0] + r['smag'][1]))
            z = res['sums'][2] + 1j*res['sums'][3]
            # direction of x=u,y=v: z = (u+iv)^2; v'+iu' = e^{i th}(v+iu flipped) -> u'+iv' = e^{-i th}(...)
            if flip == -1:
                z = np.conj(z)
            z = sc**2*z*np.exp(-2j*th)
            mon.close('frame', m['sums'][2] + 1j*m['sums'][3], z, rtol=1e-9, scale=2*sc**2*r['smag'][4])
            if ho:
                mon.close('frame', m['sums'][[10, 15, 16]], res['sums'][[10, 15, 16]]*[sc**4, sc**6, sc**8], rtol=1e-9,
                          scale=r['smag'][[10, 15, 16]]*[sc**4, sc**6, sc**8])
    elif rel == 'repeat':
        m = measure(im, w, jp)
        mon.same('repeat', m, res)
    mon.same('repeat', measure(im, w, jp)['sums_cov'], res['sums_cov'])


def circle(mon, rng, idx):
    """pixels exactly as far from the centre as the limit are not part of the aperture"""
    dims = gen.dims(rng, 5, 24)
    r0, c0 = rng.randint(0, dims[0]), rng.randint(0, dims[1])
    s = gen.pick(rng, [1.0, 1.0, 0.5, 2.0])
    im = rng.normal(size=dims) + 3
    w, wkind = gen.weight_map(rng, dims)
    rad = rng.randint(1, 12)
    jp = (float(r0), float(c0), s, 0.0, 0.0, s)
    if rng.randint(3) == 0:
        jp = (float(r0), float(c0), 0.0, s, -s, 0.0)
    rj = ref.Jac(*jp)
    size = rad*s*gen.loguni(rng, 0.3, 3)
    wt = np.array([[1.0, 0, 0, size**2, 0, size**2]])
    rr, cc = np.mgrid[:dims[0], :dims[1]]
    d2 = (rr - r0)**2 + (cc - c0)**2
    if not (d2 == rad**2).any():
        mon.trivial()
    mon.describe(dims=dims, cen=(r0, c0), scale=s, rad=rad, w=wkind)
    mon._count('circle', int(((d2 == rad**2) & (w > 0)).sum()))
    # the reference, with the limit between two rings
    r = ref_sums(im, w, rj, wt, 6, s*np.sqrt(rad**2 - 0.5))
    obs = obs_of(im, w, jp)
    gm = GMix(pars=wt.ravel())
    for ho in (False, True):
        res = gm.get_weighted_sums(obs, maxrad=rad*s, with_higher_order=ho)
        check_raw(mon, res, ref_sums(im, w, rj, wt, 17 if ho else 6, s*np.sqrt(rad**2 - 0.5)), 'circle')
    check_raw(mon, gm.get_weighted_moments(obs, maxrad=rad*s), r, 'circle')


WORKLOADS = [
    Workload('circle', circle, 300, 5000),
    Workload('raw', raw, 3000, 40000),
    Workload('gaussmom', gaussmom, 4000, 60000),
]
