"""Metacal images against the analytic galaxy: deconvolved, sheared, reconvolved; what is attached and carried over."""
import numpy as np
import galsim
import ngmix
from ngmix import metacal as MC
from ngmix.metacal import get_all_metacal
from ngmix.metacal import metacal as MM
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P18'
RULE = """galaxies that are sums of sheared and shifted gaussian and exponential profiles seen through gaussian and moffat psfs with pixel,
drawn noiselessly on square and oblong stamps with rotated, flipped and sheared coordinate systems (another one for the psf); every
metacal type, psf kind and step compared with the analytic sheared galaxy through the target psf; the objects' methods in random
sequences with the cache on and off; lists and multi-band lists compared with their members; cases differ by scene, step and types"""
REQUIRED = ['image', 'shear response', 'psf image', 'psf noise', 'psf weight', 'psf frame', 'common psf', 'target psf', 'types', 'default types',
            'carried', 'frame', 'structure', 'members', 'history', 'caching', 'refused', 'failed psf', 'linear', 'proportional', 'noise of members', 'flux', 'round target', 'galsim object',
            'pixels', 'inputs-kept', 'repeat', 'own', 'psf mixture']
ALL = ['noshear', '1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf', '2m_psf']
MIN = ALL[:5]


def warm():
    pass


def shear_of(t, step):
    if t == 'noshear':
        return 0.0, 0.0
    s = step if t[1] == 'p' else -step
    return (s, 0.0) if t[0] == '1' else (0.0, s)


class Scene(object):
    def __init__(self, rng, small=False, centre=None, roundpsf=False, square=False, jkind=None, extras=True, wkind=None, finepsf=False):
        kinds = ['diag', 'rot', 'flip', 'shear', 'general']
        n = int(rng.randint(36, 50))
        self.dims = (n, n) if square or rng.randint(2) else (n, n + int(rng.randint(1, 7)))
        m = int(rng.randint(33, 42))
        self.pdims = (m, m) if rng.randint(2) else (m + int(rng.randint(1, 5)), m)
        sc = float(gen.pick(rng, [0.2, 0.263, 0.4, 1.0]))
        cen = (np.array(self.dims) - 1)/2
        pcen = (np.array(self.pdims) - 1)/2
        k = jkind or gen.pick(rng, kinds)
        off = rng.uniform(-1, 1, size=2) if rng.randint(2) else np.zeros(2)
        self.jac, _ = gen.jacob(rng, self.dims, kind=k, scale=sc, cen=cen + off, maxshear=0.08)
        self.moffat = bool(rng.randint(3) == 0) and not roundpsf
        # psf images may be on finer pixels than the object's
        self.pfac = float(gen.pick(rng, [1.0, 1.0, rng.uniform(0.7, 1.0)])) if finepsf and not self.moffat else 1.0
        self.pjac, _ = gen.jacob(rng, self.pdims, kind=jkind or gen.pick(rng, kinds), scale=sc*self.pfac, cen=pcen, maxshear=0.08)
        self.wcs, self.pwcs = self.jac.get_galsim_wcs(), self.pjac.get_galsim_wcs()
        self.pixel = self.wcs.toWorld(galsim.Pixel(1.0))
        gp = 0.05 if rng.randint(4) else 0.12
        g1, g2 = (0, 0) if roundpsf else (rng.uniform(-gp, gp), rng.uniform(-gp, gp))
        fw = rng.uniform(3.0, 4.0)*sc
        p = galsim.Moffat(beta=3.5, fwhm=fw) if self.moffat else galsim.Gaussian(fwhm=fw)
        self.pflux = float(gen.pick(rng, [1.0, 1.0, 0.3, 20.0]))
        self.psf_nopix = p.shear(g1=g1, g2=g2)
        self.full = galsim.Convolve(self.psf_nopix, self.pixel)
        g1, g2 = gen.disk(rng, 0.35)
        f = gen.loguni(rng, 0.1, 1e4)
        gal = galsim.Gaussian(fwhm=rng.uniform(1.0, 5.0)*sc, flux=f).shear(g1=g1, g2=g2).shift(rng.uniform(-2, 2)*sc, rng.uniform(-2, 2)*sc)
        if rng.randint(2):
            gal = gal + galsim.Exponential(half_light_radius=2*sc, flux=f*0.5).shear(g1=rng.uniform(-.2, .2), g2=0.1).shift(
                rng.uniform(-2, 2)*sc, rng.uniform(-2, 2)*sc)
        self.gal = gal
        self.image = self.draw(galsim.Convolve(gal, self.full))
        self.psf_image = self.full.drawImage(nx=self.pdims[1], ny=self.pdims[0], wcs=self.pwcs, method='no_pixel', dtype=float).array*self.pflux
        self.sc = sc
        self.kind = k
        w, self.wkind = gen.weight_map(rng, self.dims, wkind or gen.pick(rng, ['const', 'vary', 'zeros']))
        kw = {}
        if extras:
            for nm in ('bmask', 'ormask'):
                if rng.randint(2):
                    kw[nm] = rng.randint(0, 4, size=self.dims).astype('i4')
            if rng.randint(2):
                kw['noise'] = rng.normal(size=self.dims)
            if rng.randint(2):
                kw['mfrac'] = rng.uniform(size=self.dims)
            if rng.randint(2):
                kw['store_pixels'] = bool(rng.randint(2))
            if rng.randint(2):
                kw['ignore_zero_weight'] = bool(rng.randint(2))
        pw = np.full(self.pdims, 7.0)
        if rng.randint(3) == 0:
            pw[rng.randint(2, self.pdims[0]), :] = 0.0
        self.po = ngmix.Observation(self.psf_image.copy(), weight=pw, jacobian=self.pjac, meta={'p': [1, 2]})
        self.obs = ngmix.Observation(self.image.copy(), weight=w, jacobian=self.jac, psf=self.po, meta={'id': int(rng.randint(1000)), 's': {'a': 1}}, **kw)
        self.pim_flux = self.psf_image.sum()

    def draw(self, obj):
        return obj.drawImage(nx=self.dims[1], ny=self.dims[0], wcs=self.wcs, method='no_pixel', dtype=float).array

    def pdraw(self, obj):
        return obj.drawImage(nx=self.pdims[1], ny=self.pdims[0], wcs=self.pwcs, method='no_pixel', dtype=float).array

    def desc(self):
        return dict(dims=self.dims, pdims=self.pdims, kind=self.kind, sc=self.sc, moffat=self.moffat, pfac=self.pfac, pflux=self.pflux, w=self.wkind,
                    f=float(self.image.sum()))

    def expected(self, psf, g, pg, target, dil):
        """the galaxy sheared by g through the target psf (for dilate: the psf grown by dil and sheared by pg)"""
        gal = self.gal.shear(g1=g[0], g2=g[1])
        if psf == 'dilate':
            t = galsim.Convolve(self.psf_nopix.dilate(dil).shear(g1=pg[0], g2=pg[1]), self.pixel)
            return self.draw(galsim.Convolve(gal, t))
        return self.draw(galsim.Convolve(gal, target))/self.pim_flux


def tol(sc):
    return 3e-3 if sc.moffat else 1.2e-3


def check_attached(mon, sc, psf, t, v, pnoise, first):
    """psf and everything carried over of one metacal observation"""
    o = sc.obs
    mon.same('carried', snap.snap(v.weight), snap.snap(o.weight), 'weight of %s' % t)
    for n in ('bmask', 'ormask', 'noise', 'mfrac'):
        h = getattr(o, 'has_' + n)()
        mon.true('carried', getattr(v, 'has_' + n)() == h, 'has', n, 'in', t)
        if h:
            mon.same('carried', getattr(v, n), getattr(o, n), '%s of %s' % (n, t))
    meta = {a: b for a, b in v.meta.items()}
    mon.same('carried', snap.snap(meta), snap.snap(dict(o.meta)), 'metadata of %s' % t)
    mon.same('frame', snap.snap(v.jacobian), snap.snap(o.jacobian), 'jacobian of %s' % t)
    mon.true('carried', v.store_pixels == o.store_pixels and v.ignore_zero_weight == o.ignore_zero_weight, 'pixel options')
    if v.store_pixels:
        use = np.ones(sc.dims, bool) if not v.ignore_zero_weight else v.weight > 0
        mon.same('pixels', np.asarray(v.pixels['val']), v.image[use], 'pixel values of %s' % t)
    pj, qj = v.psf.jacobian, sc.pjac
    mon.close('psf frame', [pj.dvdrow, pj.dvdcol, pj.dudrow, pj.dudcol], [qj.dvdrow, qj.dvdcol, qj.dudrow, qj.dudcol], rtol=1e-12, detail='psf jacobian of %s' % t)
    mon.close('psf frame', pj.get_cen(), (np.array(sc.pdims) - 1)/2, rtol=1e-12, detail='psf centre of %s' % t)
    mon.same('carried', snap.snap({k: b for k, b in v.psf.meta.items() if k != 'result'}), snap.snap(dict(sc.po.meta)), 'psf metadata')
    mx = sc.psf_image.max()
    if psf != 'dilate':
        s = mx/50000.0
        mon.close('psf weight', v.psf.weight, np.full(sc.pdims, 1/s**2), rtol=1e-9, detail='psf weight')
    else:
        mon.same('psf weight', v.psf.weight, sc.po.weight, 'psf weight')


def target_ok(mon, sc, psf, target, step, arg):
    """the reconvolution kernel is the one documented"""
    dil = 1 + 2*abs(step)
    if psf == 'dilate':
        want = galsim.Convolve(sc.psf_nopix.dilate(dil), sc.pixel)
        mon.close('target psf', sc.pdraw(target), sc.pdraw(want)*sc.pflux, rtol=0, atol=tol(sc)*sc.psf_image.max(), detail='dilated psf')
        return
    if psf == 'obj':
        mon.close('galsim object', sc.pdraw(target), sc.pdraw(arg.dilate(dil)), rtol=0, atol=1e-5*sc.psf_image.max(), detail='target psf')
        mon.true('target psf', True)
        return
    # round gaussian with the flux of the psf, larger than the psf
    mon.close('flux', target.flux, sc.pim_flux, rtol=1e-9, detail='flux of the target psf')
    s = 5*sc.sc
    k = galsim.Image(15, 15, dtype=complex)
    r = np.array([target.kValue(s*0.1*np.cos(a)/sc.sc**2*0.5, s*0.1*np.sin(a)/sc.sc**2*0.5).real for a in np.linspace(0, np.pi, 7)])
    mon.close('round target', r, np.full(7, r[0]), rtol=1e-6, detail='target psf is not round')
    del k
    # gaussian: log of the transform is quadratic
    kk = 0.6/sc.sc
    f0 = np.log(target.kValue(kk, 0).real/sc.pim_flux)
    f1 = np.log(target.kValue(kk/2, 0).real/sc.pim_flux)
    mon.close('round target', f0, 4*f1, rtol=1e-6, detail='target psf is not gaussian')
    sig2 = -2*f0/kk**2/dil**2
    want = galsim.Convolve(sc.psf_nopix, sc.pixel)
    if psf == 'gauss':
        # the target is below 3e-3 of its peak where the psf's transform first falls below 1e-2
        ks = np.linspace(0.01, 4.0, 800)/sc.sc
        best = np.inf
        for a in np.linspace(0, np.pi, 12, endpoint=False):
            v = np.array([want.kValue(x*np.cos(a), x*np.sin(a)).real for x in ks])
            w = np.where(v < 1e-2)[0]
            if len(w):
                best = min(best, ks[w[0]])
        s_want = -2*np.log(3e-3)/best**2
        mon.close('target psf', sig2, s_want, rtol=0.12, detail='size of the gaussian target')
    elif not sc.moffat:
        T = None
        img = sc.pdraw(want)
        gm = ngmix.GMixModel([0, 0, 0, 0, 4*sc.sc**2, 1.0], 'gauss')
        r = ngmix.admom.AdmomFitter().go(ngmix.Observation(img, weight=sc.po.weight, jacobian=sc.pjac), gm)
        T = r['T']
        e = np.hypot(*r['e'])
        d = min(1 + 2*(np.sqrt(1 + e) - 1), 1.1)
        mon.close('target psf', sig2, T*d/2, rtol=0.01, detail='size of the fitted gaussian target')
    else:
        mon.true('target psf', sig2 > 0)


def psf_arg(rng, sc, kinds=('gauss', 'gauss', 'fitgauss', 'dilate', 'dilate', 'obj')):
    k = gen.pick(rng, kinds)
    if k == 'obj':
        f = float(gen.pick(rng, [1.0, 2.5]))
        fw = rng.uniform(4.8, 5.5)*sc.sc
        o = galsim.Gaussian(fwhm=fw, flux=f) if rng.randint(2) else galsim.Gaussian(fwhm=fw, flux=f).shear(g1=0.03, g2=-0.05)
        return k, o
    return k, k


def own(mon, rng, obs, d):
    """each type, epoch and band has arrays of its own: what is written in one is seen nowhere else"""
    flat = lambda x: [x] if isinstance(x, ngmix.Observation) else [o for v in x for o in flat(v)]
    t = gen.pick(rng, sorted(d))
    if not flat(d[t]):
        return
    k = rng.randint(len(flat(d[t])))
    x = flat(d[t])[k]
    rest = lambda: [snap.snap(obs)] + [(u, i, snap.snap(o)) for u in sorted(d) for i, o in enumerate(flat(d[u])) if (u, i) != (t, k)]
    before = rest()
    with x.writeable():
        x.image[:] = 5.0
        x.weight[:] = 3.0
        x.jacobian.set_cen(row=3.0, col=4.0)
        for m in ('bmask', 'ormask', 'noise', 'mfrac'):
            if getattr(x, 'has_' + m)():
                getattr(x, m)[:] = 9
        with x.psf.writeable():
            x.psf.image[:] = 2.0
            x.psf.weight[:] = 4.0
            x.psf.jacobian.set_cen(row=1.0, col=1.0)
    x.psf.meta['new'] = 1
    x.meta['new'] = 1
    dd = snap.diff_snap(before, rest())
    mon.true('own', dd is None, 'written in %s, changed in another: %s' % (t, dd))


def w_analytic(mon, rng, idx):
    sc = Scene(rng, finepsf=True)
    psf, arg = psf_arg(rng, sc)
    step = float(gen.pick(rng, [0.01, 0.02, 0.05, rng.uniform(0.005, 0.08), 1e-3, -0.01, -rng.uniform(0.005, 0.08), 0.13]))
    full = ALL if psf == 'dilate' else MIN
    ty = gen.pick(rng, ['default', 'all', 'some'])
    types = None
    if ty == 'all':
        types = list(full)
        rng.shuffle(types)
    elif ty == 'some':
        types = [t for t in full if rng.randint(2)] or ['1m']
        rng.shuffle(types)
        types = [str(t) for t in types]
    usernd = bool(rng.randint(2)) or psf == 'fitgauss'
    seed = int(rng.randint(2**31))
    mon.describe(psf=psf, step=step, types=types, rng=usernd, **sc.desc())
    kw = dict(psf=arg, fixnoise=False)
    if step != 0.01 or rng.randint(2):
        kw['step'] = step
    if types is not None:
        kw['types'] = list(types)
    if usernd:
        kw['rng'] = np.random.RandomState(seed)
    before = snap.snap(sc.obs)
    if rng.randint(2):
        d = mon.returns('types', get_all_metacal, sc.obs, **kw)
    else:
        cls = {'gauss': MC.MetacalGaussPSF, 'fitgauss': MC.MetacalFitGaussPSF, 'dilate': MC.MetacalDilatePSF, 'obj': MC.MetacalAnalyticPSF}[psf]
        ckw = {}
        if psf == 'obj':
            ckw['psf'] = arg
        if usernd and psf != 'dilate':
            ckw['rng'] = kw['rng']
        gkw = {k: v for k, v in kw.items() if k in ('step', 'types')}
        d = mon.returns('types', cls(sc.obs, **ckw).get_all, **gkw)
    mon.same('inputs-kept', snap.snap(sc.obs), before, 'the observation changed')
    want = set(types) if types is not None else set(full)
    if types is None:
        mon.true('default types', set(d) == want, 'types', sorted(d))
    else:
        # asking for noshear also makes 1p (listed in the known findings for P24)
        extra = set(d) - want
        mon.true('types', want <= set(d) and extra <= ({'1p', 'noshear'} if want & {'noshear', '1p'} else set()), 'asked for', sorted(want), 'got', sorted(d))
    peak = sc.expected(psf, (0, 0), (0, 0), arg, 1.0).max() if psf in ('dilate', 'obj') else None
    imgs, exps = {}, {}
    pims = {}
    tgt = None
    for t, v in d.items():
        g = shear_of(t, step)
        isp = t.endswith('_psf')
        mon.true('types', type(v) is ngmix.Observation and v.image.shape == sc.dims, 'kind of', t)
        if not isp:
            tgt = v.psf.galsim_obj
            e = sc.expected(psf, g, (0, 0), tgt, 1 + 2*abs(step))
            ep = sc.pdraw(tgt)
        else:
            e = sc.expected(psf, (0, 0), g, None, 1 + 2*abs(step))
            ep = sc.pdraw(galsim.Convolve(sc.psf_nopix.dilate(1 + 2*abs(step)).shear(g1=g[0], g2=g[1]), sc.pixel))*sc.pflux
        peak = e.max()
        mon.close('image', v.image, e, rtol=0, atol=tol(sc)*peak, detail='type %s psf %s' % (t, psf))
        imgs[t], exps[t] = v.image, e
        pims[t] = v.psf.image - ep
        nt = 1e-9 if not isp else tol(sc)
        if usernd and psf != 'dilate':
            s = sc.psf_image.max()/50000.0
            n = pims[t].size
            mon.true('psf noise', abs(pims[t]).max() < 7*s and abs(pims[t].std()/s - 1) < 7/np.sqrt(2*n), 'noise on the psf image', pims[t].std()/s)
        else:
            mon.close('psf image', v.psf.image, ep, rtol=0, atol=nt*ep.max(), detail='type %s psf %s' % (t, psf))
        check_attached(mon, sc, psf, t, v, None, None)
    ts = [t for t in d if not t.endswith('_psf')]
    for t in ts[1:]:
        mon.close('common psf', pims[t], pims[ts[0]], rtol=0, atol=1e-9*sc.psf_image.max(), detail='psf image of %s and %s' % (t, ts[0]))
        mon.close('common psf', d[t].psf.image, d[ts[0]].psf.image, rtol=0, atol=1e-12*sc.psf_image.max(), detail='psf image of %s and %s' % (t, ts[0]))
    names = list(d)
    for a in names:
        for b in names:
            if a < b:
                diff = exps[a] - exps[b]
                mon.close('shear response', imgs[a] - imgs[b], diff, rtol=0, atol=3e-4*peak + 0.02*abs(diff).max(), detail='%s minus %s' % (a, b))
                mon.event('pairs')
    if tgt is not None:
        target_ok(mon, sc, psf, tgt, step, arg)
    else:
        mon.true('target psf', True)
    mon.event('metacal images', len(d))
    # same again, from the same generator
    if rng.randint(3) == 0:
        if usernd:
            kw['rng'] = np.random.RandomState(seed)
        if types is not None:
            kw['types'] = list(types)
        d2 = get_all_metacal(sc.obs, **kw)
        mon.true('repeat', set(d2) == set(d), 'types of a repeat')
        for t in d:
            mon.same('repeat', d2[t].image, d[t].image, 'image %s of a repeat' % t)
            mon.same('repeat', d2[t].psf.image, d[t].psf.image, 'psf image %s of a repeat' % t)
    if rng.randint(2):
        own(mon, rng, sc.obs, d)


def w_api(mon, rng, idx):
    """the methods of one object, in any order, with the cache on or off, equal those of a fresh object"""
    sc = Scene(rng)
    psf, arg = psf_arg(rng, sc, ('gauss', 'dilate', 'dilate', 'obj', 'fitgauss'))
    cache = bool(rng.randint(2))
    mon.describe(psf=psf, cache=cache, **sc.desc())
    seed = int(rng.randint(2**31))

    def make(scene=sc):
        if psf == 'dilate':
            return MC.MetacalDilatePSF(scene.obs)
        if psf == 'gauss':
            return MC.MetacalGaussPSF(scene.obs)
        if psf == 'fitgauss':
            return MC.MetacalFitGaussPSF(scene.obs, rng=np.random.RandomState(seed))
        return MC.MetacalAnalyticPSF(scene.obs, arg)
    pool = [ngmix.Shape(*gen.disk(rng, 0.1)) for _ in range(3)] + [ngmix.Shape(0.0, 0.0), ngmix.Shape(0.02, 0.0), ngmix.Shape(0.0, 0.02)]
    g = pool[0]
    pool.append(ngmix.Shape(g.g2, g.g1))
    pool.append(ngmix.Shape(-g.g1, -g.g2))
    # close to one another, and very small
    e = gen.loguni(rng, 1e-7, 1e-3)
    pool.append(ngmix.Shape(g.g1 + e, g.g2 - e))
    pool.append(ngmix.Shape(e, 0.0))
    pool.append(ngmix.Shape(0.02 + e, 0.0))
    if rng.randint(2):
        pool = [g, pool[-3], pool[-1], pool[4], pool[-2], pool[3]]

    def do(m, op, sh):
        if op == 'gal':
            o = m.get_obs_galshear(sh)
            return [o.image, o.psf.image]
        if op == 'both':
            o, u = m.get_obs_galshear(sh, get_unsheared=True)
            return [o.image, o.psf.image, u.image, u.psf.image]
        if op == 'psfshear':
            o = m.get_obs_psfshear(sh)
            return [o.image, o.psf.image]
        if op == 'target':
            im, ob = m.get_target_psf(sh, 'gal_shear')
            r = [im.array.copy(), sc.pdraw(ob)]
            im.array[:] = 1e30    # what is handed out is the caller's own
            return r
        if op == 'targetp':
            im, ob = m.get_target_psf(sh, 'psf_shear')
            r = [im.array.copy(), sc.pdraw(ob)]
            im.array[:] = -1e30
            return r
        if op == 'nopsf':
            t = galsim.Gaussian(fwhm=6*sc.sc)
            return [sc.draw(galsim.Convolve(m.get_sheared_image_nopsf(sh), t))]
        if op == 'image':
            return [m.get_target_image(galsim.Gaussian(fwhm=6*sc.sc), shear=sh).array.copy()]
        return [v.image for k, v in sorted(m.get_all(step=abs(sh.g1) + 0.01).items())]

    ops = ['gal', 'both', 'target', 'nopsf', 'image', 'all']
    if psf == 'dilate':
        ops += ['psfshear', 'targetp', 'targetp']
    before = snap.snap(sc.obs)
    if cache:
        MM.turn_on_galsim_caching()
    try:
        m = make()
        other = Scene(rng)
        for k in range(rng.randint(4, 9)):
            op, sh = gen.pick(rng, ops), gen.pick(rng, pool)
            if op == 'all' and k > 2:
                continue
            a = do(m, op, sh)
            if rng.uniform() < 0.15:
                make(other)
            if cache:
                MM.turn_off_galsim_caching()
            b = do(make(), op, sh)
            if cache:
                MM.turn_on_galsim_caching()
            for x, y in zip(a, b):
                mon.close('caching' if cache else 'history', x, y, rtol=0, atol=1e-11*max(abs(y).max(), 1e-300), detail='%s %s' % (op, sh))
            if op in ('gal', 'both', 'image', 'nopsf'):
                gg = (sh.g1, sh.g2)
                if op in ('image', 'nopsf'):
                    e = sc.draw(galsim.Convolve(sc.gal.shear(g1=gg[0], g2=gg[1]), galsim.Gaussian(fwhm=6*sc.sc)))/sc.pim_flux
                    e2 = None
                else:
                    t = m.get_target_psf(sh, 'gal_shear')[1]
                    dil = 1 + 2*np.hypot(*gg)
                    e = sc.expected(psf, gg, (0, 0), t, dil)
                    e2 = sc.expected(psf, (0, 0), (0, 0), t, dil)
                mon.close('image', a[0], e, rtol=0, atol=tol(sc)*e.max(), detail='%s %s' % (op, sh))
                if op == 'both':
                    mon.close('image', a[2], e2, rtol=0, atol=tol(sc)*e.max(), detail='unsheared %s' % sh)
            elif op in ('psfshear', 'targetp'):
                gg = (sh.g1, sh.g2)
                ep = sc.pdraw(galsim.Convolve(sc.psf_nopix.dilate(1 + 2*np.hypot(*gg)).shear(g1=gg[0], g2=gg[1]), sc.pixel))*sc.pflux
                mon.close('psf image', a[1], ep, rtol=0, atol=tol(sc)*ep.max(), detail='%s %s' % (op, sh))
                if op == 'psfshear':
                    e = sc.expected(psf, (0, 0), gg, None, 1 + 2*np.hypot(*gg))
                    mon.close('image', a[0], e, rtol=0, atol=tol(sc)*e.max(), detail='%s %s' % (op, sh))
            mon.event('calls')
    finally:
        MM.turn_off_galsim_caching()
    mon.same('inputs-kept', snap.snap(sc.obs), before, 'the observation changed')


def w_lists(mon, rng, idx):
    """lists: every member as on its own, in order"""
    kind = gen.pick(rng, ['list', 'mb', 'mb'])
    nb = 1 if kind == 'list' else int(rng.randint(1, 4))
    ne = [int(rng.randint(1, 3)) for _ in range(nb)]
    if rng.randint(4) == 0:
        # many members
        if kind == 'mb' and rng.randint(2):
            nb = int(rng.randint(4, 7))
            ne = [int(rng.randint(1, 3)) for _ in range(nb)]
        else:
            ne[int(rng.randint(nb))] = int(rng.randint(4, 9))
    psf = gen.pick(rng, ['gauss', 'dilate', 'gauss'])
    types = gen.pick(rng, [None, ['1p', '1m'], ['2p', 'noshear', '1p']])
    cache = bool(rng.randint(3) == 0)
    mon.describe(kind=kind, ne=ne, psf=psf, types=types, cache=cache, r=int(rng.randint(10**6)))
    mb = ngmix.MultiBandObsList(meta={'a': 1})
    share = bool(rng.randint(3) == 0)
    base = Scene(rng) if share else None
    for b in range(nb):
        ol = ngmix.ObsList(meta={'b': b})
        for e in range(ne[b]):
            if share:
                # same coordinates and psf values, other data
                o = base.obs.copy()
                o.image = base.image*(1.0 + 0.3*len(ol) + b)
                if rng.randint(2):
                    o.psf.image = np.ascontiguousarray(base.psf_image[::-1])
            else:
                o = Scene(rng).obs
            o.meta['be'] = (b, e)
            ol.append(o)
        mb.append(ol)
    obs = mb[0] if kind == 'list' else mb
    before = snap.snap(obs)
    kw = dict(psf=psf, fixnoise=False, step=float(gen.pick(rng, [0.01, 0.02, 0.04, -0.03])))
    if cache:
        MM.turn_on_galsim_caching()
    try:
        d = mon.returns('structure', get_all_metacal, obs, types=None if types is None else list(types), **kw)
    finally:
        MM.turn_off_galsim_caching()
    mon.same('inputs-kept', snap.snap(obs), before, 'the input changed')
    singles = [[get_all_metacal(o, types=None if types is None else list(types), **kw) for o in ol] for ol in mb]
    mon.true('structure', set(d) == set(singles[0][0]), 'types', sorted(d))
    for t, v in d.items():
        mon.true('structure', type(v) is type(obs), 'container of', t)
        lists = [v] if kind == 'list' else list(v)
        mon.true('structure', [len(x) for x in lists] == ne, 'members of', t, [len(x) for x in lists], ne)
        for b, ol in enumerate(lists):
            for e, o in enumerate(ol):
                mon.true('structure', o.meta['be'] == (b, e), 'order', o.meta['be'], (b, e))
                s = singles[b][e][t]
                sc = abs(s.image).max()
                mon.close('members', o.image, s.image, rtol=0, atol=1e-11*sc, detail='%s member %d,%d' % (t, b, e))
                mon.close('members', o.psf.image, s.psf.image, rtol=0, atol=1e-11*abs(s.psf.image).max(), detail='psf of %s member %d,%d' % (t, b, e))
                mon.same('members', o.weight, s.weight, 'weight of a member')
                mon.same('members', snap.snap(o.jacobian), snap.snap(s.jacobian), 'jacobian of a member')
                mon.same('members', snap.snap(o.psf.jacobian), snap.snap(s.psf.jacobian), 'psf jacobian of a member')
    mon.event('members', sum(ne))
    if psf == 'gauss':
        # noise put on the psf images: new for each
        r = np.random.RandomState(rng.randint(2**31))
        dn = get_all_metacal(obs, types=['1m'], rng=r, **kw)
        ns = [(o.psf.image - q.psf.image)/(q.psf.weight**-0.5) for o, q in zip(
            [o for ol in ([dn['1m']] if kind == 'list' else dn['1m']) for o in ol],
            [get_all_metacal(o, types=['1m'], **kw)['1m'] for ol in mb for o in ol])]
        for i in range(len(ns)):
            mon.true('noise of members', abs(ns[i].std() - 1) < 7/np.sqrt(2*ns[i].size), 'noise of psf', i, ns[i].std())
            for j in range(i):
                m = min(ns[i].size, ns[j].size)
                c = (ns[i].ravel()[:m]*ns[j].ravel()[:m]).mean()
                mon.true('noise of members', abs(c) < 7/np.sqrt(m), 'the same noise on the psfs of two members', i, j, c)
    own(mon, rng, obs, d)


def w_linear(mon, rng, idx):
    """sums and multiples of images"""
    sc = Scene(rng)
    psf = gen.pick(rng, ['gauss', 'dilate'])
    mon.describe(psf=psf, **sc.desc())
    a, b = rng.normal(), rng.normal()
    other = rng.normal(size=sc.dims)*abs(sc.image).max()
    kw = dict(psf=psf, fixnoise=False, step=float(gen.pick(rng, [0.03, -0.02, 0.1])))

    def run(im):
        o = sc.obs.copy()
        o.image = im
        return get_all_metacal(o, **kw)
    d0, d1, d2 = run(sc.image), run(other), run(a*sc.image + b*other)
    k = gen.loguni(rng, 0.1, 10)
    d3 = run(k*sc.image)
    for t in d0:
        want = a*d0[t].image + b*d1[t].image
        # a multiple is exactly that
        mon.close('proportional', d3[t].image, k*d0[t].image, rtol=0, atol=1e-10*abs(k*d0[t].image).max(), detail=t)
        mon.close('linear', d2[t].image, want, rtol=0, atol=2e-5*max(abs(d0[t].image).max(), abs(d1[t].image).max()), detail=t)


def w_refused(mon, rng, idx):
    sc = Scene(rng)
    k = int(rng.randint(8))
    mon.describe(k=k, **sc.desc())
    psf = gen.pick(rng, ['gauss', 'dilate'])
    if k == 0:
        bad = gen.pick(rng, ['3p', '1p_PSF', 'shear', '', 'noshear_psf', None, 3])
        mon.raises('refused', (AssertionError, ValueError, KeyError, TypeError), get_all_metacal, sc.obs, psf=psf, fixnoise=False, types=[bad])
    elif k == 1:
        for p in ('gauss', galsim.Gaussian(fwhm=5*sc.sc)):
            mon.raises('refused', (AssertionError, ValueError), get_all_metacal, sc.obs, psf=p, fixnoise=False,
                       types=['1p', gen.pick(rng, ALL[5:])])
    elif k == 2:
        o = ngmix.Observation(sc.image, jacobian=sc.jac)
        mon.raises('refused', ValueError, get_all_metacal, o, psf=psf, fixnoise=False)
        mon.raises('refused', ValueError, MC.MetacalDilatePSF, o)
    elif k == 3:
        m = MC.MetacalDilatePSF(sc.obs)
        for bad in (0.01, (0.01, 0.0), None, 'x', galsim.Shear(g1=0.1)):
            if bad is None:
                continue
            mon.raises('refused', (TypeError, AttributeError), m.get_obs_galshear, bad)
            mon.raises('refused', (TypeError, AttributeError), m.get_obs_psfshear, bad)
            mon.raises('refused', (TypeError, AttributeError), m.get_target_psf, bad, 'gal_shear')
            mon.raises('refused', (TypeError, AttributeError), m.get_sheared_image_nopsf, bad)
    elif k == 4:
        mon.raises('refused', (AssertionError, ValueError, TypeError), get_all_metacal, sc.obs, psf=gen.pick(rng, ['moffat', 3, None, '']), fixnoise=False)
    elif k == 5:
        mon.raises('refused', ValueError, get_all_metacal, gen.pick(rng, [None, 3, [sc.obs], sc.image]), psf=psf, fixnoise=False)
    elif k == 7:
        # a psf that no gaussian fits: its own mixture is used when it is one gaussian, and nothing else
        im = np.zeros((33, 33))
        im[16, 16] = gen.loguni(rng, 1e-2, 1e2)
        T = gen.loguni(rng, 3, 30)*sc.sc**2
        g = gen.disk(rng, 0.2)
        gm = ngmix.GMixModel([0, 0, g[0], g[1], T, im.sum()], 'gauss')
        two = ngmix.GMix(pars=np.concatenate([gm.get_full_pars()]*2))
        cj = ngmix.DiagonalJacobian(row=16, col=16, scale=sc.sc)
        seed = rng.randint(2**31)
        for mix in (None, gm, two):
            po = ngmix.Observation(im.copy(), jacobian=cj)
            if mix is not None:
                po.set_gmix(mix)
            o = ngmix.Observation(sc.image, jacobian=sc.jac, psf=po)
            r = np.random.RandomState(seed)
            if mix is None:
                try:
                    MC.MetacalFitGaussPSF(o, rng=r)
                    # a fit happened to succeed
                    break
                except ngmix.gexceptions.BootPSFFailure:
                    mon._count('failed psf')
                    continue
            if mix is not gm:
                mon.raises('failed psf', ngmix.gexceptions.BootPSFFailure, MC.MetacalFitGaussPSF, o, rng=r)
                continue
            t = MC.MetacalFitGaussPSF(o, rng=r).get_target_psf(ngmix.Shape(0.0, 0.0), 'gal_shear')[1]
            e = np.hypot(*ngmix.shape.g1g2_to_e1e2(*g))
            s2 = T/2*min(1.1, 1 + 2*(np.sqrt(1 + e) - 1))
            kk = 0.5/np.sqrt(s2)
            mon.close('failed psf', t.kValue(kk, 0).real, im.sum()*np.exp(-0.5*kk**2*s2), rtol=1e-5, detail='gaussian from the mixture')
    else:
        mon.raises('refused', ValueError, get_all_metacal, sc.obs, psf='fitgauss', fixnoise=False)
        m = MC.MetacalGaussPSF(sc.obs)
        mon.raises('refused', AssertionError, m.get_obs_psfshear, ngmix.Shape(0.01, 0.0))


def w_mixture(mon, rng, idx):
    """the psf attached is the psf it was reconvolved with, its mixture included"""
    sc = Scene(rng)
    psf, arg = psf_arg(rng, sc, ('gauss', 'dilate'))
    sc.po.set_gmix(ngmix.GMixModel([0, 0, 0, 0, 2*sc.sc**2, 1.0], 'gauss'))
    sc.obs.set_psf(sc.po)
    mon.describe(psf=psf, **sc.desc())
    d = get_all_metacal(sc.obs, psf=arg, fixnoise=False)
    for t, v in d.items():
        ok = True
        if v.psf.has_gmix():
            im = v.psf.gmix.make_image(sc.pdims, jacobian=v.psf.jacobian)
            ok = abs(im/im.sum() - v.psf.image/v.psf.image.sum()).max() < 0.05*(v.psf.image/v.psf.image.sum()).max()
        mon.finding('psf-mixture-kept', 'psf mixture', ok, 'the mixture on the psf of', t, 'is not that of its image')


WORKLOADS = [
    Workload('analytic', w_analytic, quick=260, thorough=5000),
    Workload('api', w_api, quick=120, thorough=2000),
    Workload('lists', w_lists, quick=80, thorough=1500),
    Workload('linear', w_linear, quick=40, thorough=500),
    Workload('refused', w_refused, quick=80, thorough=400),
    Workload('mixture', w_mixture, quick=10, thorough=60),
]
