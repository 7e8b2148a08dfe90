"""Pre-psf moments: against the analytic moments of the pre-seeing object, their linear response, histories and caches."""
import numpy as np
import galsim
import ngmix
from ngmix import prepsfmom as PP
from ngmix.prepsfmom import KSigmaMom, PGaussMom, PrePSFMom, PrePSFGaussMom
from ngmix.gexceptions import FFTRangeError
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P17'
RULE = """sums of off-centre elliptical gaussians seen through gaussian and moffat psfs (with pixel) or the pixel alone, on odd, even and unequal
stamps with rotated, flipped and sheared coordinates, random centres, paddings, smoothings, kernels and psf normalisations, compared with
the analytic weighted moments; the covariance compared with the response to every pixel in turn; random histories of calls, caches
switched and inputs changed compared with calls in a fresh state; cases differ by scene, kernel and configuration"""
REQUIRED = ['flux sum', 'size sum', 'shape sums', 'ratios', 'norm', 'covariance', 'errors', 'linear', 'psf norm', 'no psf', 'history', 'cached',
            'inputs-kept', 'refused wcs', 'refused psf', 'refused shape', 'refused kernel', 'refused type', 'masked', 'variance', 'kernels', 'alias',
            'moffat', 'psf-independent', 'frame', 'padding', 'modes']
FW = 2*np.sqrt(2*np.log(2))
MAXCHI2 = getattr(PP, 'FASTEXP_MAX_CHI2', 25.0)


def kernel_sums(kind, fwhm, smooth, comps):
    """analytic F, T, 1, 2 sums of gaussians (flux, v, u, vv, vu, uu) about the origin"""
    sig2 = (fwhm/FW)**2
    ss = (smooth/FW)**2
    out = np.zeros(4)
    if kind == 'gauss':
        for f, v, u, cvv, cvu, cuu in comps:
            C = np.array([[cvv + ss, cvu], [cvu, cuu + ss]])
            m = np.array([v, u])
            S = C + sig2*np.identity(2)
            Si = np.linalg.inv(S)
            amp = f*sig2/np.sqrt(np.linalg.det(S))*np.exp(-0.5*m @ Si @ m)
            Q = C @ Si*sig2
            q = sig2*(Si @ m)
            M = Q + np.outer(q, q)
            out += amp*np.array([1.0, M[0, 0] + M[1, 1], M[1, 1] - M[0, 0], 2*M[0, 1]])
        return out
    n = 4
    K2 = 2*n/sig2
    K = np.sqrt(K2)
    x, wx = np.polynomial.legendre.leggauss(240)
    k = K*(x + 1)/2
    wk = wx*K/2*k
    na = 96
    th = np.arange(na)*2*np.pi/na
    kk, tt = np.meshgrid(k, th, indexing='ij')
    kv, ku = kk*np.sin(tt), kk*np.cos(tt)
    w = wk[:, None]*(2*np.pi/na)/(2*np.pi)**2
    y = 1 - kk**2/K2
    # one in real space at the origin: integral of k(1-k2/K2)^4 dk/2pi
    c = 1/(K2/10/(2*np.pi))
    W = c*y**4
    d1 = -8*c/K2*y**3
    d2 = 48*c/K2**2*y**2
    Wvv, Wuu, Wvu = -(d1 + d2*kv*kv), -(d1 + d2*ku*ku), -(d2*kv*ku)
    for f, v, u, cvv, cvu, cuu in comps:
        G = f*np.exp(-0.5*(kv**2*(cvv + ss) + 2*kv*ku*cvu + ku**2*(cuu + ss)))*np.cos(kv*v + ku*u)
        out += np.array([(G*W*w).sum(), (G*(Wvv + Wuu)*w).sum(), (G*(Wuu - Wvv)*w).sum(), (G*2*Wvu*w).sum()])
    return out


def kernel_norm(kind, fwhm, area):
    sig2 = (fwhm/FW)**2
    if kind == 'gauss':
        return 2*np.pi*sig2/area
    return 10*np.pi*sig2/4/area


class Scene(object):
    def __init__(self, rng, nmin=44, nmax=64, maxshear=0.1, sig=None):
        self.N = int(rng.randint(nmin, nmax))
        self.M = int(rng.randint(40, 58))
        kinds = ['diag', 'rot', 'flip', 'shear', 'general']
        self.sc = float(gen.pick(rng, [0.2, 0.263, 0.5, 1.0]))
        self.kind = gen.pick(rng, kinds)
        cen = (self.N - 1)/2 + (rng.uniform(-3, 3, size=2) if rng.randint(3) else np.zeros(2))
        self.jp, _ = gen.jac_pars(rng, (self.N, self.N), kind=self.kind, scale=self.sc, cen=cen, maxshear=maxshear)
        self.jac = gen.make_jac(self.jp)
        self.cen = cen
        self.wcs = self.jac.get_galsim_wcs()
        s = self.sc
        n = int(rng.randint(1, 4))
        comps = []
        for i in range(n):
            g1, g2 = gen.disk(rng, 0.5)
            T = 2*(sig or rng.uniform(0.8, 2.4))**2*s**2
            gsq = g1*g1 + g2*g2
            e1, e2 = 2*g1/(1 + gsq), 2*g2/(1 + gsq)
            f = gen.loguni(rng, 0.3, 3)*(1 if i == 0 or rng.randint(4) else -0.2)
            comps.append([f, rng.uniform(-1, 1)*s, rng.uniform(-1, 1)*s, T/2*(1 - e1), T/2*e2, T/2*(1 + e1)])
        self.F = gen.loguni(rng, 0.01, 1e4)
        self.comps = np.array(comps)
        self.comps[:, 0] *= self.F
        gal = None
        for f, v, u, cvv, cvu, cuu in self.comps:
            d = cvv*cuu - cvu**2
            T = cvv + cuu
            e1, e2 = (cuu - cvv)/T, 2*cvu/T
            g = galsim.Gaussian(sigma=d**0.25, flux=f).shear(e1=e1, e2=e2).shift(u, v)
            gal = g if gal is None else gal + g
        self.gal = gal
        self.set_psf(rng)

    def set_psf(self, rng, kind=None):
        s = self.sc
        self.pk = kind or gen.pick(rng, ['gauss', 'gauss', 'moffat'])
        fw = rng.uniform(2.6, 3.6)*s
        p = galsim.Gaussian(fwhm=fw) if self.pk == 'gauss' else galsim.Moffat(beta=4.5, fwhm=fw)
        self.psf = p.shear(g1=rng.uniform(-.08, .08), g2=rng.uniform(-.08, .08))
        self.pflux = float(gen.pick(rng, [1.0, 1.0, 1.0, 0.5, 3.0]))
        self.pcen = (self.M - 1)/2 + (rng.uniform(-2, 2, size=2) if rng.randint(2) else np.zeros(2))
        if rng.randint(3) == 0:
            # object and psf off their stamps' centres by the same amount along one axis, or both: no phase to remove there
            self.M += (self.N - self.M) % 2
            self.pcen = (self.M - 1)/2 + (self.cen - (self.N - 1)/2)
            ax = int(rng.randint(3))
            if ax < 2:
                self.pcen[ax] += rng.uniform(-2, 2) if rng.randint(2) else float(rng.randint(-3, 4))
        q = list(self.jp)
        q[0], q[1] = self.pcen
        self.pjac = gen.make_jac(q)

    def draw(self, obj, n, cen, method='auto'):
        off = (cen[1] - (n - 1)/2, cen[0] - (n - 1)/2)
        return obj.drawImage(nx=n, ny=n, wcs=self.wcs, offset=off, dtype=float, method=method).array

    def obs(self, psf=True, image=None, weight=None, cut=None):
        if image is None:
            image = self.draw(galsim.Convolve(self.gal, self.psf) if psf else self.gal, self.N, self.cen)
        p = None
        if psf:
            p = ngmix.Observation(self.pimage(), jacobian=self.pjac)
        kw = {} if weight is None else dict(weight=weight)
        return ngmix.Observation(image, jacobian=self.jac, psf=p, **kw)

    def pimage(self):
        return self.draw(self.psf, self.M, self.pcen)*self.pflux

    def desc(self):
        return dict(N=self.N, M=self.M, kind=self.kind, sc=self.sc, psf=self.pk, pflux=self.pflux, n=len(self.comps), F=self.F, cen=list(self.cen - (self.N - 1)/2))


def fitter(rng, sc, kind=None, pad=None):
    kind = kind or gen.pick(rng, ['gauss', 'ksigma'])
    fwhm = rng.uniform(5.5, 9.0)*sc.sc
    smooth = float(gen.pick(rng, [0.0, 0.0, rng.uniform(0.5, 6)]))*sc.sc
    pad = pad or float(gen.pick(rng, [4, 2, 1.5, 3, 2.7]))
    kw = dict(pad_factor=pad)
    if smooth > 0:
        kw['fwhm_smooth'] = smooth
    ap = gen.pick(rng, [None, None, 0.8, 0, rng.uniform(0.5, 1.7)])
    if ap is not None:
        kw['ap_rad'] = ap
    how = int(rng.randint(3))
    if kind == 'gauss':
        f = PGaussMom(fwhm, **kw) if how == 0 else (PrePSFGaussMom(fwhm=fwhm, **kw) if how == 1 else PrePSFMom(fwhm, gen.pick(rng, ['gauss', 'pgauss']), **kw))
    else:
        f = KSigmaMom(fwhm, **kw) if how else PrePSFMom(fwhm, 'ksigma', **kw)
    return f, kind, fwhm, smooth, dict(kw, fwhm=fwhm, kernel=kind, how=how)


def got(res):
    """flux, size and two shape sums"""
    s = res['sums']
    return np.array([s[5], s[4], s[2], s[3]])


def tols(kind, pad, psf):
    """of the flux sum and of the others: the kernel's tail wraps around when the padding is small (the ksigma one falls off slowly)"""
    if kind == 'gauss':
        return 4e-4, 3e-3
    return (3e-4 if psf else 2.5e-3), (4e-3 if pad > 2.5 else (4e-2 if pad < 1.8 or not psf else 1.2e-2))


def compare(mon, res, want, scale, t, extra=''):
    g = got(res)
    mon.true('inputs-kept', np.isnan(res['sums'][:2]).all(), 'centroid sums are not measured')
    mon.close('flux sum', g[0], want[0], rtol=0, atol=t[0]*scale[0], detail=extra)
    mon.close('size sum', g[1], want[1], rtol=0, atol=t[1]*scale[1], detail=extra)
    mon.close('shape sums', g[2:], want[2:], rtol=0, atol=t[1]*scale[1], detail=extra)
    mon.close('ratios', res['flux'], g[0], rtol=1e-12)
    if res['flags'] == 0:
        mon.close('ratios', res['T'], g[1]/g[0], rtol=1e-12)
        mon.close('ratios', res['e'], g[2:]/g[1], rtol=1e-12)
        mon.event('unflagged')


def w_analytic(mon, rng, idx):
    psf = bool(rng.randint(4))
    # without a psf it is the light itself that has to be well sampled
    sc = Scene(rng) if psf else Scene(rng, sig=rng.uniform(2.4, 3.2))
    f, kind, fwhm, smooth, fd = fitter(rng, sc)
    mon.describe(fitter=fd, withpsf=psf, **sc.desc())
    want = kernel_sums(kind, fwhm, smooth, sc.comps)
    a = np.abs(sc.comps).copy()
    s = kernel_sums('gauss', fwhm, smooth, [[abs(c[0]), 0, 0] + list(c[3:]) for c in sc.comps])
    o = sc.obs(psf=psf)
    # the other way round: a psf is there but not to be used
    if not psf and rng.randint(2):
        o.set_psf(ngmix.Observation(sc.pimage(), jacobian=sc.pjac))
    before = snap.snap(o)
    res = mon.returns('flux sum', f.go, o, no_psf=not psf) if not psf or rng.randint(2) else mon.returns('flux sum', f.go, obs=o)
    mon.same('inputs-kept', snap.snap(o), before, 'the observation changed')
    norm = sc.pflux if psf else 1.0
    t = tols(kind, f.pad_factor, psf)
    compare(mon, res, want/norm, s/norm, t, '%s kernel, psf %s' % (kind, psf))
    mon._count('psf norm')
    mon._count('frame')
    mon._count('padding')
    if psf and sc.pk == 'moffat':
        mon._count('moffat')
    if not psf:
        mon._count('no psf')
    area = abs(sc.jp[2]*sc.jp[5] - sc.jp[3]*sc.jp[4])
    mon.close('norm', res['sums_norm'], kernel_norm(kind, fwhm, area), rtol=1e-6, detail='sum of the kernel')
    del a
    # another psf, the same light
    if psf:
        sc.set_psf(rng)
        res2 = f.go(sc.obs())
        g, h = got(res)*norm, got(res2)*sc.pflux
        mon.close('psf-independent', h[0], g[0], rtol=0, atol=2*t[0]*s[0], detail='flux with another psf')
        mon.close('psf-independent', h[1:], g[1:], rtol=0, atol=2*t[1]*s[1], detail='size and shape with another psf')


def w_relations(mon, rng, idx):
    """exact relations between runs"""
    sc = Scene(rng)
    f, kind, fwhm, smooth, fd = fitter(rng, sc)
    psf = bool(rng.randint(4))
    mon.describe(fitter=fd, withpsf=psf, **sc.desc())
    kw = {} if psf else dict(no_psf=True)
    im1 = sc.draw(galsim.Convolve(sc.gal, sc.psf), sc.N, sc.cen)
    im2 = rng.normal(size=(sc.N, sc.N))*abs(im1).max()
    a, b = rng.normal(), rng.normal()*3
    w, _ = gen.weight_map(rng, (sc.N, sc.N), gen.pick(rng, ['const', 'vary', 'zeros', 'stripe']))
    r1, r2 = f.go(sc.obs(psf, im1, w), **kw), f.go(sc.obs(psf, im2, w), **kw)
    r3 = f.go(sc.obs(psf, a*im1 + b*im2, w), **kw)
    g1, g2, g3 = got(r1), got(r2), got(r3)
    m = abs(a*g1) + abs(b*g2)
    mon.close('linear', g3, a*g1 + b*g2, rtol=0, atol=1e-9*m.max(), detail='combination of images')
    mon.close('linear', r3['sums_cov'][2:, 2:], r1['sums_cov'][2:, 2:], rtol=1e-10, detail='covariance depends on the image')
    # the variance enters through the sum over usable pixels
    r4 = f.go(sc.obs(psf, im1, 4*w), **kw)
    mon.close('variance', r4['sums_cov'][2:, 2:]*4, r1['sums_cov'][2:, 2:], rtol=1e-10, detail='four times the weight')
    mon.close('variance', got(r4), g1, rtol=1e-12, detail='the weight changed the sums')
    w2 = np.full((sc.N, sc.N), 1.0)
    r5 = f.go(sc.obs(psf, im1, w2), **kw)
    tv = (1/w[w > 0]).sum()/sc.N**2
    mon.close('masked', r1['sums_cov'][2:, 2:], r5['sums_cov'][2:, 2:]*tv, rtol=1e-9, detail='variance of the usable pixels')
    mon.close('errors', r1['flux_err'], np.sqrt(r1['sums_cov'][5, 5]), rtol=1e-12)
    mon.close('errors', r1['sums_err'][2:], np.sqrt(np.diag(r1['sums_cov'])[2:]), rtol=1e-12)
    if psf:
        c = float(gen.pick(rng, [0.1, 2.0, 30.0]))
        o = sc.obs(True, im1, w)
        p = ngmix.Observation(o.psf.image*c, jacobian=o.psf.jacobian)
        o.set_psf(p)
        r6 = f.go(o)
        mon.close('psf norm', got(r6)*c, g1, rtol=1e-9, detail='psf image times %g' % c)
        mon.close('psf norm', r6['sums_cov'][2:, 2:]*c*c, r1['sums_cov'][2:, 2:], rtol=1e-9, detail='psf image times %g' % c)
    # a frame rotated and flipped in pixels: the same sky
    t = gen.pick(rng, ['transpose', 'fliprow', 'flipcol', 'rot'])
    N, M = sc.N, sc.M

    def turn(im, jp, n):
        r0, c0, vr, vc, ur, uc = jp
        if t == 'transpose':
            return im.T, (c0, r0, vc, vr, uc, ur)
        if t == 'fliprow':
            return im[::-1], (n - 1 - r0, c0, -vr, vc, -ur, uc)
        if t == 'flipcol':
            return im[:, ::-1], (r0, n - 1 - c0, vr, -vc, ur, -uc)
        return im[::-1, ::-1], (n - 1 - r0, n - 1 - c0, -vr, -vc, -ur, -uc)
    i2, j2 = turn(im2, sc.jp, N)
    wt, _ = turn(w, sc.jp, N)
    p = None
    if psf:
        q = list(sc.jp)
        q[0], q[1] = sc.pcen
        pi, pj = turn(sc.pimage(), q, M)
        p = ngmix.Observation(np.ascontiguousarray(pi), jacobian=gen.make_jac(pj))
    r7 = f.go(ngmix.Observation(np.ascontiguousarray(i2), weight=np.ascontiguousarray(wt), jacobian=gen.make_jac(j2), psf=p), **kw)
    ref = f.go(sc.obs(psf, im2, w), **kw)
    mon.close('frame', got(r7), got(ref), rtol=0, atol=2e-6*np.sqrt(np.abs(np.diag(ref['sums_cov'])[[5, 4, 2, 3]])*np.median(w[w > 0])).max()*abs(im1).max()*N,
              detail=t)
    # padding: compact light, any padding gives the same sums
    if psf:
        pad = float(gen.pick(rng, [2, 3, 5]))
        r8 = PrePSFMom(f.fwhm, f.kernel, pad_factor=pad, ap_rad=f.ap_rad, fwhm_smooth=f.fwhm_smooth).go(sc.obs(psf, im1, w), **kw)
        s = kernel_sums('gauss', fwhm, smooth, [[abs(c[0]), 0, 0] + list(c[3:]) for c in sc.comps])/sc.pflux
        t = tols(kind, min(pad, f.pad_factor), psf)
        mon.close('padding', got(r8)[0], g1[0], rtol=0, atol=2*t[0]*s[0], detail='another padding')
        mon.close('padding', got(r8)[1:], g1[1:], rtol=0, atol=2*t[1]*s[1], detail='another padding')


def w_cov(mon, rng, idx):
    """the covariance is that of white noise: the response of every sum to every pixel"""
    sc = Scene(rng, nmin=33, nmax=40)
    sc.M = int(rng.randint(29, 38)) if rng.randint(2) else int(rng.randint(44, 56))
    sc.set_psf(rng, 'gauss')
    kind = gen.pick(rng, ['gauss', 'ksigma'])
    fwhm = rng.uniform(5.2, 6.5)*sc.sc
    smooth = float(gen.pick(rng, [0.0, 3.0]))*sc.sc
    pad = float(gen.pick(rng, [1.5, 2, 3]))
    sc.cen = (sc.N - 1)/2 + rng.uniform(-0.5, 0.5, size=2)
    q = list(sc.jp)
    q[0], q[1] = sc.cen
    sc.jp = tuple(q)
    sc.jac = gen.make_jac(q)
    f = PrePSFMom(fwhm, kind, pad_factor=pad, fwhm_smooth=smooth, ap_rad=gen.pick(rng, [0, 0.5]))
    psf = bool(rng.randint(3))
    mon.describe(kern=kind, fwhm=fwhm/sc.sc, smooth=smooth, pad=pad, withpsf=psf, **sc.desc())
    kw = {} if psf else dict(no_psf=True)
    var = gen.loguni(rng, 0.01, 100)
    w = np.full((sc.N, sc.N), 1/var)
    L = np.zeros((4, sc.N, sc.N))
    im = np.zeros((sc.N, sc.N))
    o = sc.obs(psf, im.copy(), w)
    for i in range(sc.N):
        for j in range(sc.N):
            im[i, j] = 1.0
            o.image = im
            L[:, i, j] = got(f.go(o, **kw))
            im[i, j] = 0.0
    r = f.go(o, **kw)
    order = [5, 4, 2, 3]
    c = r['sums_cov'][np.ix_(order, order)]
    want = var*np.einsum('aij,bij->ab', L, L)
    d = np.sqrt(np.diag(want))
    mon.close('covariance', c/np.outer(d, d), want/np.outer(d, d), rtol=0, atol=0.06, detail='covariance over scatter of noise')
    mon.event('pixel responses', sc.N**2)


def w_history(mon, rng, idx):
    """many calls in any order, caches on or off, inputs changed in between"""
    scs = [Scene(rng, nmin=24, nmax=34) for _ in range(2)]
    for s in scs:
        s.M = int(rng.randint(22, 30))
        s.set_psf(rng)
    fs = [fitter(rng, scs[0])[0] for _ in range(3)]
    fs.append(PrePSFMom(fs[0].fwhm, 'ksigma' if fs[0].kind == 'pgauss' else 'pgauss', pad_factor=fs[0].pad_factor, ap_rad=fs[0].ap_rad, fwhm_smooth=fs[0].fwhm_smooth))
    obss = []
    for s in scs:
        o = s.obs(image=rng.normal(size=(s.N, s.N)))
        obss.append(o)
        # the same image at another centre; another frame; the same frame, another image
        o2 = o.copy()
        o2.jacobian = s.jac.copy() if False else gen.make_jac((s.jp[0] + 0.3, s.jp[1] - 0.2) + tuple(s.jp[2:]))
        obss.append(o2)
        th = 0.3
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        A = R @ np.array([[s.jp[2], s.jp[3]], [s.jp[4], s.jp[5]]])
        jp = (s.jp[0], s.jp[1], A[0, 0], A[0, 1], A[1, 0], A[1, 1])
        p3 = ngmix.Observation(o.psf.image.copy(), jacobian=gen.make_jac((s.pcen[0], s.pcen[1]) + jp[2:]))
        obss.append(ngmix.Observation(o.image.copy(), jacobian=gen.make_jac(jp), psf=p3))
        o4 = o.copy()
        o4.psf = ngmix.Observation(o.psf.image[::-1, ::-1].copy(), jacobian=o.psf.jacobian)
        obss.append(o4)
        o5 = o.copy()
        o5.weight = np.full((s.N, s.N), 3.0)
        obss.append(o5)
    seq = []
    mon.describe(n=[s.N for s in scs], m=[s.M for s in scs], r=int(rng.randint(10**8)))
    PP.turn_off_fft_caching()
    PP.turn_off_kernel_caching()
    truth = {}

    def fresh(fi, oi, nop):
        a, b = getattr(PP, 'USE_FFT_CACHE', True), getattr(PP, 'USE_KERNEL_CACHE', True)
        PP.USE_FFT_CACHE = False
        PP.USE_KERNEL_CACHE = False
        try:
            g = fs[fi]
            h = PrePSFMom(g.fwhm, g.kernel, pad_factor=g.pad_factor, ap_rad=g.ap_rad, fwhm_smooth=g.fwhm_smooth)
            return run(h, obss[oi], nop)
        finally:
            PP.USE_FFT_CACHE, PP.USE_KERNEL_CACHE = a, b

    def run(h, o, nop, rk=False):
        try:
            kw = {}
            if nop:
                kw['no_psf'] = True
            if rk:
                kw['return_kernels'] = True
            return h.go(o, **kw)
        except FFTRangeError:
            return 'range'
    try:
        for step in range(rng.randint(12, 30)):
            k = rng.randint(14)
            if k == 0:
                PP.turn_on_fft_caching()
            elif k == 1:
                PP.turn_on_kernel_caching()
            elif k == 2:
                PP.turn_off_fft_caching()
            elif k == 3:
                PP.turn_off_kernel_caching()
            elif k == 4:
                # change an observation in place
                oi = rng.randint(len(obss))
                with obss[oi].writeable():
                    obss[oi].image[rng.randint(5), rng.randint(5)] += 1.0
                    obss[oi].image[obss[oi].image.shape[0]//2] *= -1.5
            elif k == 5:
                oi = rng.randint(len(obss))
                with obss[oi].psf.writeable():
                    obss[oi].psf.image[:] = obss[oi].psf.image[::-1].copy()
            else:
                fi, oi, nop, rk = rng.randint(len(fs)), rng.randint(len(obss)), rng.randint(5) == 0, rng.randint(4) == 0
                r = run(fs[fi], obss[oi], nop, rk)
                e = fresh(fi, oi, nop)
                name = 'cached' if getattr(PP, 'USE_FFT_CACHE', True) or getattr(PP, 'USE_KERNEL_CACHE', True) else 'history'
                if isinstance(e, str) or isinstance(r, str):
                    mon.true(name, r == e if isinstance(r, str) and isinstance(e, str) else False, 'one is refused and the other not', r, e)
                    continue
                for key in e:
                    if isinstance(e[key], (float, np.ndarray, np.floating, int)):
                        mon.same(name, r[key], e[key], 'entry %s' % key)
                mon.event('calls compared')
                if rk:
                    ks = r['kernels']
                    mon.true('kernels', {'fkf', 'fkr', 'fkp', 'fkc'} <= set(ks), sorted(ks))
                    for kk in ('fkf', 'fkr', 'fkp', 'fkc'):
                        mon.true('kernels', ks[kk].shape[0] == ks[kk].shape[1], 'kernel shape')
                        # a caller may do what he wants with them
                        ks[kk][:] = 1e10
                    mon._count('alias')
                r['sums'][:] = -1
                r['sums_cov'][:] = -1
    finally:
        PP.turn_off_fft_caching()
        PP.turn_off_kernel_caching()


def w_refused(mon, rng, idx):
    sc = Scene(rng)
    f, kind, fwhm, smooth, fd = fitter(rng, sc)
    mon.describe(fitter=fd, k=idx % 7, **sc.desc())
    o = sc.obs()
    k = idx % 7
    if k == 0:
        q = list(sc.jp)
        i = int(rng.randint(2, 6))
        q[i] = q[i] + 1e-3*gen.pick(rng, [-1, 1, 30])*sc.sc
        o.set_psf(ngmix.Observation(sc.pimage(), jacobian=gen.make_jac(q)))
        mon.raises('refused wcs', RuntimeError, f.go, o)
        mon.returns('no psf', f.go, o, no_psf=True)
    elif k == 1:
        o = sc.obs(psf=False)
        mon.raises('refused psf', RuntimeError, f.go, o)
        mon.raises('refused psf', RuntimeError, f.go, obs=o, no_psf=False)
    elif k == 2:
        im = np.zeros((sc.N, sc.N + int(gen.pick(rng, [-1, 1, 5]))))
        o = ngmix.Observation(im, jacobian=sc.jac, psf=ngmix.Observation(sc.pimage(), jacobian=sc.pjac))
        mon.raises('refused shape', ValueError, f.go, o)
        mon.raises('refused shape', ValueError, f.go, o, no_psf=True)
    elif k == 3:
        # far smaller than a pixel: the kernel does not fit the transform
        x = rng.uniform(0.05, 0.9)
        for kern in ('ksigma', 'gauss'):
            mon.raises('refused kernel', FFTRangeError, PrePSFMom(x*sc.sc, kern).go, o)
    elif k == 4:
        bad = gen.pick(rng, [None, 3, np.zeros((5, 5)), 'x'])
        mon.raises('refused type', ValueError, f.go, bad)
        ol = ngmix.ObsList()
        ol.append(o)
        mon.raises('refused type', ValueError, f.go, ol)
        mb = ngmix.MultiBandObsList()
        mb.append(ol)
        mon.raises('refused type', ValueError, f.go, mb)
    elif k == 5:
        mon.raises('refused type', ValueError, PrePSFMom, 1.2, gen.pick(rng, ['Gauss', 'sigma', '', None]))
    else:
        # kernels wide enough are never refused
        for kern in ('ksigma', 'gauss'):
            mon.returns('refused kernel', PrePSFMom(rng.uniform(4.5, 12)*sc.sc, kern).go, o)


def w_modes(mon, rng, idx):
    """mode by mode, with the transform written out: also psfs that remove most of the modes, where the deconvolution is limited"""
    N, M = int(rng.randint(12, 40)), int(rng.randint(12, 40))
    cen, pcen = (N - 1)/2 + rng.uniform(-2, 2, size=2), (M - 1)/2 + rng.uniform(-2, 2, size=2)
    # any unit: arcseconds, degrees, pixels
    s = float(gen.pick(rng, [0.2, 0.263, 1.0, 5e-5, 40.0]))
    jp, jk = gen.jac_pars(rng, (N, N), scale=s, cen=cen, maxshear=0.1, kind=gen.pick(rng, ['diag', 'rot', 'flip', 'shear', 'general']))
    q = (pcen[0], pcen[1]) + tuple(jp[2:])
    how = gen.pick(rng, ['wide', 'wide', 'narrow', 'none'])
    sig = {'wide': rng.uniform(2.0, 4.5), 'narrow': rng.uniform(0.8, 1.5), 'none': 1.0}[how]
    y, x = np.mgrid[0:M, 0:M]
    el = rng.uniform(0.8, 1.2)
    pim = np.exp(-0.5*((y - pcen[0])**2*el + (x - pcen[1])**2/el)/sig**2)
    pim *= gen.loguni(rng, 0.1, 10)/pim.sum()
    im = rng.normal(size=(N, N))
    w, wk = gen.weight_map(rng, (N, N), gen.pick(rng, ['const', 'vary', 'zeros']))
    if rng.randint(3) == 0:
        w = w*10.0**rng.uniform(-6, 0, size=w.shape)
    ap = float(gen.pick(rng, [0, 0, 1.5, rng.uniform(0.3, 1.5), rng.uniform(2, 6)]))
    kind = gen.pick(rng, ['ksigma', 'gauss'])
    fwhm = rng.uniform(5.0, 9.0)*s if kind == 'ksigma' else rng.uniform(3.2, 8.0)*s
    smooth = float(gen.pick(rng, [0.0, rng.uniform(0.5, 4)]))*s
    pad = float(gen.pick(rng, [2, 3, 4, 1.7, 2.3]))
    mon.describe(N=N, M=M, jac=jk, psf=how, sig=sig, kern=kind, fwhm=fwhm/s, smooth=smooth/s, pad=pad, w=wk, ap=ap)
    po = ngmix.Observation(pim.copy(), jacobian=gen.make_jac(q))
    o = ngmix.Observation(im.copy(), weight=w.copy(), jacobian=gen.make_jac(jp), psf=None if how == 'none' else po)
    f = PrePSFMom(fwhm, kind, pad_factor=pad, ap_rad=ap, fwhm_smooth=smooth)
    try:
        r = f.go(o, return_kernels=True, no_psf=how == 'none')
    except FFTRangeError:
        mon.event('modes: kernel refused')
        return
    dim = int((max(N, M) if how != 'none' else N)*pad)
    fr = np.fft.fftfreq(dim)
    fy, fx = np.meshgrid(fr, fr, indexing='ij')

    def trans(a, c):
        n = a.shape[0]
        big = np.zeros((dim, dim))
        b = (dim - n)//2
        big[b:b + n, b:b + n] = a
        return np.fft.fft2(big)*np.exp(2j*np.pi*(fy*(c[0] + b) + fx*(c[1] + b)))
    if ap > 0:
        # down to nothing at the edges over six times the radius, along the integral of a triweight
        tt = (np.arange(N) - int(6*ap + 0.5))/ap/3 + 1
        ramp = np.where(tt < -1, 0, np.where(tt > 1, 1, 0.5 + 35/32*(tt - tt**3 + 3*tt**5/5 - tt**7/7)))
        ramp = ramp*ramp[::-1]
        k = trans(im*ramp[:, None]*ramp[None, :], cen)
    else:
        k = trans(im, cen)
    if how == 'none':
        kp = np.sinc(fy)*np.sinc(fx) + 0j
    else:
        kp = trans(pim, pcen)
    amp = abs(kp)
    lim = 1e-5*amp[0, 0]
    low = amp < lim
    if (abs(amp/lim - 1) < 1e-6).any():
        return
    kp = np.where(low, kp/np.where(amp > 0, amp, 1)*lim, kp)
    A = np.array([[jp[2], jp[3]], [jp[4], jp[5]]])
    Ai = np.linalg.inv(A).T
    kv, ku = 2*np.pi*(Ai[0, 0]*fy + Ai[0, 1]*fx), 2*np.pi*(Ai[1, 0]*fy + Ai[1, 1]*fx)
    k2 = kv**2 + ku**2
    sig2 = (fwhm/FW)**2
    area = abs(np.linalg.det(A))
    sm = np.exp(-0.5*(smooth/FW)**2*k2)
    if kind == 'ksigma':
        K2 = 8/sig2
        yy = np.where(k2 < K2, 1 - k2/K2, 0)
        c = 20*np.pi/K2/area
        W = c*yy**4*sm
        d1, d2 = -8*c/K2*yy**3*sm, 48*c/K2**2*yy**2*sm
        kern = [W, -2*d1 - d2*k2, -(ku**2 - kv**2)*d2, -2*ku*kv*d2]
        used = k2 < K2
    else:
        used = sig2*k2 < MAXCHI2
        if (abs(sig2*k2/MAXCHI2 - 1) < 1e-9).any():
            return
        W = np.where(used, 2*np.pi*sig2/area*np.exp(-0.5*sig2*k2)*sm, 0)
        kern = [W, (2*sig2 - sig2**2*k2)*W, sig2**2*(kv**2 - ku**2)*W, -2*sig2**2*ku*kv*W]
    mon.event('modes: %s' % ('some limited' if (low & used).any() else 'none limited'))
    # where the psf's own transform is rounding error its phase is noise
    noise = np.minimum(2, 1e-14*amp[0, 0]/np.maximum(amp, 1e-300)) if how != 'none' else np.full(amp.shape, 1e-14)
    g = got(r)
    for i, kk in enumerate(kern):
        t = (k/kp*kk)[used].real/dim**2
        slack = (np.abs(k/kp*kk)*noise)[used].sum()/dim**2
        # fast exponential: up to 1e-4 of every mode
        mon.close('modes', g[i], t.sum(), rtol=0, atol=1e-3*np.sqrt((np.abs((k/kp*kk)[used]/dim**2)**2).sum()) + 1e-9*np.abs(t).sum() + slack, detail='sum %d' % i)
    full = np.array([np.asarray(r['kernels'][n]) for n in ('fkf', 'fkr', 'fkp', 'fkc')])
    for i, kk in enumerate(kern):
        slack = (np.abs(k/kp*kk)*noise)[used].sum()/dim**2
        mon.close('kernels', full[i], kk, rtol=0, atol=2e-4*abs(kk).max(), detail='kernel %d' % i)
        mon.close('kernels', (k/kp*full[i])[used].real.sum()/dim**2, g[i], rtol=0,
                  atol=1e-8*np.abs((k/kp*kk)[used]).sum()/dim**2 + slack, detail='sum with the kernel handed out %d' % i)
    tv = (1/w[w > 0]).sum()*(dim/N)**2/dim**4
    order = [5, 4, 2, 3]
    c = r['sums_cov'][np.ix_(order, order)]
    want = np.array([[(a*b/abs(kp)**2)[used].sum()*tv for a in kern] for b in kern])
    d = np.sqrt(np.diag(want))
    mon.close('modes', c/np.outer(d, d), want/np.outer(d, d), rtol=0, atol=3e-4, detail='covariance')


WORKLOADS = [
    Workload('analytic', w_analytic, quick=500, thorough=12000),
    Workload('relations', w_relations, quick=250, thorough=5000),
    Workload('cov', w_cov, quick=24, thorough=300),
    Workload('history', w_history, quick=120, thorough=3000),
    Workload('modes', w_modes, quick=600, thorough=15000),
    Workload('refused', w_refused, quick=70, thorough=700),
]
