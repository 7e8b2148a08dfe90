"""Random inputs for the workloads."""
import numpy as np


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def loguni(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def offset(rng, size=1.0):
    """a displacement; often zero, along one axis, the same in both, or in halves"""
    k = rng.randint(12)
    x = rng.uniform(-size, size, size=2)
    if k < 3:
        return 0.0*x
    if k == 3:
        return x*np.array([1.0, 0.0])
    if k == 4:
        return x*np.array([0.0, 1.0])
    if k == 5:
        return x[0]*np.array([1.0, pick(rng, [1.0, -1.0])])
    if k == 6:
        return size*rng.randint(-2, 3, size=2)/2.0
    return x


def disk(rng, gmax=0.9, kind=None):
    """a shape in the disk; often special"""
    k = rng.randint(8) if kind is None else kind
    if k == 0:
        return 0.0, 0.0
    if k == 1:
        g = rng.uniform(-gmax, gmax)
        return pick(rng, [(g, 0.0), (0.0, g)])
    r = gmax*np.sqrt(rng.uniform()) if k < 6 else gmax*rng.uniform(0.0, 0.3)
    t = rng.uniform(0, 2*np.pi)
    return float(r*np.cos(t)), float(r*np.sin(t))


def jac_pars(rng, dims, kind=None, scale=None, cen=None, maxshear=0.3):
    """row0, col0, dvdrow, dvdcol, dudrow, dudcol, and the kind"""
    kinds = ['unit', 'diag', 'rot', 'flip', 'shear', 'general']
    kind = kind or pick(rng, kinds)
    s = 1.0 if kind == 'unit' else (scale or loguni(rng, 0.1, 2.0))
    m = np.identity(2)*s
    th = rng.uniform(0, 2*np.pi)
    rot = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    g1, g2 = disk(rng, maxshear)
    sh = np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)
    if kind == 'rot':
        m = m @ rot
    elif kind == 'flip':
        m = m @ pick(rng, [np.array([[0., 1.], [1., 0.]]), np.diag([1., -1.]), np.diag([-1., 1.]),
                           np.diag([-1., -1.])])
    elif kind == 'shear':
        m = m @ sh
    elif kind == 'general':
        m = m @ rot @ sh
        if rng.uniform() < 0.5:
            m = m @ np.array([[1., 0.], [0., -1.]])
    if cen is None:
        c = (np.array(dims) - 1.0)/2.0
        c = c + offset(rng)
    else:
        c = cen
    return (float(c[0]), float(c[1]), float(m[0, 0]), float(m[0, 1]), float(m[1, 0]), float(m[1, 1])), kind


def make_jac(p):
    import ngmix
    return ngmix.Jacobian(row=p[0], col=p[1], dvdrow=p[2], dvdcol=p[3], dudrow=p[4], dudcol=p[5])


def jacob(rng, dims, **kw):
    p, kind = jac_pars(rng, dims, **kw)
    return make_jac(p), kind


def dims(rng, lo=1, hi=24, square=0.3):
    a = rng.randint(lo, hi + 1)
    b = a if rng.uniform() < square else rng.randint(lo, hi + 1)
    return int(a), int(b)


def weight_map(rng, shape, kind=None):
    kinds = ['const', 'vary', 'zeros', 'stripe', 'one', 'neg']
    kind = kind or pick(rng, kinds)
    base = loguni(rng, 0.1, 1e4) if rng.uniform() < 0.9 else 1.0
    w = np.full(shape, base)
    if kind == 'vary':
        w = base*rng.uniform(0.3, 3.0, size=shape)
    elif kind == 'zeros':
        w = base*rng.uniform(0.3, 3.0, size=shape)*(rng.uniform(size=shape) < rng.uniform(0.2, 0.95))
    elif kind == 'stripe':
        if rng.uniform() < 0.5:
            w[rng.randint(shape[0])] = 0.0
        else:
            w[:, rng.randint(shape[1])] = 0.0
    elif kind == 'one':
        w[:] = 0.0
    elif kind == 'neg':
        w = w*np.where(rng.uniform(size=shape) < 0.2, -1.0, 1.0)
    if not (w > 0).any():
        w[rng.randint(shape[0]), rng.randint(shape[1])] = base
    return w, kind


def full_gmix_pars(rng, n=None, spread=3.0, Tmin=0.5, Tmax=30.0, gmax=0.7, signs=False, scale=1.0):
    n = n or rng.randint(1, 9)
    out = []
    for i in range(n):
        g1, g2 = disk(rng, gmax)
        T = loguni(rng, Tmin, Tmax)*scale**2
        gsq = g1*g1 + g2*g2
        e1, e2 = 2*g1/(1 + gsq), 2*g2/(1 + gsq)
        p = rng.uniform(0.1, 2.0)
        if signs and rng.uniform() < 0.2:
            p = -0.3*p
        c = scale*rng.normal(size=2)*spread
        k = rng.randint(16)
        if k < 4:
            # on an axis, or at the origin
            c = c*[[0, 1], [1, 0], [0, 0], [0, 0]][k]
        elif out and k == 4:
            # concentric with, or of the size of, another
            c = np.array(out[-1][1:3])
        elif out and k == 5:
            T, e1, e2 = out[-1][3] + out[-1][5], 0.0, 0.0
        out.append([p, c[0], c[1], T/2*(1 - e1), T/2*e2, T/2*(1 + e1)])
    return np.array(out)


def full_gmix(rng, **kw):
    import ngmix
    comp = full_gmix_pars(rng, **kw)
    return ngmix.GMix(pars=comp.ravel()), comp


SIMPLE = ['gauss', 'turb', 'exp', 'dev']


def model_gmix(rng, model=None, scale=1.0, flux=None, T=None, gmax=0.7, cen=1.0):
    import ngmix
    model = model or pick(rng, SIMPLE)
    g1, g2 = disk(rng, gmax)
    c = scale*cen*offset(rng)
    pars = [float(c[0]), float(c[1]), g1, g2,
            (loguni(rng, 0.5, 30.0) if T is None else T)*scale**2,
            loguni(rng, 0.1, 1e3) if flux is None else flux]
    return ngmix.GMixModel(pars, model), model, pars


def psf_obs(rng, scale=None, dims=None, jac=None, T=None, gmix=True, noise=1e-4):
    import ngmix
    dims = dims or (rng.randint(11, 22), rng.randint(11, 22))
    if jac is None:
        jac, _ = jacob(rng, dims, scale=scale)
    s = jac.scale
    gm, _, _ = model_gmix(rng, pick(rng, ['gauss', 'turb']), scale=s, flux=1.0,
                          T=T if T is not None else rng.uniform(3, 8), gmax=0.15, cen=0.0)
    im = gm.make_image(dims, jacobian=jac)
    im = im + noise*rng.normal(size=dims)
    return ngmix.Observation(im, weight=np.full(dims, 1/noise**2), jacobian=jac,
                             gmix=gm if gmix else None)


def obs(rng, dims=None, psf=True, wkind=None, gal=True, noise=0.01, jkind=None, scale=None,
        extras=True, meta=True, flux=None, T=None, gmix=False, jac=None, cen=0.5, model=None, gmax=0.5,
        noiseless=False):
    """a realistic observation; returns obs and a dict with what was put in"""
    import ngmix
    dims = dims or (rng.randint(15, 33), rng.randint(15, 33))
    if jac is None:
        jac, jkind = jacob(rng, dims, kind=jkind, scale=scale)
    s = jac.scale
    p = psf_obs(rng, scale=s, jac=jacob(rng, (17, 17), scale=s)[0] if psf == 'own' else None) if psf else None
    gm, model, pars = model_gmix(rng, model, scale=s, gmax=gmax, flux=flux, cen=cen,
                                 T=T if T is not None else rng.uniform(2, 15))
    gmc = gm.convolve(p.gmix) if psf else gm
    im = gmc.make_image(dims, jacobian=jac)
    w, wkind = weight_map(rng, dims, wkind)
    sig = noise*max(abs(im).max(), 1e-10)
    w = w/np.median(w[w > 0])/sig**2
    if not noiseless:
        im = im + sig*rng.normal(size=dims)
    kw = {}
    if extras:
        if rng.uniform() < 0.5:
            kw['bmask'] = rng.randint(0, 4, size=dims).astype('i4')
        if rng.uniform() < 0.5:
            kw['ormask'] = rng.randint(0, 4, size=dims).astype('i4')
        if rng.uniform() < 0.5:
            kw['noise'] = rng.normal(size=dims)*sig
        if rng.uniform() < 0.5:
            kw['mfrac'] = rng.uniform(size=dims)
    if meta:
        kw['meta'] = {'id': int(rng.randint(1000)), 'name': 'x', 'sub': {'a': 1}}
    o = ngmix.Observation(im, weight=w, jacobian=jac, psf=p, gmix=gm if gmix else None, **kw)
    return o, dict(dims=dims, jkind=jkind, wkind=wkind, model=model, pars=pars, gm=gm, sig=sig)


def mbobs(rng, nband=None, nepoch=None, **kw):
    import ngmix
    many = rng.randint(12) == 0
    nband = nband or (rng.randint(4, 7) if many and rng.randint(2) else rng.randint(1, 4))
    mb = ngmix.MultiBandObsList(meta={'mb': 1})
    infos = []
    for b in range(nband):
        ol = ngmix.ObsList(meta={'band': b})
        ne = nepoch or (rng.randint(4, 8) if many and nband < 4 and not rng.randint(2) else rng.randint(1, 4))
        for e in range(ne):
            o, info = obs(rng, **kw)
            o.meta['be'] = (b, e)
            ol.append(o)
            infos.append(info)
        mb.append(ol)
    return mb, infos


def wrap(rng, o):
    """the same observation in one of the containers"""
    import ngmix
    k = rng.randint(3)
    if k == 0:
        return o
    ol = ngmix.ObsList()
    ol.append(o)
    if k == 1:
        return ol
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    return mb
