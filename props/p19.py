"""Metacal noise compensation: which noise is added, how it is sheared, what happens to the weights."""
import numpy as np
import galsim
import ngmix
from ngmix import metacal as MC
from ngmix.metacal import get_all_metacal
from vlib import gen, snap
from vlib.core import Workload
from props.p18 import Scene, ALL, MIN, own as own_arrays, psf_arg

PROP = 'P19'
RULE = """noisy square stamps with constant, varying and partly zero weights, single, in lists and in bands, every psf kind and set of types;
the difference between compensated and uncompensated images compared with the metacal image of the rotated noise field (the observation's
own or the one recorded from the generator), with the opposite shear for round psfs, and with what other members and types got; cases
differ by weights, containers, types and seeds"""
REQUIRED = ['added field', 'recorded draws', 'own noise', 'opposite shear', 'weight', 'originals', 'same field', 'independent', 'generator',
            'global', 'inputs-kept', 'no generator', 'no noise image', 'variance', 'types', 'structure', 'pixels', 'psf', 'repeat', 'variance ratio']
OPP = {'noshear': 'noshear', '1p': '1m', '1m': '1p', '2p': '2m', '2m': '2p', '1p_psf': '1m_psf', '1m_psf': '1p_psf',
       '2p_psf': '2m_psf', '2m_psf': '2p_psf'}


class Rec(np.random.RandomState):
    """a generator that records the normal draws made from it"""

    def start(self):
        self.log = []
        return self

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = super().normal(loc=loc, scale=scale, size=size)
        if size is not None and np.ndim(r) == 2:
            self.log.append(np.array(r))
        return r

    def standard_normal(self, size=None):
        r = super().standard_normal(size=size)
        if size is not None and np.ndim(r) == 2:
            self.log.append(np.array(r))
        return r

    def randn(self, *size):
        r = super().randn(*size)
        if np.ndim(r) == 2:
            self.log.append(np.array(r))
        return r


def flat(x):
    if isinstance(x, ngmix.Observation):
        return [x]
    if isinstance(x, ngmix.ObsList):
        return list(x)
    return [o for ol in x for o in ol]


def noisy(rng, wkind=None, jkind=None, roundpsf=False, noise=True, wide=False):
    sc = Scene(rng, square=True, wkind=wkind, jkind=jkind, roundpsf=roundpsf, extras=False)
    o = sc.obs
    w = o.weight.copy()
    sig = 0.01*abs(sc.image).max()
    med = np.median(w[w > 0])
    w = w/med/sig**2
    if wide:
        # weights of very different size in one stamp
        k = gen.pick(rng, ['power', 'patch', 'few'])
        if k == 'power':
            w = w*10.0**rng.uniform(-7, 0, size=w.shape)
        elif k == 'patch':
            w[:w.shape[0]//3] *= gen.loguni(rng, 1e-9, 1e-2)
        else:
            w.ravel()[rng.randint(0, w.size, size=20)] *= gen.loguni(rng, 1e-8, 1e8)
    kw = {}
    if noise:
        kw['noise'] = sig*gen.loguni(rng, 0.2, 5)*rng.normal(size=sc.dims)
    if rng.randint(2):
        kw['bmask'] = rng.randint(0, 4, size=sc.dims).astype('i4')
    if rng.randint(2):
        kw['mfrac'] = rng.uniform(size=sc.dims)
    if rng.randint(3) == 0:
        kw['ignore_zero_weight'] = False
    im = sc.image + sig*rng.normal(size=sc.dims)
    sc.obs = ngmix.Observation(im, weight=w, jacobian=sc.jac, psf=sc.po, meta=dict(o.meta), **kw)
    sc.sig = sig
    return sc


def make(rng, kind, **kw):
    if kind == 'obs':
        sc = noisy(rng, **kw)
        return sc.obs, [sc]
    scs = []
    mb = ngmix.MultiBandObsList(meta={'m': 1})
    for b in range(1 if kind == 'list' else int(rng.randint(1, 4))):
        ol = ngmix.ObsList(meta={'b': b})
        for e in range(rng.randint(1, 4) if rng.randint(5) else rng.randint(4, 7)):
            sc = noisy(rng, **kw)
            if scs and rng.randint(3) == 0:
                # an epoch that is the same as the one before
                prev = scs[-1]
                sc = prev
                o = prev.obs.copy()
            else:
                o = sc.obs
            o.meta['be'] = (b, e)
            scs.append(sc)
            ol.append(o)
        mb.append(ol)
    return (mb[0] if kind == 'list' else mb), scs


def plain(o, image, **kw):
    """metacal of another image on the observation's grid, without compensation"""
    q = o.copy()
    q.image = image
    return get_all_metacal(q, fixnoise=False, **kw)


def field_of(o, noise, **kw):
    """what a noise field contributes to each type: rotate, metacal, rotate back"""
    d = plain(o, np.rot90(noise, k=1), **kw)
    return {t: np.rot90(v.image, k=3) for t, v in d.items()}


def compare(mon, name, got, want, detail):
    mon.close(name, got, want, rtol=0, atol=1e-8*abs(want).max(), detail=detail)


def w_formula(mon, rng, idx):
    kind = gen.pick(rng, ['obs', 'obs', 'list', 'mb'])
    own = bool(rng.randint(2))
    obs, scs = make(rng, kind, noise=own or bool(rng.randint(2)), wide=bool(rng.randint(4) == 0))
    first = scs[0]
    psf, arg = psf_arg(rng, first, ('gauss', 'gauss', 'dilate', 'obj', 'fitgauss'))
    full = ALL if psf == 'dilate' else MIN
    types = gen.pick(rng, [None, ['1p', '1m'], ['noshear', '1p'], ['2m'], ['2p', '1m', '2m', '1p', 'noshear']])
    if psf == 'dilate' and types is not None and rng.randint(2):
        types = types + ['1m_psf', '2p_psf']
    step = float(gen.pick(rng, [0.01, 0.03, -0.02]))
    seed = int(rng.randint(2**31))
    mon.describe(kind=kind, own=own, psf=psf, types=types, step=step, seed=seed, w=[s.wkind for s in scs], n=len(scs))
    pk = dict(psf=arg, step=step)

    def tt():
        return None if types is None else list(types)
    r = Rec(seed).start()
    before = snap.snap(obs)
    g0 = np.random.get_state()
    kw = dict(pk)
    if own:
        kw['use_noise_image'] = True
    if rng.randint(2):
        kw['fixnoise'] = True
    needrng = not own or psf == 'fitgauss'
    use = r if needrng or rng.randint(2) else None
    d = mon.returns('types', get_all_metacal, obs, rng=use, types=tt(), **kw)
    g1 = np.random.get_state()
    mon.true('global', g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:], 'the global generator was used')
    mon.same('inputs-kept', snap.snap(obs), before, 'the observation changed')
    members = flat(obs)
    want = set(types or full)
    mon.true('types', want <= set(d), 'types', sorted(d), 'asked for', sorted(want))
    # the recorded fields: image-shaped draws, in the order of the members, psf-shaped ones set aside
    fields = []
    if not own:
        log = list(r.log)
        rep = ngmix.simobs.simulate_obs(None, obs, rng=np.random.RandomState(seed))
        reps = [o.image for o in flat(rep)]
        pos = 0
        for o, f in zip(members, reps):
            wp = o.weight > 0
            found = None
            for k in range(pos, len(log)):
                if log[k].shape == o.image.shape:
                    found = k
                    break
            if found is None:
                fields.append(f)
                continue
            pos = found + 1
            nf = f.copy()
            nf[wp] = log[found][wp]/np.sqrt(o.weight[wp])
            fields.append(nf)
            mon.close('recorded draws', nf[wp], f[wp], rtol=1e-12, detail='noise field of a member')
        for o, f in zip(members, fields):
            wp = o.weight > 0
            z = (f*np.sqrt(abs(o.weight)))[wp]
            mon.true('variance', abs(z.std() - 1) < 7/np.sqrt(2*z.size), 'scatter of the field times root weight', z.std(), z.size)
            mon.true('variance', abs(z.mean()) < 7/np.sqrt(z.size), 'mean of the field', z.mean())
    else:
        fields = [o.noise.copy() for o in members]
    pkr = dict(pk)
    for t in d:
        mon.true('structure', type(d[t]) is type(obs) and len(flat(d[t])) == len(members), 'structure of', t)
    for k, (o, f) in enumerate(zip(members, fields)):
        if psf == 'fitgauss':
            # the kernel depends on the fit; its residual scatter is far below the tolerance used
            pkr['psf'] = flat(d[sorted(d)[0]])[k].psf.galsim_obj.dilate(1/(1 + 2*abs(step)))
        base = plain(o, o.image, types=tt(), **pkr)
        if own:
            add = field_of(o, f, types=tt(), **pkr)
        else:
            add = field_of(o, f, types=tt(), **pkr)
        for t in d:
            v = flat(d[t])[k]
            b = base[t].image
            n = add[t]
            s = abs(n).max()
            if kind != 'obs':
                mon.true('structure', v.meta['be'] == o.meta['be'], 'order')
            tol = 1e-8*max(abs(b).max(), s)
            if psf == 'fitgauss':
                tol = 3e-3*max(abs(b).max(), s)
            mon.close('originals', v.image_orig, b, rtol=0, atol=tol, detail='uncompensated image of %s' % t)
            mon.same('originals', v.weight_orig, o.weight, 'uncompensated weight of %s' % t)
            mon.close('own noise' if own else 'added field', v.image - v.image_orig, n, rtol=0, atol=tol, detail='field added to %s (%s)' % (t, psf))
            ww = o.weight.copy()
            nz = ww != 0
            ww[nz] = 1/(1/ww[nz] + 1/ww[nz])
            mon.close('weight', v.weight, ww, rtol=1e-12, detail='weight of %s' % t)
            px = v.weight > 0 if v.ignore_zero_weight else np.ones(v.image.shape, bool)
            mon.same('pixels', np.asarray(v.pixels['val']), v.image[px], 'pixel values')
            ie = np.zeros(v.image.shape)
            ie[v.weight > 0] = np.sqrt(v.weight[v.weight > 0])
            mon.close('pixels', np.asarray(v.pixels['ierr']), ie[px], rtol=1e-12, detail='pixel errors')
            for nm in ('bmask', 'mfrac', 'noise'):
                mon.true('structure', getattr(v, 'has_' + nm)() == getattr(o, 'has_' + nm)(), nm)
                if getattr(o, 'has_' + nm)():
                    mon.same('structure', getattr(v, nm), getattr(o, nm), nm)
            if use is None:
                mon.same('psf', v.psf.image, base[t].psf.image, 'psf image')
            else:
                mon.close('psf', v.psf.image, base[t].psf.image, rtol=0, atol=2e-4*max(abs(v.psf.image).max(), abs(o.psf.image).max()) if psf != 'fitgauss' else 5e-3*max(abs(v.psf.image).max(), abs(o.psf.image).max()))
            mon.event('compensated images')
    # every type got the same field: deconvolved, the fields differ by the shear only
    if not own:
        for i in range(len(fields)):
            for j in range(i):
                a, b = fields[i], fields[j]
                if a.shape != b.shape:
                    mon._count('independent')
                    continue
                wp = (members[i].weight > 0) & (members[j].weight > 0)
                if wp.sum() < 200:
                    continue
                c = np.corrcoef(a[wp]*np.sqrt(members[i].weight[wp]), b[wp]*np.sqrt(members[j].weight[wp]))[0, 1]
                mon.true('independent', abs(c) < 7/np.sqrt(wp.sum()), 'fields of two members are correlated', c)
                mon.event('pairs of fields')
        # and what was added to two members is not the same either
        for i in range(len(members)):
            for j in range(i):
                t = sorted(d)[0]
                a, b = flat(d[t])[i], flat(d[t])[j]
                x, y = a.image - a.image_orig, b.image - b.image_orig
                if x.shape == y.shape:
                    c = np.corrcoef(x.ravel(), y.ravel())[0, 1]
                    mon.true('independent', abs(c) < 0.9, 'added fields', c)
    if not own:
        d2 = get_all_metacal(obs, rng=np.random.RandomState(seed), types=tt(), **kw)
        for t in d:
            for a, b in zip(flat(d2[t]), flat(d[t])):
                mon.same('generator', a.image, b.image, 'same seed, image %s' % t)
                mon.same('generator', a.psf.image, b.psf.image, 'same seed, psf image %s' % t)
        # a generator that goes on gives another field
        d3 = get_all_metacal(obs, rng=r, types=tt(), **kw)
        t = sorted(d)[0]
        for a, b in zip(flat(d3[t]), flat(d[t])):
            x, y = a.image - a.image_orig, b.image - b.image_orig
            c = np.corrcoef(x.ravel(), y.ravel())[0, 1]
            mon.true('independent', abs(c) < 0.9, 'a second call added the same field', c)
    elif use is None:
        d2 = get_all_metacal(obs, rng=None, types=tt(), **kw)
        for t in d:
            for a, b in zip(flat(d2[t]), flat(d[t])):
                mon.same('repeat', a.image, b.image, 'image %s' % t)
    if rng.randint(2):
        own_arrays(mon, rng, obs, d)
        mon._count('inputs-kept')


def w_opposite(mon, rng, idx):
    """round psf, plain grid: the field added is the unrotated noise sheared the other way"""
    sc = noisy(rng, jkind='diag', roundpsf=True, wkind='const')
    # the same frame for the psf, everything centred
    m = sc.pdims[0]
    sc.po = ngmix.Observation(sc.psf_image[:m, :m] if sc.pdims[1] > m else sc.psf_image, jacobian=sc.pjac) if sc.pdims[0] == sc.pdims[1] else None
    if sc.po is None:
        c = (37 - 1)/2
        pj = ngmix.DiagonalJacobian(row=c, col=c, scale=sc.jac.scale)
        im = sc.full.drawImage(nx=37, ny=37, wcs=pj.get_galsim_wcs(), method='no_pixel', dtype=float).array
        sc.po = ngmix.Observation(im, jacobian=pj)
    o = sc.obs.copy()
    o.set_psf(sc.po)
    psf = gen.pick(rng, ['gauss', 'dilate', 'obj'])
    arg = psf if psf != 'obj' else galsim.Gaussian(fwhm=5.0*sc.sc)
    step = float(gen.pick(rng, [0.01, 0.05]))
    mon.describe(psf=psf, step=step, **sc.desc())
    # noise with power only where the rotation is well resolved
    ns = sc.draw(galsim.Convolve(sc.gal.shift(2*sc.sc, -1*sc.sc) - 0.7*sc.gal.rotate(50*galsim.degrees), sc.full))
    o.noise = ns
    d = get_all_metacal(o, psf=arg, step=step, use_noise_image=True)
    e = plain(o, ns, psf=arg, step=step)
    for t in d:
        n = d[t].image - d[t].image_orig
        w = e[OPP[t]].image
        wrong = e[t].image
        mon.close('opposite shear', n, w, rtol=0, atol=2e-4*abs(w).max(), detail='field of %s' % t)
        if t != 'noshear' and not t.endswith('psf'):
            mon.true('same field', abs(wrong - w).max() > 1e-3*abs(w).max(), 'nothing was sheared')
        mon.event('orientations')


def w_rng(mon, rng, idx):
    """only the generator supplied is used; without one there is an error, not a hidden generator"""
    sc = noisy(rng, noise=bool(idx % 2))
    mon.describe(i=idx, **sc.desc())
    o = sc.obs
    if rng.randint(2):
        ol = ngmix.ObsList()
        ol.append(o)
        o = ol
        if rng.randint(2):
            mb = ngmix.MultiBandObsList()
            mb.append(ol)
            o = mb
    psf = gen.pick(rng, ['gauss', 'dilate'])
    before = snap.snap(o)
    mon.raises('no generator', ValueError, get_all_metacal, o, psf=psf)
    mon.raises('no generator', ValueError, get_all_metacal, o, psf=psf, rng=None, fixnoise=True)
    if not sc.obs.has_noise():
        mon.raises('no noise image', (ValueError, AttributeError, RuntimeError, TypeError, AssertionError), get_all_metacal, o, psf=psf, use_noise_image=True)
    else:
        # the noise image alone decides the field
        a = get_all_metacal(o, psf=psf, use_noise_image=True)
        b = get_all_metacal(o, psf=psf, use_noise_image=True, rng=np.random.RandomState(5))
        for t in a:
            mon.same('own noise', flat(a[t])[0].image, flat(b[t])[0].image, 'the generator changed the field')
    mon.same('inputs-kept', snap.snap(o), before, 'the input changed')


def w_ratio(mon, rng, idx):
    """over many draws: what is added to a type has the scatter of the metacal of white noise with the weight's variance, and mean zero"""
    sc = noisy(rng, wkind=gen.pick(rng, ['const', 'vary']), noise=False)
    o = sc.obs
    n = 24
    r = np.random.RandomState(rng.randint(2**31))
    q = np.random.RandomState(rng.randint(2**31))
    t = gen.pick(rng, ['1p', '1m', '2p', '2m'])
    mon.describe(t=t, **sc.desc())
    a, b = [], []
    for k in range(n):
        d = get_all_metacal(o, rng=r, types=[t])[t]
        a.append(d.image - d.image_orig)
        f = q.normal(size=o.image.shape)/np.sqrt(o.weight)
        b.append(field_of(o, f, types=[t])[t])
    a, b = np.array(a), np.array(b)
    va, vb = (a**2).mean(), (b**2).mean()
    # correlated pixels: about a tenth of them are independent
    neff = n*a[0].size/60.0
    mon.true('variance ratio', abs(va/vb - 1) < 8*np.sqrt(4/neff), 'scatter of what is added', va/vb, neff)
    s = a.sum(axis=(1, 2))
    z = s.mean()/s.std()*np.sqrt(n)
    mon.true('variance ratio', abs(z) < 9, 'mean of what is added', z)


WORKLOADS = [
    Workload('formula', w_formula, quick=160, thorough=3000),
    Workload('opposite', w_opposite, quick=60, thorough=600),
    Workload('rng', w_rng, quick=40, thorough=300),
    Workload('ratio', w_ratio, quick=16, thorough=120),
]
