"""Simulated observations: image, noise, weight, structure, generator."""
import copy
import numpy as np
import scipy.stats
import ngmix
from ngmix.simobs import simulate_obs, get_noise_image, BIGNOISE
from vlib import gen, ref, snap
from vlib.core import Workload

PROP = 'P25'
RULE = """random observations, epoch lists and multi-band lists (any jacobian, shape, weight map with zero, negative and masked
pixels, raw weights, psf stored or not) with random mixtures or none, every combination of the noise options; exact comparison with
an independent rendering and with the noise replayed from a twin generator, plus pooled normality and independence tests of the
normalised noise; cases differ by container, weight map, options and mixture"""
REQUIRED = ['image', 'noise', 'recorded', 'weight', 'structure', 'jacobian', 'psf', 'generator', 'inputs-kept', 'fresh',
            'refused', 'zero-weight', 'all-zero', 'distribution', 'independent', 'no-noise', 'gmix none', 'raw weight',
            'noise factor', 'no convolution', 'Observation', 'ObsList', 'MultiBandObsList', 'again']


def flat(o):
    if isinstance(o, ngmix.Observation):
        return [o]
    if isinstance(o, ngmix.ObsList):
        return list(o)
    return [x for ol in o for x in ol]


def structure(o):
    if isinstance(o, ngmix.Observation):
        return 'o'
    return [type(o).__name__] + [structure(x) for x in o]


def make(rng, psf):
    def one():
        kw = dict(psf=psf, meta=True)
        if rng.randint(3) == 0:
            kw['dims'] = gen.dims(rng, 1, 20)
        elif rng.randint(6) == 0:
            kw['dims'] = gen.dims(rng, 50, 90)
        o, _ = gen.obs(rng, **kw)
        if o.has_psf() and rng.randint(4) == 0:
            # psfs of many gaussians, not normalised
            o.psf.set_gmix(gen.full_gmix(rng, n=int(rng.randint(4, 9)))[0])
        k = rng.randint(8)
        if k == 0:
            o.weight_raw = np.zeros(o.image.shape)
        elif k == 1 and o.image.size > 4:
            w = o.weight.copy()
            w[rng.uniform(size=w.shape) < 0.3] = -1.0
            if not (w > 0).any():
                w.flat[0] = 1.0
            o.weight = w
        if k and rng.randint(4) == 0:
            o.weight_raw = gen.weight_map(rng, o.image.shape)[0]
        if rng.randint(5) == 0:
            o.store_pixels = False
        if rng.randint(5) == 0:
            o.ignore_zero_weight = False
        return o
    k = rng.randint(4)
    if k < 2:
        return one(), 'Observation'
    if k == 2:
        ol = ngmix.ObsList(meta={'a': 1})
        for i in range(rng.randint(0, 5) if rng.randint(3) else rng.randint(5, 9)):
            ol.append(one())
        related(rng, ol)
        return ol, 'ObsList'
    mb = ngmix.MultiBandObsList(meta={'b': 1})
    for b in range(rng.randint(1, 4) if rng.randint(3) else rng.randint(4, 7)):
        ol = ngmix.ObsList()
        for i in range(rng.randint(0, 4)):
            ol.append(one())
        related(rng, ol)
        mb.append(ol)
    if rng.randint(6) == 0:
        mb.append(mb[0])
    return mb, 'MultiBandObsList'


def related(rng, ol):
    """epochs that have something in common, or are the same object twice"""
    k = rng.randint(6)
    if len(ol) == 0 or k > 2:
        return
    if k == 0:
        ol.append(ol[rng.randint(len(ol))])
    elif k == 1:
        ol.append(ol[-1].copy())
        if ol[-1].has_psf():
            ol[-1].psf.set_gmix(gen.full_gmix(rng, n=2)[0])
    elif ol[0].has_psf():
        # the size and flux of the psf are the same everywhere, the shape is not
        for o in ol:
            g1, g2 = gen.disk(rng, 0.3)
            o.psf.set_gmix(ngmix.GMixModel([0, 0, g1, g2, 4.0, 1.0], 'gauss'))


def rand_gm(rng):
    if rng.randint(2):
        return gen.model_gmix(rng, T=gen.loguni(rng, 0.5, 20), gmax=0.8)[0]
    return gen.full_gmix(rng)[0]


def expect_err(w, add_all, nf):
    err = np.zeros(w.shape)
    pos = w > 0
    if not pos.any():
        return np.full(w.shape, BIGNOISE)
    err[pos] = 1/np.sqrt(w[pos])
    if add_all:
        err[~pos] = np.median(err[pos])
    return err*(1 if nf is None else nf)


def sim(mon, rng, idx):
    psf = bool(rng.randint(4))
    o, kind = make(rng, psf)
    mon.event(kind)
    gm = one_sim(mon, rng, o, kind, psf)
    if rng.randint(3) == 0:
        mon.event('again')
        one_sim(mon, rng, o, kind, psf, gm if rng.randint(2) else None)


def one_sim(mon, rng, o, kind, psf, gm0=None):
    none = rng.randint(6) == 0
    if kind == 'MultiBandObsList':
        gm = None if none else [rand_gm(rng) for _ in o]
        if gm and rng.randint(3) == 0:
            gm = [gm[0]]*len(gm)
    else:
        gm = None if none else rand_gm(rng)
    if gm0 is not None:
        gm = gm0
        none = False
    kw = {}
    conv = psf and rng.randint(3) > 0
    if not conv or rng.randint(2):
        kw['convolve_psf'] = conv
    add_noise = rng.randint(5) > 0
    if not add_noise or rng.randint(2):
        kw['add_noise'] = bool(add_noise)
    add_all = True
    if rng.randint(2):
        kw['add_all'] = add_all = bool(rng.randint(2))
    raw = True
    if rng.randint(2):
        kw['use_raw_weight'] = raw = bool(rng.randint(2))
    nf = None
    if rng.randint(3) == 0:
        kw['noise_factor'] = nf = gen.loguni(rng, 0.1, 10)
    seed = rng.randint(2**31)
    r, twin = np.random.RandomState(seed), np.random.RandomState(seed)
    if add_noise or rng.randint(2):
        kw['rng'] = r
    mon.describe(kind=kind, psf=psf, n=len(flat(o)), nogm=none, **{k: v for k, v in kw.items() if k != 'rng'})
    before = snap.snap([o, gm])
    raws = [copy.deepcopy(getattr(x, 'weight_raw', None)) for x in flat(o)]
    gstate = snap.snap(np.random.get_state())
    new = mon.returns('image', simulate_obs, gm, o, **kw)
    d = snap.diff_snap(before, snap.snap([o, gm]))
    mon.true('inputs-kept', d is None, d)
    mon.true('inputs-kept', all((a is None and getattr(x, 'weight_raw', None) is None) or np.array_equal(a, x.weight_raw)
                                for a, x in zip(raws, flat(o))))
    mon.true('generator', snap.snap(np.random.get_state()) == gstate, 'the global generator was used')
    mon.true('structure', structure(new) == structure(o) and type(new) is type(o), structure(new), structure(o))
    gms = []
    if kind == 'MultiBandObsList':
        for g, ol in zip(gm or [None]*len(o), o):
            gms += [g]*len(ol)
    else:
        gms = [gm]*len(flat(o))
    for n, src, g in zip(flat(new), flat(o), gms):
        if g is None:
            im = np.zeros(src.image.shape)
            mon.event('gmix none')
        else:
            comp = ref.gmix_components(g)
            if conv:
                comp = ref.convolve(comp, ref.gmix_components(src.psf.gmix))
            else:
                mon.event('no convolution')
            im = ref.render(comp, src.image.shape, ref.Jac.of(src.jacobian))
        sc = max(abs(im).max(), 1e-300)
        # independent rendering is exact, the code's fast exponential is not
        if add_noise:
            draw = twin.normal(loc=0.0, scale=1.0, size=src.image.shape)
            w = src.weight
            if raw and getattr(src, 'weight_raw', None) is not None:
                w = src.weight_raw
                mon.event('raw weight')
            err = expect_err(np.asarray(w), add_all, nf)
            want = draw*err
            mon.true('recorded', isinstance(n.noise_image, np.ndarray))
            if not (np.asarray(w) > 0).any():
                mon._count('all-zero')
            mon.close('noise', n.noise_image, want, rtol=1e-10)
            mon.close('zero-weight', n.noise_image[np.asarray(w) <= 0], want[np.asarray(w) <= 0], rtol=1e-10)
            mon.close('recorded', n.image - n.noise_image, im, rtol=1e-5,
                      atol=2e-5*sc + 1e-14*abs(n.noise_image).max())
            if nf is not None:
                mon.event('noise factor')
        else:
            mon.true('no-noise', n.noise_image is None)
            mon.close('no-noise', n.image, im, rtol=1e-5, atol=2e-5*sc)
        # the exact image is the code's own rendering (P08 compares that with the reference)
        if g is not None:
            gg = g.convolve(src.psf.gmix) if conv else g
            own = gg.make_image(src.image.shape, jacobian=src.jacobian)
            mon.close('image', n.image, own + (n.noise_image if add_noise else 0), rtol=1e-12, atol=1e-13*sc)
        else:
            mon.close('image', n.image, n.noise_image if add_noise else im, rtol=0)
        mon.close('weight', n.weight, src.weight*(1 if nf is None else 1/nf**2), rtol=1e-12)
        mon.true('jacobian', snap.snap(n.jacobian) == snap.snap(src.jacobian))
        mon.true('psf', n.has_psf() == src.has_psf())
        if n.has_psf():
            mon.true('psf', snap.diff_snap(snap.snap(n.psf), snap.snap(src.psf)) is None, 'psf differs')
            mon.true('fresh', n.psf is not src.psf and not np.may_share_memory(n.psf.image, src.psf.image))
        mon.true('fresh', n is not src and sum(x is n for x in flat(new)) == 1, 'the observation is one of the others')
        mon.true('fresh', not np.may_share_memory(n.image, src.image) and not np.may_share_memory(n.weight, src.weight))
    if 'rng' in kw:
        a, b = r.get_state(), twin.get_state()
        mon.true('generator', np.array_equal(a[1], b[1]) and a[2:] == b[2:],
                 'more or less was drawn than one normal per pixel')
    if flat(new) and rng.randint(2):
        independent(mon, rng, o, gm, new, before)
    return gm


def independent(mon, rng, o, gm, new, before):
    """writing in one simulated observation changes nothing else"""
    lst = flat(new)
    x = lst[rng.randint(len(lst))]
    rest = [snap.snap(n) for n in lst if n is not x]
    noise = copy.deepcopy(x.noise_image)
    with x.writeable():
        x.image[:] = 7.0
        x.weight[:] = 3.0
        x.jacobian.set_cen(row=11.0, col=13.0)
        x.meta['new'] = 1
        if x.has_psf():
            with x.psf.writeable():
                x.psf.image[:] = 2.0
                x.psf.jacobian.set_cen(row=1.0, col=2.0)
                if x.psf.has_gmix():
                    x.psf.gmix.set_flux(3.0)
            x.psf.meta['new'] = 1
    mon.same('fresh', x.noise_image, noise, 'the noise recorded, after the image was written')
    d = snap.diff_snap(before, snap.snap([o, gm]))
    mon.true('fresh', d is None, 'written in the simulated observation, changed in the input: %s' % d)
    d = snap.diff_snap(rest, [snap.snap(n) for n in lst if n is not x])
    mon.true('fresh', d is None, 'written in one simulated observation, changed in another: %s' % d)


def normalised(mon, rng, idx):
    """pooled tests of the normalised noise, and independence between epochs and bands"""
    seed = rng.randint(2**31)
    r = np.random.RandomState(seed)
    mb = ngmix.MultiBandObsList()
    for b in range(2):
        ol = ngmix.ObsList()
        for e in range(3):
            ol.append(gen.obs(rng, dims=(24, 24), wkind=gen.pick(rng, ['const', 'vary', 'zeros']))[0])
        mb.append(ol)
    nf = gen.pick(rng, [None, 3.0])
    mon.describe(seed=seed, nf=nf)
    gms = [rand_gm(rng) for _ in mb]
    clean = simulate_obs(gms, mb, add_noise=False)
    noisy = simulate_obs(gms, mb, rng=r, noise_factor=nf)
    fields, allz = [], []
    for c, n, s in zip(flat(clean), flat(noisy), flat(mb)):
        d = n.image - c.image
        w = s.weight > 0
        z = d[w]*np.sqrt(s.weight[w])/(nf or 1)
        allz.append(z)
        f = d.copy()
        f[~w] = 0
        f[w] = z
        fields.append(f)
    z = np.concatenate(allz)
    N = z.size
    mon.true('distribution', abs(z.mean()) < 7/np.sqrt(N), z.mean())
    mon.true('distribution', abs(z.std() - 1) < 7/np.sqrt(2*N), z.std())
    mon.true('distribution', scipy.stats.kstest(z, 'norm').pvalue > 1e-11)
    for i in range(len(fields)):
        for j in range(i):
            n = ((fields[i] != 0) & (fields[j] != 0)).sum()
            c = (fields[i]*fields[j]).sum()/np.sqrt(max(n, 1))
            mon.true('independent', abs(c) < 8, 'epochs share noise', c)
        for sh in ((0, 1), (1, 0)):
            c = (fields[i]*np.roll(fields[i], sh, (0, 1))).sum()/np.sqrt(fields[i].size)
            mon.true('independent', abs(c) < 8, 'pixels share noise', c)


def refused(mon, rng, idx):
    psf = bool(rng.randint(2))
    o, kind = make(rng, psf)
    n = len(flat(o))
    k = rng.randint(7)
    mon.describe(kind=kind, k=k, psf=psf)
    gm = [rand_gm(rng) for _ in o] if kind == 'MultiBandObsList' else rand_gm(rng)
    r = np.random.RandomState(1)
    before = snap.snap([o, gm])
    if k == 0:
        if n:
            mon.raises('refused', ValueError, simulate_obs, gm, o, convolve_psf=False)  # noise but no generator
    elif k == 1:
        for bad in (None, 3, [o], np.zeros((3, 3)), 'obs', {}):
            mon.raises('refused', ValueError, simulate_obs, rand_gm(rng), bad, rng=r)
    elif k == 2:
        for bad in ([1.0], 'exp', np.ones(6), o):
            if kind == 'MultiBandObsList' and isinstance(bad, list):
                continue
            mon.raises('refused', ValueError, simulate_obs, bad, o, rng=r)
    elif k == 3 and kind == 'MultiBandObsList':
        mon.raises('refused', ValueError, simulate_obs, rand_gm(rng), o, rng=r)
        mon.raises('refused', ValueError, simulate_obs, gm + [rand_gm(rng)], o, rng=r)
        if len(gm) > 1:
            mon.raises('refused', ValueError, simulate_obs, gm[:-1], o, rng=r)
        mon.raises('refused', ValueError, simulate_obs, [3.0]*len(o), o, rng=r)
    elif k == 4 and not psf and n:
        mon.raises('refused', RuntimeError, simulate_obs, gm, o, rng=r)
    elif k == 5 and psf and n:
        for x in flat(o):
            x.psf.set_gmix(None) if rng.randint(2) else x.psf.__dict__.pop('_gmix', None)
        if not any(x.psf.has_gmix() for x in flat(o)):
            mon.raises('refused', RuntimeError, simulate_obs, gm, o, rng=r)
        return
    else:
        w = gen.weight_map(rng, gen.dims(rng))[0]
        mon.raises('refused', ValueError, get_noise_image, w, None)
        s = rng.randint(2**31)
        a = get_noise_image(w, np.random.RandomState(s))
        mon.close('noise', a, np.random.RandomState(s).normal(size=w.shape)*expect_err(w, True, None), rtol=1e-10)
    mon.true('inputs-kept', snap.diff_snap(before, snap.snap([o, gm])) is None, 'inputs changed by a refused call')


WORKLOADS = [Workload('sim', sim, 1500, 20000), Workload('normalised', normalised, 60, 800),
             Workload('refused', refused, 300, 3000)]
