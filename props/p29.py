"""Lists: aggregation, membership, wrapping, metadata."""
import numpy as np
import galsim
import ngmix
from ngmix.observation import (KObservation, KObsList, KMultiBandObsList, get_mb_obs, get_kmb_obs, make_kobs)
from ngmix.gmix import GMixList, MultiBandGMixList
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P29'
RULE = """random observations (weights with zeros, negatives, all zero), random nesting and regrouping of the same observations with
the sums recomputed from images and weights; op sequences (append, assign at positive/negative index, bad members of every wrong
type, deletions) on the lists against a plain python list; wrapping of every accepted and unaccepted input; metadata histories
against a plain dict; cases differ by number of members, weights and operations"""
REQUIRED = ['sums', 's2n', 'regrouped', 'empty', 'members', 'refused', 'order', 'wrapped', 'wrap refused', 'meta', 'meta refused',
            'kmembers', 'kwrapped', 'gmix list', 'after update', 'kpsf refused', 'kjacobian']


def one(rng, small=True):
    kw = {}
    if small:
        kw['dims'] = gen.dims(rng, 1, 12)
    k = rng.randint(6)
    o, _ = gen.obs(rng, psf=bool(rng.randint(2)), extras=bool(rng.randint(2)), gal=True, **kw)
    if k == 0:
        o.ignore_zero_weight = False
        o.weight = -np.abs(o.weight) if rng.randint(2) else np.zeros(o.image.shape)
    elif k == 1:
        o.store_pixels = False
        o.weight = np.zeros(o.image.shape)
    elif k == 2:
        o.ignore_zero_weight = False
        w = o.weight.copy()
        w[rng.uniform(size=w.shape) < 0.5] *= -1
        o.weight = w
    elif k == 3:
        with o.writeable():
            o.image[:, :] *= gen.pick(rng, [-2.0, 1e6, -1e7, 1e-9])
    elif k == 4:
        o.weight = np.array(o.weight)*10**rng.uniform(-6, 6, size=o.weight.shape)
    return o


def expect(obs):
    I = V = 0.0
    N = 0
    S = 0.0
    for o in obs:
        im, w = np.array(o.image), np.array(o.weight)
        for x, y in zip(im.ravel(), w.ravel()):
            if y > 0:
                I += x
                S += abs(x)
                V += 1/y
                N += 1
    return I, V, N, S


def check(mon, name, c, obs):
    I, V, N, S = expect(obs)
    i, v, n = c.get_s2n_sums()
    mon.close(name, i, I, rtol=0, atol=1e-11*S + 1e-300)
    mon.close(name, v, V, rtol=1e-11)
    mon.true(name, n == N, n, N)
    if V > 0:
        mon.close('s2n', c.get_s2n(), I/np.sqrt(V), rtol=0, atol=1e-11*S/np.sqrt(V) + 1e-300)
    else:
        mon._count('empty')
        mon.true('s2n', c.get_s2n() == -9999.0 and (i, v, n) == (0.0, 0.0, 0))


def group(rng, obs):
    mb = ngmix.MultiBandObsList()
    ol = ngmix.ObsList()
    for o in obs:
        ol.append(o)
        if rng.uniform() < 0.4:
            mb.append(ol)
            ol = ngmix.ObsList()
    mb.append(ol)
    return mb


def sums(mon, rng, idx):
    obs = [one(rng) for _ in range(rng.randint(0, 6) if rng.randint(8) else rng.randint(6, 25))]
    mon.describe(n=len(obs), idx=idx, sums=list(expect(obs)[:3]))
    before = snap.snap(obs)
    for o in obs:
        check(mon, 'sums', o, [o])
    ol = ngmix.ObsList()
    for o in obs:
        ol.append(o)
    check(mon, 'sums', ol, obs)
    mb = ngmix.MultiBandObsList()
    check(mon, 'sums', mb, [])
    mb.append(ol)
    check(mon, 'sums', mb, obs)
    for _ in range(2):
        perm = [obs[i] for i in rng.permutation(len(obs))]
        check(mon, 'regrouped', group(rng, perm), obs)
    if obs:
        # the same observation twice counts twice
        ol.append(obs[0])
        check(mon, 'sums', ol, obs + [obs[0]])
        del ol[-1]
    mon.true('sums', snap.diff_snap(before, snap.snap(obs)) is None, 'observations changed')
    if obs:
        # update of a member shows
        i = rng.randint(len(obs))
        o = obs[i]
        k = rng.randint(3)
        if k == 0:
            o.image = np.asarray(o.image)*3 - 1
        elif k == 1:
            o.store_pixels = False
            o.weight = gen.weight_map(rng, o.image.shape)[0]
        else:
            with o.writeable():
                o.weight[0, 0] = 7.5
                o.image[0, -1] = -100.0
        check(mon, 'after update', ol, obs)
        check(mon, 'after update', mb, obs)


def kobs(rng, psf=None, n=None, dtype=np.complex128, scale=None):
    n = n or rng.randint(3, 9)
    scale = scale or 0.3
    im = galsim.Image(rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n)), scale=scale, dtype=dtype)
    w = None
    if rng.randint(2):
        w = galsim.Image(rng.uniform(size=(n, n)), scale=scale, dtype=float)
    return KObservation(im, weight=w, psf=psf)


def kimage(rng, shape, scale, dtype=np.complex128):
    return galsim.Image(rng.normal(size=shape) + 1j*rng.normal(size=shape), scale=scale, dtype=dtype)


def sneaky(rng):
    class NotObs(object):
        image = np.zeros((3, 3))
        weight = np.ones((3, 3))
        jacobian = ngmix.UnitJacobian(row=1, col=1)
    return NotObs()


def members(mon, rng, idx):
    """every list against a plain python list"""
    o1 = lambda: one(rng)

    def ol1(cls=ngmix.ObsList, m=o1):
        x = cls()
        for _ in range(rng.randint(0, 3)):
            x.append(m())
        return x
    gm1 = lambda: gen.model_gmix(rng)[0] if rng.randint(2) else gen.full_gmix(rng)[0]
    k1 = lambda: kobs(rng)
    makers = dict(
        obs=(ngmix.ObsList, o1), mb=(ngmix.MultiBandObsList, ol1), k=(KObsList, k1), kmb=(KMultiBandObsList, lambda: ol1(KObsList, k1)),
        gm=(GMixList, gm1), mbgm=(MultiBandGMixList, lambda: ol1(GMixList, gm1)))
    kind = sorted(makers)[idx % 6]
    cls, make = makers[kind]
    name = {'k': 'kmembers', 'kmb': 'kmembers', 'gm': 'gmix list', 'mbgm': 'gmix list'}.get(kind, 'members')
    L, model = cls(), []
    ops = []
    for _ in range(rng.randint(3, 12)):
        op = rng.randint(5)
        if op <= 1 or not model:
            m = make()
            L.append(m)
            model.append(m)
            ops.append('a')
        elif op == 2:
            m = make()
            i = rng.randint(-len(model), len(model))
            L[i] = m
            model[i] = m
            ops.append('s%d' % i)
        elif op == 3:
            i = rng.randint(len(model))
            del L[i]
            del model[i]
            ops.append('d')
        else:
            bads = [None, 3, 'x', np.zeros((4, 4)), {}, [], [make()], cls(), sneaky(rng), ngmix.UnitJacobian(row=0, col=0)]
            for kk in sorted(makers):
                if kk != kind:
                    bads.append(makers[kk][1]())
            bad = gen.pick(rng, bads)
            mon.raises('refused', AssertionError, L.append, bad)
            if model:
                mon.raises('refused', AssertionError, L.__setitem__, rng.randint(-len(model), len(model)), bad)
            ops.append('b')
        mon.true(name, len(L) == len(model) and all(a is b for a, b in zip(L, model)), 'members or order', ops)
        mon._count('order')
    if model:
        m = make()
        mon.raises('refused', IndexError, L.__setitem__, len(model), m)
        i = rng.randint(-len(model), len(model))
        mon.true('order', L[i] is model[i])
    mon.describe(kind=kind, ops=' '.join(ops))
    # wrapping
    if kind == 'obs':
        w = get_mb_obs(L)
        mon.true('wrapped', type(w) is ngmix.MultiBandObsList and len(w) == 1 and w[0] is L and
                 all(a is b for a, b in zip(w[0], model)))
        if model:
            w = get_mb_obs(model[0])
            mon.true('wrapped', type(w) is ngmix.MultiBandObsList and len(w) == 1 and type(w[0]) is ngmix.ObsList
                     and len(w[0]) == 1 and w[0][0] is model[0])
    elif kind == 'mb':
        mon.true('wrapped', get_mb_obs(L) is L and all(a is b for a, b in zip(L, model)))
    elif kind == 'k':
        w = get_kmb_obs(L)
        mon.true('kwrapped', type(w) is KMultiBandObsList and len(w) == 1 and w[0] is L)
        if model:
            w = get_kmb_obs(model[0])
            mon.true('kwrapped', type(w) is KMultiBandObsList and type(w[0]) is KObsList and len(w) == len(w[0]) == 1
                     and w[0][0] is model[0])
    elif kind == 'kmb':
        mon.true('kwrapped', get_kmb_obs(L) is L)
    if kind not in ('obs', 'mb'):
        mon.raises('wrap refused', ValueError, get_mb_obs, L)
    if kind not in ('k', 'kmb'):
        mon.raises('wrap refused', ValueError, get_kmb_obs, L)
    for bad in (None, [], [one(rng)], np.zeros((3, 3)), {}, 'x'):
        mon.raises('wrap refused', ValueError, get_mb_obs, bad)
        mon.raises('wrap refused', ValueError, get_kmb_obs, bad)


def metas(mon, rng, idx):
    mk = [lambda m: ngmix.Observation(np.zeros((3, 3)), meta=m), lambda m: ngmix.ObsList(meta=m),
          lambda m: ngmix.MultiBandObsList(meta=m), lambda m: KObsList(meta=m), lambda m: KMultiBandObsList(meta=m),
          lambda m: KObservation(galsim.Image(np.zeros((3, 3), dtype=complex), scale=1.0), meta=m)]
    k = idx % 6
    rd = lambda: {gen.pick(rng, ['a', 'b', 'c', 3, (1, 2)]): gen.pick(rng, [1, 'x', None, {'q': 2}, np.arange(3)])
                  for _ in range(rng.randint(0, 4))}
    start = gen.pick(rng, [None, {}, rd()])
    x = mk[k](None if start is None else dict(start))
    other = mk[k](None)
    model = dict(start or {})
    ops = []

    def ok():
        m = x.meta
        return isinstance(m, dict) and list(m) == list(model) and all(m[q] is model[q] for q in model)
    mon.true('meta', ok(), 'at construction')
    for _ in range(rng.randint(2, 10)):
        op = rng.randint(6)
        ops.append(op)
        d = rd()
        if op == 0:
            x.meta = d
            model = dict(d)
        elif op == 1:
            x.set_meta(d)
            model = dict(d)
        elif op == 2:
            keep = dict(d)
            x.update_meta_data(d)
            model.update(d)
            mon.true('meta', list(d) == list(keep))
        elif op == 3:
            x.meta['direct'] = ops[-1]
            model['direct'] = ops[-1]
        elif op == 4:
            x.meta = None
            model = {}
        else:
            bad = gen.pick(rng, [3, 'x', [('a', 1)], np.zeros(3), (1, 2), True])
            mon.raises('meta refused', TypeError, x.set_meta, bad)
            mon.raises('meta refused', TypeError, x.update_meta_data, bad)
            mon.raises('meta refused', TypeError, setattr, x, 'meta', bad)
            mon.raises('meta refused', TypeError, x.update_meta_data, None)
            mon.raises('meta refused', TypeError, mk[k], bad)
        mon.true('meta', ok(), 'after', ops, x.meta, model)
    # empty metadata of one object is not that of another
    mon.true('meta', other.meta == {})
    mon.describe(k=k, ops=ops)


def kspace(mon, rng, idx):
    n = rng.randint(3, 12)
    scale = gen.loguni(rng, 0.05, 2)
    p = kobs(rng, n=n, scale=scale)
    o = kobs(rng, n=n, scale=scale, psf=p)
    mon.describe(n=n, scale=scale)
    mon.true('kmembers', o.has_psf() and o.psf is p and not p.has_psf())
    # the centre of the k image is at the zero frequency
    j = o.jacobian
    c = n/2 if n % 2 == 0 else (n - 1)/2
    mon.close('kjacobian', [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol], [c, c, scale, 0, 0, scale], rtol=1e-12)
    mon.true('kmembers', o.weight.array.shape == o.kimage.array.shape)
    w0 = KObservation(o.kimage)
    mon.true('kmembers', (w0.weight.array == 1).all() and w0.weight.array.dtype.kind == 'f')
    w0.weight.array[:] = 5
    mon.true('kmembers', np.iscomplexobj(o.kimage.array) and not (o.kimage.array == 5).any())
    mon.raises('kpsf refused', AssertionError, o.set_psf, gen.pick(rng, [3, 'x', p.kimage, one(rng)]))
    mon.raises('kpsf refused', ValueError, o.set_psf, kobs(rng, n=n + 1, scale=scale))
    mon.raises('kpsf refused', AssertionError, o.set_psf, kobs(rng, n=n, scale=1.1*scale))
    o.set_psf(None)
    mon.true('kmembers', not o.has_psf())
    mon.raises('kpsf refused', ValueError, KObservation, o.kimage.array)
    mon.raises('kpsf refused', ValueError, KObservation, galsim.Image(np.zeros((3, 3)), scale=1.0))
    mon.raises('kpsf refused', ValueError, KObservation, o.kimage, weight=galsim.Image(np.zeros((n + 1, n)), scale=scale))
    mon.raises('kpsf refused', AssertionError, KObservation, o.kimage, weight=np.zeros((n, n)))
    # the same number of pixels is not the same shape
    sh = (n, n + 1 + rng.randint(4))
    r = KObservation(kimage(rng, sh, scale))
    j = r.jacobian
    c = [v/2 if v % 2 == 0 else (v - 1)/2 for v in sh]
    mon.close('kjacobian', [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol], c + [scale, 0, 0, scale], rtol=1e-12)
    mon.true('kmembers', r.weight.array.shape == sh and (r.weight.array == 1).all())
    mon.raises('kpsf refused', ValueError, r.set_psf, KObservation(kimage(rng, sh[::-1], scale)))
    mon.raises('kpsf refused', ValueError, KObservation, r.kimage, weight=galsim.Image(np.ones(sh[::-1]), scale=scale))
    mon.raises('kpsf refused', ValueError, KObservation, r.kimage, psf=KObservation(kimage(rng, sh[::-1], scale)))
    mon.raises('kpsf refused', ValueError, KObservation, kimage(rng, sh, scale, dtype=np.complex64))
    a, b = KObservation(kimage(rng, sh, scale)), KObservation(kimage(rng, sh, scale))
    r.set_psf(a)
    mon.true('kmembers', r.psf is a)
    r.set_psf(b)
    mon.true('kmembers', r.psf is b and r.has_psf())
    r.set_psf(None)
    mon.true('kmembers', not r.has_psf())


WORKLOADS = [Workload('sums', sums, 500, 8000), Workload('members', members, 900, 12000), Workload('metas', metas, 900, 12000),
             Workload('kspace', kspace, 200, 3000)]
