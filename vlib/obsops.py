"""A shadow model of an observation and random operations on both."""
import numpy as np
import ngmix
from ngmix.gexceptions import GMixFatalError
from . import gen, ref, snap

MASKS = ('bmask', 'ormask', 'noise', 'mfrac')


class Boom(Exception):
    pass


def varied(rng, a):
    """the same values as another kind of array"""
    k = rng.randint(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.astype('>f8')
    if k == 2:
        big = np.zeros((a.shape[0]*2, a.shape[1]*2))
        big[::2, ::2] = a
        return big[::2, ::2]
    if k == 3:
        return a.tolist()
    if k == 4 and np.array_equal(a, a.astype('f4')):
        return a.astype('f4')
    return a.copy()


def shape(rng):
    k = rng.randint(60)
    if k == 0:
        return gen.dims(rng, 40, 110)
    if k == 1:
        return gen.pick(rng, [(1, 300), (300, 1), (2, 2100), (64, 64), (3, 129)])
    return gen.dims(rng, 1, 9)


def values(rng, dims):
    a = rng.normal(size=dims)
    k = rng.randint(8)
    if k == 0:
        a *= gen.loguni(rng, 1e-12, 1e12)
    elif k == 1:
        a *= 10**rng.uniform(-6, 6, size=dims)
    elif k == 2:
        a = np.full(dims, gen.pick(rng, [0.0, 1.0, -3.0]))
    return a


def weights(rng, dims):
    w, _ = gen.weight_map(rng, dims)
    k = rng.randint(8)
    if k == 0:
        w = w*gen.loguni(rng, 1e-15, 1e12)
    elif k == 1:
        w = w*10**rng.uniform(-9, 9, size=dims)
    elif k == 2 and rng.randint(4) == 0:
        w = w*gen.pick(rng, [1e-250, 1e200])
    return w


def jac(rng, dims):
    return gen.jac_pars(rng, dims, scale=gen.loguni(rng, 1e-4, 100) if rng.randint(6) == 0 else None)[0]


def ngauss(rng):
    return rng.randint(1, 4) if rng.randint(4) else rng.randint(4, 13)


class Shadow(object):
    """what the observation should hold"""

    def __init__(self, rng, dims=None, minimal=False):
        self.dims = dims or shape(rng)
        self.image = values(rng, self.dims)
        self.weight = weights(rng, self.dims)
        self.jacp = jac(rng, self.dims)
        self.masks = {m: None for m in MASKS}
        self.gmix = None
        self.psf = None      # a Shadow
        self.meta = {}
        self.store = True
        self.izw = True
        if not minimal:
            for m in MASKS:
                if rng.uniform() < 0.6:
                    self.masks[m] = self.mask(rng, m)
            if rng.uniform() < 0.6:
                self.gmix = gen.full_gmix_pars(rng, n=ngauss(rng))
            if rng.uniform() < 0.6:
                self.psf = Shadow(rng, minimal=rng.uniform() < 0.5)
                if rng.uniform() < 0.7:
                    self.psf.psf = None
            self.meta = {'a': int(rng.randint(100)), 'l': [1, 2, {'x': 3}], 's': 'str'}
            self.store = rng.uniform() < 0.85
            self.izw = rng.uniform() < 0.7

    def mask(self, rng, m):
        if rng.randint(8) == 0:
            return np.full(self.dims, rng.randint(2), dtype='i4' if m in ('bmask', 'ormask') else 'f8')
        if m in ('bmask', 'ormask'):
            return rng.randint(0, 100, size=self.dims).astype(gen.pick(rng, ['i4', 'i8', 'u4']))
        return rng.uniform(size=self.dims).astype(gen.pick(rng, ['f8', 'f4']))

    def build(self, rng):
        kw = {}
        if self.gmix is not None:
            kw['gmix'] = ngmix.GMix(pars=self.gmix.ravel())
        if self.psf is not None:
            kw['psf'] = self.psf.build(rng)
        for m in MASKS:
            if self.masks[m] is not None:
                kw[m] = self.masks[m].copy()
        import copy
        return ngmix.Observation(varied(rng, self.image), weight=varied(rng, self.weight),
                                 jacobian=gen.make_jac(self.jacp), meta=copy.deepcopy(self.meta),
                                 store_pixels=self.store, ignore_zero_weight=self.izw, **kw)

    def usable(self):
        return bool((self.weight > 0).any()) or not (self.store and self.izw)

    def check(self, mon, obs, tag='', readonly=True):
        tag = str(tag)
        mon.same('arrays', obs.image, self.image, tag + ' image')
        mon.same('arrays', obs.weight, self.weight, tag + ' weight')
        for m in MASKS:
            has = getattr(obs, 'has_' + m)()
            mon.true('arrays', has == (self.masks[m] is not None), 'has', m, has, tag)
            if has:
                mon.same('arrays', getattr(obs, m), self.masks[m], tag + ' ' + m)
        j = obs.jacobian
        mon.close('arrays', [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol], self.jacp, rtol=0,
                  detail=tag + ' jacobian')
        mon.true('arrays', obs.has_gmix() == (self.gmix is not None), 'has gmix', tag)
        if self.gmix is not None:
            mon.same('arrays', ref.gmix_components(obs.gmix), self.gmix, tag + ' gmix')
            mon.same('arrays', ref.gmix_components(obs.get_gmix()), self.gmix, tag + ' gmix')
        mon.true('arrays', obs.has_psf() == (self.psf is not None), 'has psf', tag)
        mon.true('arrays', obs.has_psf_gmix() == (self.psf is not None and self.psf.gmix is not None), 'psf gmix', tag)
        if self.psf is not None:
            self.psf.check(mon, obs.psf, tag + ' psf', readonly)
            mon.true('arrays', obs.get_psf() is obs.psf)
            if self.psf.gmix is not None:
                mon.same('arrays', ref.gmix_components(obs.get_psf_gmix()), self.psf.gmix, tag + ' psf gmix')
        mon.true('arrays', obs.meta == self.meta, 'meta', obs.meta, self.meta, tag)
        mon.true('arrays', bool(obs.store_pixels) == self.store and bool(obs.ignore_zero_weight) == self.izw, tag)
        self.check_pixels(mon, obs, tag)
        if readonly:
            self.check_readonly(mon, obs, tag)

    def check_pixels(self, mon, obs, tag=''):
        pix = obs.pixels
        if not self.store:
            mon.true('pixels', pix is None, 'pixels kept though not wanted', tag)
            return
        mon.true('pixels', pix is not None, 'no pixels', tag)
        rj = ref.Jac(*self.jacp)
        v, u = rj.grid(self.dims)
        w = self.weight
        use = (w > 0) if self.izw else np.ones(w.shape, dtype=bool)
        mon.true('pixels', pix.size == use.sum(), 'count', pix.size, int(use.sum()), tag)
        sc = abs(rj.m).max()*(max(self.dims) + abs(self.jacp[0]) + abs(self.jacp[1]))
        mon.close('pixels', pix['v'], v[use], rtol=1e-11, scale=sc, detail=tag + ' v')
        mon.close('pixels', pix['u'], u[use], rtol=1e-11, scale=sc, detail=tag + ' u')
        mon.close('pixels', pix['area'], np.full(pix.size, rj.area), rtol=1e-10,
                  scale=abs(rj.m[0, 0]*rj.m[1, 1]) + abs(rj.m[0, 1]*rj.m[1, 0]), detail=tag + ' area')
        mon.same('pixels', np.ascontiguousarray(pix['val']), self.image[use], tag + ' val')
        ww = w[use]
        ok = ~np.isnan(ww)
        mon.close('pixels', pix['ierr'][ok], np.sqrt(np.clip(ww, 0, None))[ok], rtol=1e-14, detail=tag + ' ierr')

    def check_readonly(self, mon, obs, tag=''):
        names = ['image', 'weight'] + [m for m in MASKS if self.masks[m] is not None]
        for n in names:
            a = getattr(obs, n)
            mon.true('read-only', not a.flags.writeable, n, 'is writeable', tag)
            try:
                a[0, 0] = 77
            except ValueError:
                pass
            else:
                mon.fail('read-only', 'wrote in %s outside a write context %s' % (n, tag))
        if obs.pixels is not None:
            mon.true('read-only', not obs.pixels.flags.writeable, 'pixels are writeable', tag)
        try:
            obs.jacobian.set_cen(row=3.0, col=4.0)
        except ValueError:
            pass
        j = obs.jacobian
        mon.close('read-only', [j.row0, j.col0], self.jacp[:2], rtol=0, detail='jacobian changed through a getter')
        if self.gmix is not None:
            g = obs.gmix
            g.set_flux(11.0)
            g.set_cen(5.0, 5.0)
            obs.get_gmix().get_data()['p'] = 0.0
            mon.same('read-only', ref.gmix_components(obs.gmix), self.gmix, 'mixture changed through a getter')


def related(rng, a):
    """a map that shares a lot with the old one: same sum, same values, same shape or nearly the same numbers"""
    k = rng.randint(8)
    if k == 0:
        return a[::-1].copy()
    if k == 1:
        return a[:, ::-1].copy()
    if k == 2:
        return a.ravel()[rng.permutation(a.size)].reshape(a.shape).copy()
    if k == 3:
        return a*gen.pick(rng, [2.0, 0.5, 1 + 1e-6])
    b = a.copy()
    if k == 4:      # one pixel only
        b[rng.randint(a.shape[0]), rng.randint(a.shape[1])] *= gen.pick(rng, [3.0, 1 + 1e-9, 0.0])
    elif k == 5:    # two pixels exchanged
        i, j = rng.randint(a.size), rng.randint(a.size)
        b.flat[i], b.flat[j] = a.flat[j], a.flat[i]
    elif k == 6:
        b[-1, -1] = abs(b[-1, -1])*2 + 1e-3
    else:
        b[...] = np.nextafter(a, np.inf)
    return b


def related_jac(rng, p):
    """a jacobian that shares the centre, the area or some of the derivatives with the old one"""
    row, col, a, b, c, d = [float(x) for x in p]
    k = rng.randint(10)
    if k == 0:
        return (row, col, -a, -b, -c, -d)
    if k == 1:
        return (row, col, a, b, -c, -d)
    if k == 2:
        return (row, col, c, d, a, b)
    if k == 3:
        return (row, col, b, a, d, c)
    if k == 4:
        t = rng.uniform(0, 2*np.pi)
        co, si = np.cos(t), np.sin(t)
        return (row, col, co*a - si*c, co*b - si*d, si*a + co*c, si*b + co*d)
    if k == 5:
        return (col, row, a, b, c, d)
    if k == 6:
        return (row + rng.normal()*gen.pick(rng, [1e-6, 1e-2, 1]), col, a, b, c, d)
    if k == 7:
        return (row, col + rng.normal()*gen.pick(rng, [1e-6, 1e-2, 1]), a, b, c, d)
    if k == 8:
        f = 1 + gen.pick(rng, [1e-6, 1e-3, 1])
        return (row, col, f*a, f*b, c/f, d/f)
    f = gen.pick(rng, [1 + 1e-6, 2.0])
    return (row, col, f*a, f*b, f*c, f*d)


OPS = ['image', 'weight', 'weight', 'jac', 'mask', 'mask', 'gmix', 'psf', 'meta', 'store', 'izw', 'write', 'write',
       'write-boom', 'bad', 'bad', 'nopix', 'weight-none', 'jac-none', 'allzero', 'samevalue']


def step(mon, rng, obs, sh, ops=OPS):
    """apply one operation to the observation and its shadow; returns its name"""
    op = gen.pick(rng, ops)
    d = sh.dims
    if op == 'image':
        a = values(rng, d) if rng.uniform() < 0.6 else related(rng, sh.image)
        if rng.uniform() < 0.5:
            obs.image = varied(rng, a)
        else:
            obs.set_image(varied(rng, a))
        sh.image = a
    elif op == 'weight':
        w = weights(rng, d)
        if rng.uniform() < 0.4:
            w = related(rng, sh.weight)
        if rng.uniform() < 0.15 and sh.izw:
            w = w.copy()
            w[rng.randint(d[0]), rng.randint(d[1])] = gen.pick(rng, [np.nan, -1.0])
        if not (w > 0).any():
            return 'skip'
        if rng.uniform() < 0.5:
            obs.weight = varied(rng, w)
        else:
            obs.set_weight(varied(rng, w))
        sh.weight = w
    elif op == 'jac':
        p = jac(rng, d)
        if rng.uniform() < 0.6:
            p = related_jac(rng, sh.jacp)
        j = gen.make_jac(p)
        if rng.uniform() < 0.5:
            obs.jacobian = j
        else:
            obs.set_jacobian(j)
        j.set_cen(row=-100.0, col=100.0)   # it is ours, not the observation's
        sh.jacp = p
    elif op == 'mask':
        m = gen.pick(rng, MASKS)
        a = None if rng.uniform() < 0.3 else sh.mask(rng, m)
        if a is not None and sh.masks[m] is not None and rng.uniform() < 0.3:
            a = sh.masks[m][::-1, ::-1].copy()
        if rng.uniform() < 0.5:
            setattr(obs, m, a)
        else:
            getattr(obs, 'set_' + m)(a)
        sh.masks[m] = None if a is None else a.copy()
        op = m
    elif op == 'gmix':
        c = None if rng.uniform() < 0.3 else gen.full_gmix_pars(rng, n=ngauss(rng))
        g = None if c is None else ngmix.GMix(pars=c.ravel())
        if rng.uniform() < 0.5:
            obs.gmix = g
        else:
            obs.set_gmix(g)
        if g is not None:
            g.set_flux(1234.0)   # ours
        sh.gmix = c
    elif op == 'psf':
        if rng.uniform() < 0.3:
            sh.psf = None
            obs.set_psf(None)
        else:
            sh.psf = Shadow(rng, minimal=True)
            p = sh.psf.build(rng)
            if rng.uniform() < 0.5:
                obs.psf = p
            else:
                obs.set_psf(p)
    elif op == 'meta':
        k = rng.randint(3)
        if k == 0:
            m = {'k': int(rng.randint(1000)), 'n': {'m': [1]}}
            obs.meta = dict(m)
            sh.meta = m
        elif k == 1:
            m = {'u%d' % rng.randint(3): int(rng.randint(1000))}
            obs.update_meta_data(m)
            sh.meta = dict(sh.meta)
            sh.meta.update(m)
        else:
            obs.set_meta(None)
            sh.meta = {}
    elif op == 'store':
        v = bool(rng.randint(2))
        if v and sh.izw and not (sh.weight > 0).any():
            return 'skip'
        obs.store_pixels = v
        sh.store = v
    elif op == 'izw':
        v = bool(rng.randint(2))
        if v and sh.store and not (sh.weight > 0).any():
            return 'skip'
        if not v and np.isnan(sh.weight).any():
            return 'skip'
        obs.ignore_zero_weight = v
        sh.izw = v
    elif op in ('write', 'write-boom'):
        img = sh.image.copy()
        w = sh.weight.copy()
        i, j = rng.randint(d[0]), rng.randint(d[1])
        img[i, j] += 5
        w[i] = abs(w[i])*gen.pick(rng, [0.0, 2.0])
        if not (w > 0).any():
            w[i, j] = 3.0
        moved = rng.uniform() < 0.3
        m = gen.pick(rng, MASKS)
        try:
            with obs.writeable() as o:
                assert o is obs
                obs.image[:, :] = img
                obs.weight[:, :] = w
                if sh.masks[m] is not None:
                    obs.__getattribute__(m)[i, j] = 1
                    sh.masks[m] = sh.masks[m].copy()
                    sh.masks[m][i, j] = 1
                if moved:
                    obs.jacobian.set_cen(row=2.5, col=-1.5)
                    sh.jacp = (2.5, -1.5) + tuple(sh.jacp[2:])
                if op == 'write-boom':
                    raise Boom()
        except Boom:
            pass
        sh.image, sh.weight = img, w
    elif op == 'nopix':
        # several parts replaced with one update of the pixels at the end
        sh.image = values(rng, d)
        sh.weight = weights(rng, d)
        sh.jacp = jac(rng, d)
        todo = [lambda: obs.set_image(sh.image.copy(), update_pixels=False),
                lambda: obs.set_weight(sh.weight.copy(), update_pixels=False),
                lambda: obs.set_jacobian(gen.make_jac(sh.jacp), update_pixels=False)]
        for k in rng.permutation(3):
            todo[k]()
        obs.update_pixels()
    elif op == 'weight-none':
        obs.set_weight(None)
        sh.weight = np.ones(d)
    elif op == 'jac-none':
        obs.set_jacobian(None)
        sh.jacp = ((d[0] - 1)/2, (d[1] - 1)/2, 1.0, 0.0, 0.0, 1.0)
    elif op == 'allzero':
        w = np.zeros(d)
        if sh.store and sh.izw:
            mon.raises('no-usable-pixels', GMixFatalError, *gen.pick(rng, [(obs.set_weight, w), (setattr, obs, 'weight', w)]))
            nostale(mon, obs, sh)
            w2, _ = gen.weight_map(rng, d)
            obs.set_weight(w2.copy())
            sh.weight = w2
        else:
            obs.set_weight(w)
            sh.weight = w
            if rng.randint(2):
                # asking for the used pixels only, when there are none
                o = obs.copy()
                if sh.store:
                    mon.raises('no-usable-pixels', GMixFatalError, setattr, o, 'ignore_zero_weight', True)
                elif sh.izw:
                    mon.raises('no-usable-pixels', GMixFatalError, setattr, o, 'store_pixels', True)
                nostale(mon, o, sh)
    elif op == 'samevalue':
        obs.image = obs.image
        obs.weight = obs.weight
        obs.jacobian = obs.jacobian
        obs.store_pixels = sh.store
        obs.ignore_zero_weight = sh.izw
    elif op == 'bad':
        op = 'bad-' + bad(mon, rng, obs, sh)
    return op


def nostale(mon, obs, sh):
    """after an update that failed for want of usable pixels: the old state, or no pixels"""
    if (np.asarray(obs.weight) > 0).any():
        mon.same('no-usable-pixels', np.array(obs.weight), np.asarray(sh.weight))
    else:
        mon.true('no-usable-pixels', obs.pixels is None or len(obs.pixels) == 0 or not obs.ignore_zero_weight,
                 'the pixels of other arrays are kept')


def bad(mon, rng, obs, sh):
    d = sh.dims
    shp = gen.pick(rng, [(d[0] + 1, d[1]), (d[0], d[1] + 1), (d[0]*d[1],), (1, d[0], d[1]), (d[1], d[0] + 3)])
    a = np.ones(shp)
    what = gen.pick(rng, ['image', 'weight', 'mask', 'jac', 'gmix', 'psf', 'meta'])
    exc = (AssertionError, ValueError, TypeError)
    if what in ('image', 'weight'):
        mon.raises('bad-refused', exc, setattr, obs, what, a)
        mon.raises('bad-refused', exc, getattr(obs, 'set_' + what), a)
    elif what == 'mask':
        m = gen.pick(rng, MASKS)
        mon.raises('bad-refused', exc, setattr, obs, m, a)
    elif what == 'jac':
        mon.raises('bad-refused', exc, obs.set_jacobian, gen.pick(rng, [3, np.eye(2), {'row': 1}]))
    elif what == 'meta':
        mon.raises('bad-refused', exc, obs.set_meta, gen.pick(rng, [[1], 'x', 3]))
        mon.raises('bad-refused', exc, obs.update_meta_data, gen.pick(rng, [[1], 'x', None]))
    elif what == 'gmix':
        mon.raises('bad-refused', exc, obs.set_gmix, gen.pick(rng, [3, np.zeros(6)]))
        if not obs.has_gmix():
            sh.gmix = None      # a refused mixture may take the old one away
    else:
        mon.raises('bad-refused', exc, obs.set_psf, gen.pick(rng, [3, np.zeros((3, 3))]))
        if not obs.has_psf():
            sh.psf = None
    return what
