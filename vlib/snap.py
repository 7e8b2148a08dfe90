"""Snapshots of everything observable in an object, and their comparison."""
import numpy as np


def _arr(a):
    return ('array', a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes())


def snap(x, depth=0, rngs=False):
    """a plain, comparable description of x made from its public state"""
    import ngmix
    if depth > 12:
        return ('deep', repr(type(x)))
    d = depth + 1
    if x is None or isinstance(x, (str, bytes, bool)):
        return x
    if isinstance(x, np.ndarray):
        return _arr(x)
    if isinstance(x, np.generic):
        return ('num', _arr(np.asarray(x)))
    if isinstance(x, (int, complex)):
        return x
    if isinstance(x, float):
        return ('num', _arr(np.float64(x).reshape(())))
    if isinstance(x, np.random.RandomState):
        return ('rng',) if not rngs else ('rng', snap(x.get_state(), d))
    if isinstance(x, ngmix.Observation):
        out = ['obs', _arr(x.image), _arr(x.weight), snap(x.jacobian, d),
               bool(x.store_pixels), bool(x.ignore_zero_weight),
               None if x.pixels is None else [(n, _arr(np.ascontiguousarray(x.pixels[n])))
                                              for n in x.pixels.dtype.names if n != 'fdiff']]
        for n in ('bmask', 'ormask', 'noise', 'mfrac'):
            out.append((n, _arr(getattr(x, n)) if getattr(x, 'has_' + n)() else None))
        out.append(('gmix', snap(x.gmix, d, rngs) if x.has_gmix() else None))
        out.append(('psf', snap(x.psf, d, rngs) if x.has_psf() else None))
        out.append(('meta', snap(x.meta, d, rngs)))
        return out
    if isinstance(x, ngmix.observation.KObservation):
        return ['kobs', _arr(x.kimage.array), _arr(x.weight.array), snap(x.jacobian, d),
                snap(x.psf, d, rngs) if x.has_psf() else None, snap(x.meta, d, rngs)]
    if isinstance(x, ngmix.Jacobian):
        return ['jac'] + [float(getattr(x, 'get_' + n)()).hex() for n in (
            'row0', 'col0', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol', 'det', 'scale')]
    if isinstance(x, (ngmix.ObsList, ngmix.MultiBandObsList, ngmix.observation.KObsList,
                      ngmix.observation.KMultiBandObsList)):
        return [type(x).__name__, [snap(v, d, rngs) for v in x], snap(x.meta, d, rngs)]
    if isinstance(x, ngmix.GMix):
        data = x.get_data()
        return ['gmix'] + [(n, _arr(np.ascontiguousarray(data[n]))) for n in (
            'p', 'row', 'col', 'irr', 'irc', 'icc', 'det')]
    if isinstance(x, ngmix.Shape):
        return ['shape', snap(x.g1), snap(x.g2)]
    if isinstance(x, dict):
        return ['dict'] + sorted(((repr(k), snap(v, d, rngs)) for k, v in x.items()), key=lambda t: t[0])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v, d, rngs) for v in x]
    if callable(x) and not hasattr(x, '__dict__'):
        return ('callable', getattr(x, '__name__', '?'))
    mod = type(x).__module__ or ''
    if mod.startswith('ngmix') and hasattr(x, '__dict__'):
        return [type(x).__name__] + sorted(((k, snap(v, d, rngs)) for k, v in vars(x).items()
                                            if not k.startswith('__')), key=lambda t: t[0])
    if mod.startswith('galsim'):
        return ('galsim', type(x).__name__)
    return ('other', type(x).__name__)


def _isarr(t):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 'array'


def diff_snap(a, b, path=''):
    """None or a text saying where two snapshots differ"""
    if type(a) is not type(b):
        return '%s: %s != %s' % (path, _s(a), _s(b))
    if _isarr(a) and _isarr(b):
        if a == b:
            return None
        if a[1] != b[1] or a[2] != b[2]:
            return '%s: array %s %s != %s %s' % (path, a[1], a[2], b[1], b[2])
        try:
            x = np.frombuffer(a[3], dtype=a[2])
            y = np.frombuffer(b[3], dtype=b[2])
        except Exception:
            return '%s: arrays differ' % path
        if x.dtype.kind in 'fc':
            w = np.where(~((x == y) | (np.isnan(x) & np.isnan(y))))[0]
        else:
            w = np.where(x != y)[0]
        if len(w) == 0:
            return None
        return '%s: array %s differs at %d of %d, flat %d: %r != %r' % (
            path, a[1], len(w), x.size, w[0], x[w[0]], y[w[0]])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            p = path + '/%s' % (x if isinstance(x, str) and i == 0 else i)
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                p = path + '/' + x[0]
            d = diff_snap(x, y, p)
            if d:
                return d
        return None
    if a != b:
        return '%s: %s != %s' % (path, _s(a), _s(b))
    return None


def _s(x):
    r = repr(x)
    return r if len(r) < 100 else r[:100] + '...'


def diff(a, b):
    return diff_snap(snap(a), snap(b))
