"""Observations against a shadow model under random histories of updates."""
import numpy as np
import ngmix
from ngmix.gexceptions import GMixFatalError
from vlib import gen, ref
from vlib.core import Workload
from vlib.obsops import Shadow, step, nostale, MASKS

PROP = 'P02'
RULE = """random observations (shapes from 1x1, every kind of weight map and jacobian, optional parts, both pixel options)
driven through random histories of setters, property assignments, option changes, write contexts (also left by an
exception), deferred pixel updates and refused arguments; after every step the whole observation is compared with a
shadow model; non-trivial histories have at least one step; cases differ by shape and history"""
REQUIRED = ['pixels', 'arrays', 'read-only', 'bad-refused', 'no-usable-pixels', 'step']


def history(mon, rng, idx):
    sh = Shadow(rng)
    obs = sh.build(rng)
    sh.check(mon, obs, 'new')
    ops = []
    for _ in range(rng.randint(1, 14)):
        op = step(mon, rng, obs, sh)
        ops.append(op)
        sh.check(mon, obs, ops)
        mon.event('op ' + op.split('-')[0])
        mon._count('step')
        if sh.psf is not None and rng.uniform() < 0.2:
            # the psf is an observation too
            ops.append('psf:' + step(mon, rng, obs.psf, sh.psf))
            sh.check(mon, obs, ops)
    mon.describe(dims=sh.dims, ops=ops)


def construct(mon, rng, idx):
    """constructor arguments and defaults"""
    sh = Shadow(rng, minimal=True)
    d = sh.dims
    kw = {}
    if rng.uniform() < 0.5:
        sh.weight = np.ones(d)
    else:
        kw['weight'] = sh.weight
    if rng.uniform() < 0.5:
        sh.jacp = ((d[0] - 1)/2, (d[1] - 1)/2, 1.0, 0.0, 0.0, 1.0)
    else:
        kw['jacobian'] = gen.make_jac(sh.jacp)
    mon.describe(dims=d, kw=sorted(kw))
    obs = ngmix.Observation(sh.image.copy(), **kw)
    sh.check(mon, obs, 'defaults')
    shp = gen.pick(rng, [(d[0] + 1, d[1]), (d[0]*d[1],), (d[0], d[1], 1)])
    for n in ('weight',) + MASKS:
        mon.raises('bad-refused', (AssertionError, ValueError), lambda: ngmix.Observation(sh.image, **{n: np.ones(shp)}))
    mon.raises('bad-refused', (AssertionError, ValueError), ngmix.Observation, np.ones(3))
    mon.raises('bad-refused', (AssertionError, TypeError), lambda: ngmix.Observation(sh.image, jacobian=3))
    mon.raises('bad-refused', (AssertionError, TypeError), lambda: ngmix.Observation(sh.image, psf=3))
    mon.raises('bad-refused', (AssertionError, TypeError), lambda: ngmix.Observation(sh.image, gmix=3))
    mon.raises('bad-refused', TypeError, lambda: ngmix.Observation(sh.image, meta=[3]))
    mon.raises('no-usable-pixels', GMixFatalError, lambda: ngmix.Observation(
        sh.image, weight=gen.pick(rng, [np.zeros(d), -np.ones(d), np.full(d, np.nan)])))
    for n in ('psf', 'gmix'):
        o = ngmix.Observation(sh.image)
        mon.raises('bad-refused', RuntimeError, getattr(o, 'get_' + n))
    mon.raises('bad-refused', RuntimeError, ngmix.Observation(sh.image).get_psf_gmix)


def exit_zero(mon, rng, idx):
    """leaving a write context with no usable pixels is an error, and does not leave it open"""
    sh = Shadow(rng)
    sh.store = sh.izw = True
    obs = sh.build(rng)
    mon.describe(dims=sh.dims, w=sh.weight)

    def go():
        with obs.writeable():
            obs.weight[:, :] = 0.0
    mon.raises('no-usable-pixels', GMixFatalError, go)
    mon.true('read-only', not obs.image.flags.writeable and not obs.weight.flags.writeable, 'write context left open')
    nostale(mon, obs, sh)
    w, _ = gen.weight_map(rng, sh.dims)
    obs.weight = w.copy()
    sh.weight = w
    sh.check(mon, obs, 'after a failed exit')


WORKLOADS = [
    Workload('history', history, 5000, 60000),
    Workload('construct', construct, 600, 6000),
    Workload('exit_zero', exit_zero, 300, 3000),
]
