"""Runners and bootstrappers: tries, guesses, attached results, dropped epochs and what the object fitter is handed."""
import copy
import numpy as np
import ngmix
from ngmix.gexceptions import BootPSFFailure
from ngmix.runners import Runner, PSFRunner, run_fitter, run_psf_fitter
from ngmix.bootstrap import Bootstrapper, bootstrap, remove_failed_psf_obs
from vlib import gen, snap
from vlib.core import Workload

PROP = 'P23'
RULE = """scripted fitters and guessers that record every call (observation, guess, order) run through every public entry point with random
patterns of success, failure flags and exceptions over tries, epochs, bands and metacal types, on single observations, lists and
multi-band lists, with shared psfs, psfs with earlier mixtures and results with and without mixtures; the same with real fitters
compared to a fit-by-fit replay from the same generator; cases differ by pattern, container and configuration"""
REQUIRED = ['tries', 'fresh guess', 'last result', 'no guesser', 'exception', 'psf once', 'psf nesting', 'psf attached', 'psf untouched',
            'psf not set', 'kept', 'dropped', 'nothing left', 'not ignoring', 'no psf runner', 'container', 'meta', 'wrong type', 'obs kept',
            'metacal keys', 'metacal handed', 'metacal obs', 'metacal result', 'metacal refused', 'real psf', 'real fit', 'real bootstrap',
            'fitter property', 'reuse']


class Boom(Exception):
    pass


class Res(dict):
    """a result with no mixture"""


class GRes(Res):
    def __init__(self, gm, **kw):
        super().__init__(**kw)
        self._gm = gm

    def get_gmix(self):
        if self['flags'] != 0:
            raise RuntimeError('no mixture for a failed fit')
        return self._gm.copy()


class Log(object):
    def __init__(self):
        self.calls = []

    def n(self, kind):
        return [c for c in self.calls if c[0] == kind]


class FakeGuesser(object):
    def __init__(self, log, boom_at=None):
        self.log = log
        self.k = 0
        self.boom_at = boom_at

    def __call__(self, obs):
        self.k += 1
        if self.boom_at is not None and self.k == self.boom_at:
            self.log.calls.append(('boomguess', obs, None))
            raise Boom('guess')
        g = np.array([float(self.k), 7.0])
        self.log.calls.append(('guess', obs, g))
        return g


class FakeFitter(object):
    """outcome of a try is script(obs, which try for this observation)"""

    def __init__(self, log, script, with_gmix=True, rng=None):
        self.log = log
        self.script = script
        self.with_gmix = with_gmix
        self.seen = {}
        self.k = 0

    def go(self, obs, *args, **kw):
        assert not args
        i = self.seen.get(id(obs), 0)
        self.seen[id(obs)] = i + 1
        out = self.script(obs, i)
        self.k += 1
        if out == 'boom':
            self.log.calls.append(('boomfit', obs, kw))
            raise Boom('fit')
        if self.with_gmix:
            gm = ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, 4.0 + 0.001*self.k, 1.0], 'gauss')
            r = GRes(gm, flags=out, serial=self.k)
        else:
            r = Res(flags=out, serial=self.k)
        self.log.calls.append(('fit', obs, kw, r))
        return r


def flag(rng):
    return int(gen.pick(rng, [1, 2, 3, 2**4, 2**10, 2**20]))


def tiny(rng, psf=True, gmix=None, tag=0):
    dims = (int(rng.randint(3, 6)), int(rng.randint(3, 6)))
    jac = ngmix.DiagonalJacobian(row=1.0, col=1.0, scale=float(rng.uniform(0.2, 1.0)))
    p = None
    if psf:
        p = ngmix.Observation(rng.normal(size=(5, 5)), jacobian=jac, meta={'ptag': tag})
        if gmix if gmix is not None else rng.uniform() < 0.3:
            p.set_gmix(ngmix.GMixModel([0, 0, 0, 0, 9.0, 2.0], 'gauss'))
        if rng.uniform() < 0.3:
            p.meta['result'] = {'flags': int(gen.pick(rng, [0, 1])), 'old': True}
    return ngmix.Observation(rng.normal(size=dims), weight=np.full(dims, 2.0), jacobian=jac, psf=p, meta={'tag': tag})


def container(rng, kind=None, psf=True, share=False, maxe=5, maxb=4):
    kind = kind or gen.pick(rng, ['obs', 'list', 'mb'])
    tag = [0]
    shared = [None]

    def one():
        tag[0] += 1
        o = tiny(rng, psf=psf, tag=tag[0])
        if share and psf:
            if shared[0] is None:
                shared[0] = o.psf
            elif rng.uniform() < 0.7:
                o.set_psf(shared[0])
        return o

    if kind == 'obs':
        return one(), kind
    if kind == 'list':
        ol = ngmix.ObsList(meta={'l': 1, 'deep': {'a': [1]}})
        for _ in range(rng.randint(1, maxe + 1)):
            ol.append(one())
        return ol, kind
    mb = ngmix.MultiBandObsList(meta={'mb': 'x'})
    for b in range(rng.randint(1, maxb + 1)):
        ol = ngmix.ObsList(meta={'band': b})
        for _ in range(rng.randint(1, maxe + 1)):
            ol.append(one())
        mb.append(ol)
    return mb, kind


def flat(x):
    if isinstance(x, ngmix.Observation):
        return [x]
    if isinstance(x, ngmix.ObsList):
        return list(x)
    return [o for ol in x for o in ol]


def flatres(x, kind):
    if kind == 'obs':
        return [x]
    if kind == 'list':
        return list(x)
    return [r for rl in x for r in rl]


def shape_of(x):
    if isinstance(x, ngmix.Observation):
        return 'o'
    if isinstance(x, ngmix.ObsList):
        return [len(x)]
    return [len(v) for v in x], 'mb'


def shape_res(x, kind):
    if kind == 'obs':
        return 'o'
    if kind == 'list':
        return [len(x)]
    return [len(v) for v in x], 'mb'


# ------------------------------------------------------------------ runner
def w_runner(mon, rng, idx):
    ntry = int(rng.randint(1, 8))
    obs, kind = container(rng, psf=bool(rng.randint(2)))
    first = int(rng.randint(0, ntry + 2))
    fl = [flag(rng) for _ in range(20)]
    boom = gen.pick(rng, [None, None, None, 'fit', 'guess'])
    bat = int(rng.randint(0, ntry)) if boom else None
    useg = bool(rng.randint(4)) or boom == 'guess'
    log = Log()
    base = [0]

    def script(o, i):
        i -= base[0]
        if boom == 'fit' and i == bat:
            return 'boom'
        return 0 if i == first else fl[i % 20]

    fitter = FakeFitter(log, script, with_gmix=bool(rng.randint(2)))
    guesser = FakeGuesser(log, boom_at=bat + 1 if boom == 'guess' else None) if useg else None
    how = int(rng.randint(4))
    mon.describe(ntry=ntry, first=first, boom=boom, bat=bat, guesser=useg, how=how, kind=kind)
    runner = None
    kw = dict(fitter=fitter)
    if useg:
        kw['guesser'] = guesser
    if ntry > 1 or rng.randint(2):
        kw['ntry'] = ntry
    before = snap.snap(obs)
    if how == 0:
        def call():
            return run_fitter(obs=obs, **kw)
    elif how == 1:
        def call():
            return run_fitter(obs, fitter, guesser, ntry)
    else:
        runner = Runner(**kw) if how == 2 else Runner(fitter, guesser, ntry)

        def call():
            return runner.go(obs=obs) if how == 2 else runner.go(obs)
    ndone = min(first + 1, ntry)
    if boom is not None and bat < ndone:
        mon.raises('exception', Boom, call)
        mon.true('exception', len(log.n('fit')) == bat, 'fits before the exception', len(log.n('fit')), bat)
        mon.true('exception', len(log.n('boomfit')) + len(log.n('boomguess')) == 1, 'nothing is tried after an exception')
        mon.event('exceptions')
        return
    res = mon.returns('tries', call)
    fits = log.n('fit')
    guesses = log.n('guess')
    mon.true('tries', len(fits) == ndone, 'number of tries', len(fits), 'expected', ndone)
    mon.true('tries', all(f[1] is obs for f in fits), 'the fitter was not handed the observation')
    mon.true('last result', res is fits[-1][3], 'the result is not the last one', dict(res), [dict(f[3]) for f in fits])
    mon.true('last result', (res['flags'] == 0) == (first < ntry), 'success of the result', dict(res))
    if useg:
        mon.true('fresh guess', len(guesses) == ndone, 'one guess per try', len(guesses), ndone)
        for f, g in zip(fits, guesses):
            mon.true('fresh guess', set(f[2]) == {'guess'} and f[2]['guess'] is g[2], 'guess used', f[2], 'guess drawn', g[2])
            mon.true('fresh guess', g[1] is obs, 'the guesser was not handed the observation')
        order = [c[0] for c in log.calls]
        mon.true('fresh guess', order == ['guess', 'fit']*ndone, 'order of calls', order)
    else:
        mon.true('no guesser', all(f[2] == {} for f in fits), 'arguments without a guesser', fits[0][2])
    mon.same('obs kept', snap.snap(obs), before, 'observation changed by the runner')
    mon.event('tries', ndone)
    # a second go starts over
    if boom is None:
        base[0] = ndone
        obs_same = call()
        mon.true('reuse', len(log.n('fit')) == 2*ndone, 'tries of a second go', len(log.n('fit')), ndone)
        mon.true('reuse', obs_same is log.n('fit')[-1][3], 'result of a second go')


# ------------------------------------------------------------------ psf runner
def psf_pattern(rng, objs, ntry):
    """object id -> number of failures before the first success (>= ntry: never)"""
    p = gen.pick(rng, [0.0, 0.2, 0.5, 0.9, 1.0])
    out = {}
    for o in objs:
        if id(o) not in out:
            out[id(o)] = ntry if rng.uniform() < p else int(rng.randint(0, ntry))
    return out


def w_psf(mon, rng, idx):
    ntry = int(rng.randint(1, 6))
    has_psf = bool(rng.randint(5))
    share = bool(rng.randint(5) == 0)
    obs, kind = container(rng, psf=has_psf, share=share)
    objs = [o.psf if has_psf else o for o in flat(obs)]
    pat = psf_pattern(rng, objs, ntry)
    fl = flag(rng)
    boom = None
    if rng.uniform() < 0.15 and not share:
        boom = int(rng.randint(len(objs)))
    log = Log()

    def script(o, i):
        if boom is not None and o is objs[boom] and i == pat[id(o)]:
            return 'boom'
        return 0 if i % ntries(o) == pat[id(o)] and pat[id(o)] < ntry else fl

    def ntries(o):
        return min(pat[id(o)] + 1, ntry) if not share else 10**6

    withg = bool(rng.randint(4))
    fitter = FakeFitter(log, script, with_gmix=withg)
    guesser = FakeGuesser(log) if rng.randint(4) else None
    setr = bool(rng.randint(4))
    how = int(rng.randint(3))
    mon.describe(ntry=ntry, kind=kind, shape=shape_of(obs), pat=[pat[id(o)] for o in objs], share=share, gmix=withg, set=setr, how=how, boom=boom)
    kw = dict(fitter=fitter, guesser=guesser, ntry=ntry)
    if not setr or rng.randint(2):
        kw['set_result'] = setr
    before = [snap.snap(o) for o in flat(obs)]
    images = [[o.image.copy(), o.weight.copy()] for o in objs]
    metas = [o.meta for o in objs]
    old_gmix = [o.gmix if o.has_gmix() else None for o in objs]
    old_gdata = [None if g is None else g.get_full_pars().copy() for g in old_gmix]
    old_meta = [dict(o.meta) for o in objs]
    old_res = [o.meta.get('result') for o in objs]
    if how == 0:
        def call():
            return run_psf_fitter(obs=obs, **kw)
    else:
        def call():
            return PSFRunner(**kw).go(obs=obs)

    nboom = None
    if boom is not None and pat[id(objs[boom])] < ntry:
        mon.raises('exception', Boom, call)
        nboom = boom
    else:
        res = mon.returns('psf once', call)
    fits = log.n('fit')
    # which object was fitted when
    seq = [f[1] for f in fits]
    want = []
    for k, o in enumerate(objs):
        if nboom is not None and k == nboom:
            want += [o]*pat[id(o)]
            break
        if share:
            # a shared psf is fitted again for every observation that uses it
            if any(o is q for q in objs[:k]):
                want += [o]*ntry
                continue
        want += [o]*min(pat[id(o)] + 1, ntry)
    mon.true('psf once', len(seq) == len(want) and all(a is b for a, b in zip(seq, want)),
             'psfs fitted', [objs.index(s) if any(s is o for o in objs) else None for s in seq],
             'expected', [next(i for i, o in enumerate(objs) if o is w) for w in want])
    if guesser is not None:
        gs = log.n('guess')
        for f, g in zip(fits, gs):
            mon.true('fresh guess', f[2].get('guess') is g[2] and f[1] is g[1], 'guess of another try or psf')
    ndone = len(objs) if nboom is None else nboom
    lastres = {}
    byobj = []
    pos = 0
    for k in range(ndone):
        o = objs[k]
        n = len([1 for w in want[pos:] if w is o]) if not share else None
        if share:
            n = ntry if any(o is q for q in objs[:k]) else min(pat[id(o)] + 1, ntry)
        r = fits[pos + n - 1][3]
        pos += n
        byobj.append(r)
        lastres[id(o)] = r
    if nboom is None:
        mon.true('psf nesting', isinstance(res, GRes if withg else Res) if kind == 'obs' else type(res) is list, type(res))
        mon.true('psf nesting', shape_res(res, kind) == shape_of(obs), 'structure', shape_res(res, kind), shape_of(obs))
        got = flatres(res, kind)
        mon.true('psf nesting', len(got) == len(byobj) and all(a is b for a, b in zip(got, byobj)),
                 'results not in order', [g['serial'] for g in got], [b['serial'] for b in byobj])
    for k, o in enumerate(objs):
        mon.true('psf untouched', np.array_equal(o.image, images[k][0]) and np.array_equal(o.weight, images[k][1]), 'psf image or weight')
        mon.true('psf untouched', o.meta is metas[k], 'metadata replaced')
        rest = {a: b for a, b in o.meta.items() if a != 'result'}
        oldrest = {a: b for a, b in old_meta[k].items() if a != 'result'}
        mon.true('psf untouched', rest == oldrest, 'other metadata', rest, oldrest)
        done = id(o) in lastres
        if not setr or not done:
            name = 'psf not set'
            mon.true(name, o.meta.get('result') is old_res[k], 'a result was attached')
            mon.true(name, o.has_gmix() == (old_gmix[k] is not None), 'a mixture was attached')
        else:
            r = lastres[id(o)]
            mon.true('psf attached', o.meta.get('result') is r, 'result attached', o.meta.get('result'), dict(r))
            anyok = [b for b, q in zip(byobj, objs) if q is o and b['flags'] == 0]
            if anyok and withg:
                mon.true('psf attached', o.has_gmix(), 'no mixture for a good psf')
                mon.close('psf attached', o.gmix.get_full_pars(), anyok[-1]._gm.get_full_pars(), rtol=0)
                continue
        if old_gmix[k] is None:
            mon.true('psf attached', not o.has_gmix(), 'mixture for a psf whose fit failed or gave none')
        else:
            mon.true('psf attached', np.array_equal(o.gmix.get_full_pars(), old_gdata[k]), 'mixture of a failed psf changed')
    if has_psf:
        for o, b in zip(flat(obs), before):
            a = snap.snap(o)
            aa = [v for v in a if not (isinstance(v, tuple) and v[0] == 'psf')]
            bb = [v for v in b if not (isinstance(v, tuple) and v[0] == 'psf')]
            mon.same('psf untouched', aa, bb, 'the object observation changed')
    mon.event('psf fits', len(fits))
    mon.event('psf patterns')


def w_types(mon, rng, idx):
    """arguments that are no observations"""
    log = Log()
    fitter = FakeFitter(log, lambda o, i: 0)
    bad = gen.pick(rng, [None, 3, 'x', [], {}, np.zeros((3, 3)), [tiny(rng)], (tiny(rng),)])
    mon.describe(bad=type(bad).__name__, n=len(bad) if hasattr(bad, '__len__') else 0, r=int(rng.randint(100)))
    mon.raises('wrong type', ValueError, run_psf_fitter, obs=bad, fitter=fitter)
    mon.raises('wrong type', ValueError, PSFRunner(fitter).go, bad)
    mon.raises('wrong type', ValueError, remove_failed_psf_obs, obs=bad)
    mon.raises('wrong type', ValueError, bootstrap, obs=bad, runner=Runner(fitter), psf_runner=PSFRunner(fitter))
    mon.true('wrong type', not log.calls, 'something was fitted')


# ------------------------------------------------------------------ bootstrap
def split(obs, good):
    """what a bootstrap should hand on: nested lists of the good observations, None when a band has none"""
    if isinstance(obs, ngmix.Observation):
        return obs if good[id(obs.psf)] else None
    if isinstance(obs, ngmix.ObsList):
        out = [o for o in obs if good[id(o.psf)]]
        return out or None
    out = [[o for o in ol if good[id(o.psf)]] for ol in obs]
    return out if all(out) else None


def check_handed(mon, name, got, want, orig, kind):
    if kind == 'obs':
        mon.true(name, got is want, 'not the observation itself')
        return
    mon.true('container', type(got) is type(orig), 'container', type(got), type(orig))
    mon.same('meta', snap.snap(got.meta), snap.snap(orig.meta), 'container metadata')
    if kind == 'list':
        mon.true(name, len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                 'epochs handed on', [o.meta.get('tag') for o in got], 'expected', [o.meta.get('tag') for o in want])
    else:
        mon.true(name, len(got) == len(want), 'bands handed on', len(got), len(want))
        for g, w, ol in zip(got, want, orig):
            mon.true('container', type(g) is type(ol), type(g))
            mon.same('meta', snap.snap(g.meta), snap.snap(ol.meta), 'band metadata')
            mon.true(name, len(g) == len(w) and all(a is b for a, b in zip(g, w)),
                     'epochs handed on', [o.meta.get('tag') for o in g], 'expected', [o.meta.get('tag') for o in w])


def w_boot(mon, rng, idx):
    ntry = int(rng.randint(1, 4))
    obs, kind = container(rng, maxe=6)
    orig = copy.copy(flat(obs))
    orig_shape = shape_of(obs)
    psfs = [o.psf for o in orig]
    p = gen.pick(rng, [0.0, 0.2, 0.4, 0.7, 1.0])
    pat = {id(q): (ntry if rng.uniform() < p else int(rng.randint(0, ntry))) for q in psfs}
    plog, log = Log(), Log()
    fl = flag(rng)
    boomk = int(rng.randint(len(psfs))) if rng.uniform() < 0.1 else None
    nboom = boomk is not None

    def pscript(o, i):
        if nboom and o is psfs[boomk]:
            return 'boom'
        return 0 if i == pat[id(o)] else fl

    prunner = PSFRunner(FakeFitter(plog, pscript, with_gmix=bool(rng.randint(3))), FakeGuesser(plog), ntry=ntry)
    ofl = int(gen.pick(rng, [0, 0, fl]))
    rfit = FakeFitter(log, lambda o, i: ofl)
    rtry = int(rng.randint(1, 4))
    runner = Runner(rfit, FakeGuesser(log), ntry=rtry)
    mode = gen.pick(rng, ['ignore', 'ignore', 'ignore', 'default', 'keep', 'nopsf'])
    how = int(rng.randint(2))
    mon.describe(kind=kind, shape=orig_shape, pat=[pat[id(q)] for q in psfs], ntry=ntry, mode=mode, how=how, boom=boomk)
    kw = dict(runner=runner)
    if mode != 'nopsf':
        kw['psf_runner'] = prunner
    if mode in ('ignore', 'keep'):
        kw['ignore_failed_psf'] = mode == 'ignore'
    if mode == 'nopsf' and rng.randint(2):
        kw['ignore_failed_psf'] = bool(rng.randint(2))
        for q in psfs:
            q.meta['result'] = {'flags': fl}
    if how == 0:
        def call():
            return bootstrap(obs=obs, **kw)
    else:
        b = Bootstrapper(**kw)
        mon.true('fitter property', b.fitter is rfit, 'fitter of the bootstrapper')

        def call():
            return b.go(obs=obs)
    images = [(o.image.copy(), o.weight.copy()) for o in orig]
    if mode == 'nopsf':
        res = mon.returns('no psf runner', call)
        mon.true('no psf runner', not plog.calls, 'a psf was fitted')
        mon.true('no psf runner', all(f[1] is obs for f in log.n('fit')), 'the object fitter got something else')
    elif nboom:
        mon.raises('exception', Boom, call)
        mon.true('exception', not log.calls, 'the object was fitted after an exception in a psf fit')
        return
    else:
        good = {id(q): pat[id(q)] < ntry for q in psfs}
        want = split(obs, good)
        if mode == 'keep':
            res = mon.returns('not ignoring', call)
            mon.true('not ignoring', all(f[1] is obs for f in log.n('fit')), 'the object fitter got something else')
        elif want is None:
            mon.raises('nothing left', BootPSFFailure, call)
            mon.true('nothing left', not log.calls, 'the object fitter was run')
            mon.event('all failed')
            res = None
            mon.raises('nothing left', BootPSFFailure, remove_failed_psf_obs, obs=obs)
        else:
            res = mon.returns('kept', call)
            nf = len(log.n('fit'))
            mon.true('tries', nf == (1 if ofl == 0 else rtry), 'tries on the object', nf)
            for f in log.n('fit'):
                check_handed(mon, 'kept', f[1], want, obs, kind)
            for g in log.n('guess'):
                check_handed(mon, 'kept', g[1], want, obs, kind)
            mon._count('dropped', len(psfs) - len(flat(log.n('fit')[0][1])))
            check_handed(mon, 'kept', remove_failed_psf_obs(obs), want, obs, kind)
        for q in psfs:
            nf = len([1 for f in plog.n('fit') if f[1] is q])
            mon.true('psf once', nf == min(pat[id(q)] + 1, ntry), 'tries on a psf', nf, pat[id(q)], ntry)
            mon.true('psf attached', (q.meta['result']['flags'] == 0) == good[id(q)], 'attached result')
    if res is not None:
        mon.true('last result', res is log.n('fit')[-1][3], 'result of the bootstrap')
    mon.true('obs kept', shape_of(obs) == orig_shape and all(a is b for a, b in zip(flat(obs), orig)), 'members of the input changed')
    for o, (im, w) in zip(orig, images):
        mon.true('obs kept', np.array_equal(o.image, im) and np.array_equal(o.weight, w), 'arrays of the input changed')
    mon.event('bootstraps')


# ------------------------------------------------------------------ metacal bootstrap
def w_metacal(mon, rng, idx):
    from ngmix.metacal import metacal_bootstrap, MetacalBootstrapper, get_all_metacal
    kind = gen.pick(rng, ['obs', 'list', 'mb'])
    dims = (21, 21)

    def one(tag):
        o, _ = gen.obs(rng, dims=dims, scale=0.263, extras=False, wkind='const')
        o.meta['tag'] = tag
        return o
    tag = 0
    if kind == 'obs':
        obs = one(1)
    else:
        lists = []
        for b in range(1 if kind == 'list' else 2):
            ol = ngmix.ObsList(meta={'band': b})
            for _ in range(rng.randint(1, 3)):
                tag += 1
                ol.append(one(tag))
            lists.append(ol)
        if kind == 'list':
            obs = lists[0]
        else:
            obs = ngmix.MultiBandObsList(meta={'mb': 'y'})
            for ol in lists:
                obs.append(ol)
    before = snap.snap(obs)
    npsf = len(flat(obs))
    psf = gen.pick(rng, ['gauss', 'dilate', 'gauss'])
    types = gen.pick(rng, [None, ['noshear', '1p'], ['1p', '1m'], ['2m', '2p', 'noshear', '1p']])
    if psf == 'dilate' and rng.randint(3):
        types = gen.pick(rng, [None, ['1p_psf', '1m_psf'], ['2p_psf', '1m'], ['noshear', '2m_psf', '1p', '2m']])
    fixnoise = bool(rng.randint(2))
    step = gen.pick(rng, [None, 0.02])
    mkw = dict(psf=psf, fixnoise=fixnoise)
    if types is not None:
        mkw['types'] = list(types)
    if step is not None:
        mkw['step'] = step
    seed = int(rng.randint(2**31))
    # failures by number of psf fit within the whole run
    p = gen.pick(rng, [0.0, 0.05, 0.3, 0.3, 1.0])
    fl = flag(rng)
    outcome = {}
    orng = np.random.RandomState(rng.randint(2**31))
    plog, log = Log(), Log()

    def pscript(o, i):
        if id(o) not in outcome:
            outcome[id(o)] = (fl if orng.uniform() < p else 0, o)
        return outcome[id(o)][0]
    mode = ['default', 'ignore', 'default', 'keep', 'nopsf'][idx % 5]
    if mode == 'default' and p == 0:
        p = 0.3
    prunner = PSFRunner(FakeFitter(plog, pscript), ntry=1)
    rfit = FakeFitter(log, lambda o, i: 0)
    runner = Runner(rfit)
    kw = dict(runner=runner, psf_runner=None if mode == 'nopsf' else prunner, rng=np.random.RandomState(seed))
    if mode in ('ignore', 'keep'):
        kw['ignore_failed_psf'] = mode == 'ignore'
    how = (idx//5) % 2
    mon.describe(kind=kind, shape=shape_of(obs), psf=psf, types=types, fixnoise=fixnoise, mode=mode, p=p, how=how, seed=seed)
    expected = get_all_metacal(obs, rng=np.random.RandomState(seed), **{a: (list(b) if isinstance(b, list) else b) for a, b in mkw.items()})
    if how == 0:
        def call():
            return metacal_bootstrap(obs=obs, **kw, **mkw)
    else:
        b = MetacalBootstrapper(**kw, **mkw)
        mon.true('fitter property', b.fitter is rfit, 'fitter')

        def call():
            return b.go(obs)
    try:
        resdict, obsdict = call()
    except BootPSFFailure:
        # right only if a band of some type was left without a good psf
        mon.true('metacal refused', mode in ('ignore', 'default'), 'refused although failures are kept')
        last = [f[1] for f in plog.n('fit')][-npsf:]
        bad = [outcome[id(o)][0] != 0 for o in last]
        if kind == 'mb':
            k = 0
            groups = []
            for ol in obs:
                groups.append(bad[k:k + len(ol)])
                k += len(ol)
        else:
            groups = [bad]
        mon.true('metacal refused', any(all(g) for g in groups), 'refused although every band has a good psf', groups)
        mon.event('metacal refusals')
        return
    mon.true('metacal keys', set(resdict) == set(obsdict) == set(expected), 'types', sorted(resdict), sorted(obsdict), sorted(expected))
    mon.true('metacal keys', list(resdict) == list(obsdict), 'order of the types')
    fits = log.n('fit')
    mon.true('metacal handed', len(fits) == len(obsdict), 'object fits', len(fits), len(obsdict))
    for t, f in zip(obsdict, fits):
        o = obsdict[t]
        mon.true('metacal result', resdict[t] is f[3], 'result of another type', t)
        mon.true('metacal obs', type(o) is type(obs) and shape_of(o) == shape_of(obs), 'structure', t)
        for a, e in zip(flat(o), flat(expected[t])):
            mon.true('metacal obs', np.array_equal(a.image, e.image) and np.array_equal(a.weight, e.weight)
                     and np.array_equal(a.psf.image, e.psf.image), 'images of', t)
        if mode != 'nopsf':
            mon.true('psf once', all(id(x.psf) in outcome for x in flat(o)), 'a psf of', t, 'was not fitted')
        if mode in ('ignore', 'default'):
            good = {id(x.psf): outcome[id(x.psf)][0] == 0 for x in flat(o)}
            want = split(o, good)
            mon.true('metacal refused', want is not None, 'a band without psfs was fitted', t)
            check_handed(mon, 'metacal handed', f[1], want, o, kind)
        else:
            mon.true('metacal handed', f[1] is o, 'the object fitter got something else', t)
        if mode != 'nopsf':
            for x in flat(o):
                mon.true('psf attached', x.psf.meta['result']['flags'] == outcome[id(x.psf)][0], 'psf result of', t)
                if outcome[id(x.psf)][0] == 0:
                    mon.true('psf attached', x.psf.has_gmix(), 'no mixture')
    if mode == 'nopsf':
        mon.true('no psf runner', not plog.calls, 'psf fitted')
    else:
        mon.true('psf once', len(plog.n('fit')) == npsf*len(obsdict), 'psf fits', len(plog.n('fit')), npsf*len(obsdict))
    mon.same('obs kept', snap.snap(obs), before, 'input changed')
    mon.event('metacal types', len(obsdict))


# ------------------------------------------------------------------ real fitters
def real_psf(rng, r):
    from ngmix import fitting, guessers, admom, em
    k = gen.pick(rng, ['gauss', 'coellip', 'admom', 'em', 'mom', 'turb'])
    maxfev = gen.pick(rng, [None, 4, 30, 50])
    fp = None if maxfev is None else {'maxfev': maxfev, 'ftol': 1e-5, 'xtol': 1e-5}

    def make(s):
        q = np.random.RandomState(s)
        if k == 'gauss' or k == 'turb':
            return fitting.Fitter(model=k, fit_pars=fp), guessers.SimplePSFGuesser(rng=q)
        if k == 'coellip':
            return fitting.CoellipFitter(ngauss=2, fit_pars=fp), guessers.CoellipPSFGuesser(rng=q, ngauss=2)
        if k == 'admom':
            return admom.AdmomFitter(maxiter=maxfev or 200, rng=q), guessers.GMixPSFGuesser(rng=q, ngauss=1)
        if k == 'em':
            return em.EMFitter(maxiter=max(20, maxfev or 2000)), guessers.GMixPSFGuesser(rng=q, ngauss=2)
        return ngmix.gaussmom.GaussMom(fwhm=1.2), None
    return make, k, maxfev


def w_real(mon, rng, idx):
    make, k, maxfev = real_psf(rng, None)
    ntry = int(rng.randint(1, 4))
    kind = gen.pick(rng, ['obs', 'list', 'mb'])
    mb, _ = gen.mbobs(rng, nband=1 if kind != 'mb' else 2, nepoch=1 if kind == 'obs' else int(rng.randint(1, 3)),
                      dims=(19, 19), scale=0.263, wkind='const', extras=False)
    if rng.uniform() < 0.4:
        # a psf that is only noise usually fails
        o = gen.pick(rng, flat(mb))
        with o.psf.writeable():
            o.psf.image[:] = 1e-3*rng.normal(size=o.psf.image.shape)
    obs = mb[0][0] if kind == 'obs' else (mb[0] if kind == 'list' else mb)
    other = obs.copy() if kind == 'obs' else copy.deepcopy(obs)
    seed = int(rng.randint(2**31))
    mon.describe(fitter=k, maxfev=maxfev, ntry=ntry, kind=kind, shape=shape_of(obs), seed=seed)

    fitter, guesser = make(seed)
    exc = None
    try:
        res = PSFRunner(fitter, guesser, ntry=ntry).go(obs)
    except Exception as e:
        exc = type(e)
    # replay one by one
    f2, g2 = make(seed)
    want = []
    try:
        for o in flat(other):
            for i in range(ntry):
                r = f2.go(obs=o.psf, guess=g2(obs=o.psf)) if g2 is not None else f2.go(obs=o.psf)
                if r['flags'] == 0:
                    break
            want.append(r)
    except Exception as e:
        mon.true('real psf', exc is type(e), 'exceptions', exc, type(e), e)
        mon.event('real exceptions')
        return
    mon.true('real psf', exc is None, 'the runner raised', exc)
    got = flatres(res, kind)
    for o, a, b in zip(flat(obs), got, want):
        for key in b:
            if isinstance(b[key], (int, float, np.ndarray, np.number)) and key in a:
                mon.same('real psf', a[key], b[key], 'entry %s of %s' % (key, k))
        mon.true('real psf', set(a) == set(b), 'entries')
        mon.true('real psf', o.psf.meta['result'] is a, 'attached result')
        if b['flags'] == 0 and hasattr(b, 'get_gmix'):
            mon.same('real psf', snap.snap(o.psf.gmix), snap.snap(b.get_gmix()), 'attached mixture')
        mon.event('real psf ok' if b['flags'] == 0 else 'real psf failed')

    # now the whole bootstrap with a real object fit
    if k == 'mom':
        return
    from ngmix import fitting, guessers
    third = other
    for o in flat(third):
        o.psf.meta.pop('result', None)
    nband = len(third) if kind == 'mb' else 1
    frac = gen.pick(rng, [1.0, 1.0, 8.0])
    lm = gen.pick(rng, [None, {'maxfev': 15, 'ftol': 1e-5, 'xtol': 1e-5}])
    rtry = int(rng.randint(1, 4))

    class Rec(object):
        def __init__(self):
            self.f = fitting.Fitter(model='gauss', fit_pars=lm)
            self.calls = []

        def go(self, obs, guess):
            self.calls.append((obs, guess.copy()))
            return self.f.go(obs=obs, guess=guess)
    rec = Rec()

    def gg(s):
        return guessers.TFluxGuesser(rng=np.random.RandomState(s), T=0.3*frac,
                                     flux=[30.0]*nband if nband > 1 else 30.0)
    f3, g3 = make(seed)
    boot = Bootstrapper(runner=Runner(rec, gg(seed + 1), ntry=rtry), psf_runner=PSFRunner(f3, g3, ntry=ntry))
    good = [w['flags'] == 0 for w in want]
    goodd = {id(o.psf): v for o, v in zip(flat(third), good)}
    sp = split(third, goodd)
    if sp is None:
        mon.raises('nothing left', BootPSFFailure, boot.go, third)
        mon.event('real refused')
        return
    try:
        r = boot.go(third)
    except Exception as e:
        # the same has to happen when the same fit is done by hand
        kept = remove_failed_psf_obs(third)
        mon.raises('real bootstrap', type(e), lambda: run_fitter(kept, fitting.Fitter(model='gauss', fit_pars=lm), gg(seed + 1), rtry))
        return
    check_handed(mon, 'real bootstrap', rec.calls[-1][0], sp, third, kind)
    q = gg(seed + 1)
    for i in range(rtry):
        guess = q(obs=rec.calls[0][0])
        mon.close('real fit', rec.calls[i][1], guess, rtol=0, detail='guess of try %d' % i)
        r2 = fitting.Fitter(model='gauss', fit_pars=lm).go(obs=rec.calls[0][0], guess=guess)
        if r2['flags'] == 0:
            break
    mon.true('real fit', len(rec.calls) == i + 1, 'tries', len(rec.calls), i + 1)
    mon.true('real fit', r['flags'] == r2['flags'], 'flags', r['flags'], r2['flags'])
    mon.same('real fit', r['pars'], r2['pars'], 'parameters')
    mon.event('real object ok' if r['flags'] == 0 else 'real object failed')


WORKLOADS = [
    Workload('runner', w_runner, quick=1500, thorough=30000),
    Workload('psf', w_psf, quick=900, thorough=15000),
    Workload('types', w_types, quick=30, thorough=200),
    Workload('boot', w_boot, quick=900, thorough=15000),
    Workload('metacal', w_metacal, quick=100, thorough=500),
    Workload('real', w_real, quick=120, thorough=2000),
]
