"""P30 what is sent to another process arrives as it was sent and works there as it works here

Every object is pickled (all protocols) into a process that holds nothing of the sender's; that process describes what arrived, uses it,
and sends back what it found.  Monitors: the description against that of the original; every result, generator position and object
afterwards against those of the original used here in the same way; and what is sent back used here.
"""
import pickle

import numpy as np
import ngmix
from ngmix import gexceptions as X, joint_prior as J, priors as P
from ngmix.gmix_ndim import GMixND
from ngmix.observation import make_kobs
from vlib import gen, remote, snap
from vlib.core import Monitor, Violation, Workload
from vlib.obsops import Shadow, step
from props import p03, p20, p21, p24, p26

PROP = 'P30'
RULE = """obs: an observation after a random history of updates, sent, and the history carried on there and here. lists: lists, k-space lists
and metadata. mixtures: mixtures, jacobians, shapes after random changes, changed further on both sides. priors: priors, joint priors and
gaussian mixtures of any dimension with their generators in the middle of a sequence. operations: the inputs of any operation of the
catalogue of P24 sent and the operation done there. workers: fitters, guessers, runners, bootstrappers sent after zero or more uses
and used on. results: results sent, and sent back. exceptions: errors sent back. A case differs by objects, history and pickle protocol."""
REQUIRED = ['arrives', 'same there', 'shadow there', 'generator', 'sender-kept', 'back', 'back works', 'exception', 'protocol 2', 'protocol 5', 'global-rng']
REFUSED = (ngmix.GMixRangeError, ngmix.GMixFatalError, ngmix.BootPSFFailure, ngmix.PSFFluxFailure, np.linalg.LinAlgError, ValueError,
           X.FFTRangeError)


def full(x):
    return snap.snap(x, rngs=True)


def attempt(f):
    """what f gives, or how it is refused"""
    try:
        return f()
    except REFUSED as e:
        return '%s: %s' % (type(e).__name__, e)


# ---------------------------------------------------------------- done on both sides
def look(x):
    return full(x)


def do_obs(o, sh, seed, n):
    """random updates, each compared with the shadow model; what was left"""
    rng = np.random.RandomState(seed)
    mon = Monitor()
    mon.begin('remote', 0)
    ops = []
    bad = None
    try:
        sh.check(mon, o, 'arrived')
        for _ in range(n):
            ops.append(step(mon, rng, o, sh))
            sh.check(mon, o, ops)
    except Violation as e:
        bad = '%s: %s' % (e.name, e.msg)
    return bad, ops, full(o), full(attempt(lambda: o.get_s2n_sums()))


def do_list(x, seed):
    rng = np.random.RandomState(seed)
    out = [attempt(x.get_s2n) if hasattr(x, 'get_s2n') else None]
    x.update_meta_data({'new': [1, 2]})
    k = type(x)
    if len(x):
        x.append(x[rng.randint(len(x))])
        x[0] = x[-1]
    try:
        x.append(3)
    except (AssertionError, TypeError, ValueError) as e:
        out.append(type(e).__name__)
    y = x.copy() if hasattr(x, 'copy') else None
    out.append(full(y))
    out.append(k.__name__)
    return full(out), full(x)


def do_mix(g, seed, fills):
    rng = np.random.RandomState(seed)
    out = []
    j = ngmix.DiagonalJacobian(row=3.0, col=4.0, scale=0.6)
    psf = ngmix.GMixModel([0.1, 0.0, 0.05, 0.0, 2.0, 1.0], 'turb')
    for k in rng.permutation(8)[:rng.randint(2, 8)]:
        if k == 0:
            g.set_flux(rng.uniform(0.5, 20))
        elif k == 1:
            g.set_cen(rng.normal(), rng.normal())
        elif k == 2:
            out.append(attempt(lambda: g.make_image((6, 7), jacobian=j)))
        elif k == 3:
            out.append(attempt(lambda: g.convolve(psf)))
        elif k == 4:
            out.append(attempt(lambda: g.get_sheared(0.02, -0.01)))
        elif k == 5 and fills:
            p = fills[rng.randint(len(fills))]
            out.append(attempt(lambda: g.fill(np.array(p))))
        elif k == 6:
            out.append(attempt(g.set_norms))
        else:
            out.append(attempt(lambda: [g.get_cen(), g.get_T(), g.get_flux(), g.get_e1e2T(), g.get_g1g2T(), len(g), g.get_full_pars()]))
        out.append(attempt(lambda: g.make_image((3, 4))))
        out.append(full(g))
    out.append(full(g.copy()))
    out.append(repr(g))
    return full(out)


def do_small(x, seed):
    rng = np.random.RandomState(seed)
    out = [repr(x)]
    if isinstance(x, ngmix.Shape):
        out += [x.get_sheared(0.1, 0.05), -x, x.get_rotated(0.3), x.g1, x.g2, x.g, x.copy()]
        x.set_g1g2(0.1, -0.2)
        x.rotate(0.2)
        out += [x.g1, x.g2, x.g, full(x)]
    else:
        out += [x.get_vu(*rng.normal(size=2)), x.get_rowcol(*rng.normal(size=2)), x.area, x.copy(), x.get_galsim_wcs()]
        x.set_cen(row=rng.normal(), col=rng.normal())
        out += [x(1.0, 2.0), full(x)]
    return full(out)


def do_prior(p, x, n, what):
    out = []
    for k in what:
        for name in ('get_lnprob_array', 'get_prob_array'):
            if k == 'array' and hasattr(p, name):
                out.append(attempt(lambda: getattr(p, name)(np.array(x))))
        for name in ('get_lnprob_scalar', 'get_prob_scalar', 'get_fdiff'):
            if k == 'scalar' and hasattr(p, name):
                out.append([attempt(lambda: getattr(p, name)(v)) for v in x])
        if k == 'sample':
            out.append(p.sample(n))
            out.append(p.sample())
        if k == 'bounds' and hasattr(p, 'bounds'):
            out.append(p.bounds)
    out.append(p.sample(2))
    return full(out), full(p)


def do_two(p, n):
    """priors of two parameters"""
    out = [p.sample2d(n) if hasattr(p, 'sample2d') else p.sample(n), attempt(lambda: p.get_lnprob_scalar2d(0.1, 0.05)) if hasattr(
        p, 'get_lnprob_scalar2d') else attempt(lambda: p.get_lnprob_scalar(0.1, 0.05))]
    if hasattr(p, 'sample1d'):
        out.append(p.sample1d(n))
    return full(out), full(p)


def do_joint(p, x, n, nf):
    out = []
    for v in x:
        out.append(attempt(lambda: p.get_lnprob_scalar(v)))
        f = np.zeros(nf)
        out.append([attempt(lambda: p.fill_fdiff(v, f)), f])
    out.append(attempt(lambda: p.get_lnprob_array(np.array(x))))
    out.append(p.sample(n))
    out.append(p.sample())
    out.append(p.bounds)
    return full(out), full(p)


def do_nd(g, x, n):
    out = [g.get_lnprob_array(x), g.get_prob_array(x), g.get_lnprob_scalar(x[0]), g.sample(n), g.sample()]
    out.append(g.sample(3))
    return full(out)


def do_op(i, name, seed):
    np.random.seed(seed % 1000)
    g = p24.gstate()
    out = p24.run(name, i, seed)
    return out, p24.gstate() == g, i.frozen()


def do_raw(i, name, seed):
    """the results themselves"""
    return p24.OPS[name](i, np.random.RandomState(seed))


def do_use(f, ins, name, plan):
    uses = p24.REUSE[name][1]
    out = []
    for k, u in plan:
        out.append(full(p24.res(attempt(lambda: uses[u](f, ins[k])))))
    return out


def ask(f):
    """what f gives, or how it fails; not everything can be asked of every result"""
    try:
        return f()
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def works(r):
    """what a result can still be asked"""
    out = [full(p24.res(r))]
    if not isinstance(r, dict):
        return out
    for name in ('get_gmix', 'get_convolved_gmix', 'make_image', 'get_object', 'get_psf_gmix'):
        if hasattr(r, name):
            out.append((name, full(ask(getattr(r, name)))))
    if hasattr(r, 'calc_lnprob') and 'pars' in r:
        pars = np.array(r['pars'])
        for f in (1.0, 1.03):
            out.append(('lnprob', full(ask(lambda: r.calc_lnprob(pars*f, more=True)))))
            out.append(('fdiff', full(ask(lambda: r.calc_fdiff(pars*f)))))
    return out


def error_of(kind, seed):
    """the exception the code raises, as an object"""
    try:
        provoke(kind, seed)
    except Exception as e:
        return e
    return None


FUNCS = dict(look=look, obs=do_obs, list=do_list, mix=do_mix, small=do_small, prior=do_prior, two=do_two, joint=do_joint, nd=do_nd, op=do_op,
             raw=do_raw, use=do_use, works=works, error=error_of)


def provoke(kind, seed):
    rng = np.random.RandomState(seed)
    a = rng.uniform(1.0, 3.0)
    if kind == 'shape':
        ngmix.Shape(a, 0.2)
    elif kind == 'g-range':
        ngmix.GMixModel([0.0, 0.0, a, 0.0, 4.0, 1.0], 'exp')
    elif kind == 'zero weight':
        ngmix.Observation(np.ones((3, 4)), weight=np.zeros((3, 4)))
    elif kind == 'no flux':
        ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, -a, 1.0], 'gauss').make_image((3, 3))
    elif kind == 'prior range':
        P.FlatPrior(0.0, 1.0, rng=rng).get_lnprob_scalar(a)
    elif kind == 'no psf':
        ngmix.Observation(np.ones((3, 4))).get_psf()
    elif kind == 'bad model':
        ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, 4.0, 1.0], 'nope%d' % seed)
    elif kind == 'no psf gmix':
        ngmix.fitting.PSFFluxFitter().go(ngmix.Observation(np.ones((3, 4))))
    elif kind == 'all psfs failed':
        o = ngmix.Observation(np.ones((5, 5)), psf=ngmix.Observation(np.zeros((5, 5))))
        ngmix.bootstrap.remove_failed_psf_obs(failed(o))
    else:
        ngmix.Observation(np.ones((3, 4))).psf = 3


def failed(o):
    o.psf.meta['result'] = {'flags': 1}
    return o


ERRORS = ['shape', 'g-range', 'zero weight', 'no flux', 'prior range', 'no psf', 'bad model', 'no psf gmix', 'all psfs failed', 'bad psf']


# ---------------------------------------------------------------- the workloads
def send(mon, rng, name, *args):
    """do FUNCS[name] in the other process with a copy of args"""
    if LOCAL:
        return ('ok', FUNCS[name](*pickle.loads(pickle.dumps(args))))
    remote.start(FUNCS, full)
    prot = int(gen.pick(rng, [2, 3, 4, 4, 5]))
    mon._count('protocol %d' % prot)
    mon.describe(protocol=prot)
    before = full(args)
    try:
        data = pickle.dumps(args, protocol=prot)
    except Exception as e:
        mon.fail('arrives', 'cannot be sent: %s: %s' % (type(e).__name__, e))
    d = snap.diff_snap(before, full(args))
    mon.true('sender-kept', d is None, 'changed by sending: %s' % d)
    st = remote.call(name, data)
    mon.event('requests')
    if st[0] == 'arrive':
        mon.fail('arrives', '%s, protocol %d: %s %s' % (name, prot, st[1], st[2]))
    if len(st) > 3:
        d = snap.diff_snap(before, st[3])
        mon.true('arrives', d is None, '%s, protocol %d: %s' % (name, prot, d))
    return st


def answer(mon, name, st):
    if st[0] != 'ok':
        mon.fail('same there', '%s %s: %s %s' % (name, st[0], st[1], st[2] if len(st) > 2 else ''))
    return st[1]


def both(mon, rng, name, *args):
    """there, then here"""
    there = answer(mon, name, send(mon, rng, name, *args))
    # not even the original is what this compares with if it was changed by what was done there
    here = FUNCS[name](*args)
    d = snap.diff_snap(here, there)
    mon.true('same there', d is None, '%s: %s' % (name, d))
    return here, there


def w_obs(mon, rng, idx):
    sh = Shadow(rng)
    o = sh.build(rng)
    ops = [step(mon, rng, o, sh) for _ in range(rng.randint(0, 8))]
    n = int(rng.randint(1, 8))
    seed = int(rng.randint(2**31))
    mon.describe(dims=sh.dims, before=ops, n=n, seed=seed)
    here, there = both(mon, rng, 'obs', o, sh, seed, n)
    mon.true('shadow there', there[0] is None, 'after %s there: %s' % (there[1], there[0]))
    mon.event('updates there', len(there[1]))


def w_lists(mon, rng, idx):
    k = idx % 4
    if k == 3:
        mb, _ = gen.mbobs(rng, nband=rng.randint(1, 3), nepoch=rng.randint(1, 3), dims=(15, 16), wkind='const')
        x = make_kobs(mb)
        for ol in x:
            ol.meta['k'] = [1, {'a': 2}]
        if rng.randint(2):
            x = x[0]
        if rng.randint(3) == 0:
            there = answer(mon, 'look', send(mon, rng, 'look', x[0]))
            mon.same('same there', there, full(x[0]))
            return
    else:
        mb, _ = gen.mbobs(rng, nband=rng.randint(1, 4), nepoch=rng.randint(1, 4))
        x = mb if k else mb[0]
        if k == 2:
            x = ngmix.MultiBandObsList() if rng.randint(2) else ngmix.ObsList()
    x.update_meta_data({'a': 1, 'arr': rng.normal(size=3), 'l': [1, [2]]})
    mon.describe(kind=type(x).__name__, n=len(x))
    both(mon, rng, 'list', x, int(rng.randint(2**31)))
    # one observation in several places is still one
    if k == 1:
        ol = ngmix.ObsList()
        ol.append(mb[0][0])
        ol.append(mb[0][0])
        ol2 = pickle.loads(pickle.dumps(ol, protocol=int(rng.randint(2, 6))))
        mon.true('arrives', (ol2[0] is ol2[1]) and ol2[0] is not ol[0], 'one observation appended twice')


def w_mix(mon, rng, idx):
    if idx % 5 == 4:
        if rng.randint(2):
            g = gen.disk(rng, 0.95)
            x = ngmix.Shape(*g)
            for _ in range(rng.randint(3)):
                g = gen.disk(rng, 0.9)
                x.set_g1g2(*g)
        else:
            x, _ = gen.jacob(rng, (10, 12))
            for _ in range(rng.randint(3)):
                x.set_cen(row=rng.normal(), col=rng.normal())
        mon.describe(kind=type(x).__name__, x=repr(x))
        both(mon, rng, 'small', x, int(rng.randint(2**31)))
        return
    if idx % 20 == 3:
        gl = ngmix.gmix.GMixList() if rng.randint(2) else ngmix.gmix.MultiBandGMixList()
        for _ in range(rng.randint(1, 4)):
            e = p03.rand_gmix(rng)[0]
            if isinstance(gl, ngmix.gmix.MultiBandGMixList):
                e2 = ngmix.gmix.GMixList()
                e2.append(e)
                e = e2
            gl.append(e)
        mon.describe(kind=type(gl).__name__, n=len(gl))
        there = answer(mon, 'look', send(mon, rng, 'look', gl))
        mon.same('same there', there, full(gl))
        return
    g, kind, pars = p03.rand_gmix(rng)
    acts = [p03.act(rng, g, pars) for _ in range(rng.randint(0, 5))]
    fills = [[float(v) for v in pars()] for _ in range(2)] if pars else [[float(v) for v in gen.full_gmix_pars(rng, n=len(g)).ravel()]]
    mon.describe(kind=kind, acts=acts)
    both(mon, rng, 'mix', g, int(rng.randint(2**31)), fills)


def w_priors(mon, rng, idx):
    rs = np.random.RandomState(rng.randint(2**31))
    k = idx % 4
    n = int(rng.randint(1, 6))
    if k < 2:
        kind = p20.KINDS1[rng.randint(len(p20.KINDS1))]
        sp = p20.make1(rng, rs, kind)
        p = sp.obj
        p.sample(int(rng.randint(1, 5)))
        a, b = p20.points(rng, sp)
        x = a + b[:2]*int(rng.randint(2))
        what = [gen.pick(rng, ['array', 'scalar', 'sample', 'bounds']) for _ in range(rng.randint(1, 5))]
        mon.describe(kind=kind, what=what, n=n)
        both(mon, rng, 'prior', p, x, n, what)
    elif k == 2:
        o = gen.pick(rng, ['joint', 'joint', 'nd'])
        if o == 'nd':
            mix = p26.rand_mix(rng)
            g = GMixND(*mix, rng=rs)
            g.sample(2)
            if rng.randint(2):
                mix = p26.rand_mix(rng, nd=mix[1].shape[1])
                g.set_mixture(*mix)
            mon.describe(kind='nd', shape=mix[1].shape)
            both(mon, rng, 'nd', g, mix[1] + 0.1, n)
            return
        kind = gen.pick(rng, p21.KINDS)
        su = p21.Setup(rng, kind, shared=bool(rng.randint(2)))
        p = su.make()
        if rng.randint(2):
            p.sample(2)
        mon.describe(kind='joint ' + kind, nband=su.nband, shared=su.shared)
        x = [np.array(v) for v in su.points(rng, 3)]
        both(mon, rng, 'joint', p, x, n, su.npars + 6)
    else:
        p = gen.pick(rng, [
            lambda: P.CenPrior(0.1, 0.2, 0.3, 0.4, rng=rs), lambda: P.GPriorBA(0.3, rng=rs), lambda: P.ZDisk2D(0.8, rng=rs),
            lambda: P.ZAnnulus(0.2, 0.8, rng=rs) if hasattr(P, 'ZAnnulus') else P.ZDisk2D(0.5, rng=rs)])()
        mon.describe(kind=type(p).__name__, n=n)
        p.sample2d(2) if hasattr(p, 'sample2d') else p.sample(2)
        both(mon, rng, 'two', p, n)
    mon._count('generator')


def w_ops(mon, rng, idx):
    lst = sorted(p24.OPS)
    name = lst[idx % len(lst)]
    seed = int(rng.randint(2**31))
    iseed = int(rng.randint(2**31))
    mon.describe(op=name, seed=seed, iseed=iseed)
    i = p24.make(rng, iseed)
    if rng.randint(2):
        # used before it was sent
        p24.run(lst[rng.randint(len(lst))] if rng.randint(4) else name, i, seed)
    frozen = i.frozen()
    there = answer(mon, name, send(mon, rng, 'op', i, name, seed))
    here = p24.run(name, i, seed)
    d = snap.diff_snap(here[0], there[0][0])
    mon.true('same there', d is None, '%s: %s' % (name, d))
    d = snap.diff_snap(here[1], there[0][1])
    mon.true('generator', d is None, '%s: the generator: %s' % (name, d))
    mon.true('global-rng', there[1], '%s used a global random state there' % name)
    d = snap.diff_snap(frozen, there[2])
    mon.true('same there', d is None, '%s: inputs afterwards: %s' % (name, d))


def w_workers(mon, rng, idx):
    name = sorted(p24.REUSE)[idx % len(p24.REUSE)]
    make_one, uses = p24.REUSE[name]
    ins = [p24.make(rng) for _ in range(2)]
    f = make_one(np.random.RandomState(rng.randint(2**31)))
    pick = lambda: (int(rng.randint(2)), int(rng.randint(len(uses))))
    first = [pick() for _ in range(rng.randint(0, 3))]
    then = [pick() for _ in range(rng.randint(1, 4))]
    mon.describe(name=name, first=first, then=then)
    do_use(f, ins, name, first)
    here, there = both(mon, rng, 'use', f, ins, name, then)
    mon._count('generator')
    mon.event('uses there', len(then))


RESULTS = ['admom', 'admom-cen', 'em', 'em-sky', 'em-fixcen', 'em-fixcov', 'em-flux', 'fit-gauss', 'fit-exp', 'fit-dev', 'fit-bdf', 'fit-bd', 'fit-coellip',
           'fit-bounded', 'psfflux', 'psfflux-no', 'gs-exp', 'gs-kobs', 'gs-spergel', 'gs-moffat', 'gs-psfflux', 'runner', 'gaussmom', 'pgauss',
           'ksigma-kernel', 'weighted-moments', 'metacal', 'kobs', 'simobs-mb', 'shape', 'sheared', 'convolve', 'copy']


def w_results(mon, rng, idx):
    name = RESULTS[idx % len(RESULTS)]
    seed = int(rng.randint(2**31))
    mon.describe(op=name, seed=seed)
    i = p24.make(rng)
    try:
        here = do_raw(i, name, seed)
    except REFUSED as e:
        mon.event('raised')
        mon.trivial()
        return
    # sent away
    there = answer(mon, name, send(mon, rng, 'works', here))
    # made there and sent back
    st = send(mon, rng, 'raw', i, name, seed)
    if st[0] != 'ok':
        mon.fail('back', '%s %s: %s %s' % (name, st[0], st[1], st[2]))
    w = works(here)
    d = snap.diff_snap(w, there)
    mon.true('same there', d is None, '%s: the result there: %s' % (name, d))
    mon.true('back', type(st[1]) is type(here), '%s: a %s came back, not a %s' % (name, type(st[1]), type(here)))
    d = snap.diff_snap(w[0], full(p24.res(st[1])))
    mon.true('back', d is None, '%s: %s' % (name, d))
    d = snap.diff_snap(w, works(st[1]))
    mon.true('back works', d is None, '%s: %s' % (name, d))


def w_errors(mon, rng, idx):
    kind = ERRORS[idx % len(ERRORS)]
    seed = int(rng.randint(2**31))
    mon.describe(kind=kind, seed=seed)
    here = error_of(kind, seed)
    mon.true('exception', here is not None, kind, 'raised nothing')
    st = send(mon, rng, 'error', kind, seed)
    if st[0] != 'ok':
        mon.fail('exception', '%s: %s %s' % (kind, st[0], st[1]))
    e = st[1]
    mon.true('exception', type(e) is type(here) and str(e) == str(here) and full(list(e.args)) == full(list(here.args)),
             '%s: %r became %r' % (kind, here, e))


LOCAL = []


def warm():
    """compile everything before the processes are made"""
    LOCAL.append(1)
    try:
        for func, n in ((w_mix, 40), (w_priors, 40), (w_lists, 8), (w_obs, 8), (w_workers, 2*len(p24.REUSE)), (w_results, len(RESULTS)),
                        (w_ops, len(p24.OPS))):
            for idx in range(n):
                mon = Monitor()
                mon.begin('warm', idx)
                try:
                    func(mon, np.random.RandomState(idx), idx)
                except Violation:
                    pass
    finally:
        del LOCAL[:]


WORKLOADS = [
    Workload('obs', w_obs, quick=700, thorough=20000, warm=0),
    Workload('lists', w_lists, quick=200, thorough=4000, warm=0),
    Workload('mixtures', w_mix, quick=450, thorough=12000, warm=0),
    Workload('priors', w_priors, quick=450, thorough=12000, warm=0),
    Workload('operations', w_ops, quick=3*len(p24.OPS), thorough=40*len(p24.OPS), warm=0),
    Workload('workers', w_workers, quick=5*len(p24.REUSE), thorough=60*len(p24.REUSE), warm=0),
    Workload('results', w_results, quick=4*len(RESULTS), thorough=60*len(RESULTS), warm=0),
    Workload('errors', w_errors, quick=40, thorough=400, warm=0),
]
