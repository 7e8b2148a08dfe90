"""Joint priors: every component sees its own parameter, in every form."""
import numpy as np
import scipy.stats
import ngmix
from ngmix import joint_prior as J, priors as P
from ngmix.gexceptions import GMixRangeError
from vlib import gen
from vlib.core import Workload
from props import p20

PROP = 'P21'
RULE = """every joint prior (simple, galsim, bulge+disk, bulge+disk with fixed size ratio, Spergel, coelliptical), one to four bands,
components of random kinds (all different), evaluated in scalar, array and residual form against the sum of reference densities
of the components, inside and outside the support of one component at a time; bounds, samples (twin components and KS tests);
also with components that only record what they are asked; cases differ by joint prior, bands and components"""
REQUIRED = ['lnprob', 'prob', 'array', 'fdiff', 'slots', 'bounds', 'samples', 'own', 'shape', 'outside', 'inputs-kept', 'widths', 'refused',
            'record', 'generator', 'kind simple', 'kind galsim', 'kind bd', 'kind bdf', 'kind spergel', 'kind coellip', 'global']
KINDS = ['simple', 'galsim', 'bd', 'bdf', 'spergel', 'coellip']
EXTRA = {'simple': ['T'], 'galsim': ['T'], 'bd': ['T', 'logTratio', 'fracdev'], 'bdf': ['T', 'fracdev'], 'spergel': ['T', 'nu'], 'coellip': ['T']}
# which of them use the residual of the component itself
OWN_FDIFF = ('bd', 'bdf')
COMPS = {True: ['flat', 'erf', 'normal', 'lognormal', 'truncated'], False: ['flat', 'erf', 'normal', 'lognormal', 'truncated']}


def build(kind, cen, g, extra, F, ngauss=None, as_tuple=False):
    F = list(F)
    if len(F) == 1 and not as_tuple:
        F = F[0]
    elif as_tuple:
        F = tuple(F)
    if kind == 'simple':
        return J.PriorSimpleSep(cen, g, extra[0], F)
    if kind == 'galsim':
        return J.PriorGalsimSimpleSep(cen_prior=cen, g_prior=g, r50_prior=extra[0], F_prior=F)
    if kind == 'bd':
        return J.PriorBDSep(cen_prior=cen, g_prior=g, T_prior=extra[0], logTratio_prior=extra[1], fracdev_prior=extra[2], F_prior=F)
    if kind == 'bdf':
        return J.PriorBDFSep(cen_prior=cen, g_prior=g, T_prior=extra[0], fracdev_prior=extra[1], F_prior=F)
    if kind == 'spergel':
        return J.PriorSpergelSep(cen_prior=cen, g_prior=g, r50_prior=extra[0], nu_prior=extra[1], F_prior=F)
    return J.PriorCoellipSame(ngauss, cen, g, extra[0], F)


class Setup(object):
    def __init__(self, rng, kind, shared=False, comps=None):
        self.kind = kind
        self.ngauss = rng.randint(1, 5) if kind == 'coellip' else None
        self.nband = 1 if kind == 'coellip' else (rng.randint(1, 5) if rng.randint(5) else rng.randint(5, 9))
        self.seeds = rng.randint(2**31, size=30)
        self.par = rng.randint(2**31)
        self.comps = comps or COMPS[kind in OWN_FDIFF]
        self.tup = kind in ('bd', 'bdf') and rng.uniform() < 0.3
        self.onelist = rng.uniform() < 0.3
        self.shared = shared
        self.kinds = [gen.pick(rng, self.comps) for _ in range(len(EXTRA[kind]) + self.nband)]

    def make(self):
        """the joint prior, and the specifications of the components; the same every time"""
        rng = np.random.RandomState(self.par)
        it = iter(range(30))
        one = np.random.RandomState(self.seeds[0])
        rs = lambda: one if self.shared else np.random.RandomState(self.seeds[next(it)])
        self.c = rng.normal(size=2)
        self.s = np.array([gen.loguni(rng, 1e-2, 10), gen.loguni(rng, 1e-2, 10)])
        self.gs = gen.loguni(rng, 0.05, 2)
        cen = P.CenPrior(self.c[0], self.c[1], self.s[0], self.s[1], rs())
        g = P.GPriorBA(self.gs, rs())
        sp = [p20.make1(rng, rs(), k) for k in self.kinds]
        ne = len(EXTRA[self.kind])
        self.cen, self.g, self.sp = cen, g, sp
        F = [s.obj for s in sp[ne:]]
        o = build(self.kind, cen, g, [s.obj for s in sp[:ne]], F, self.ngauss, self.tup)
        # slot of every parameter after the shape
        if self.kind == 'coellip':
            self.slots = [sp[0]]*self.ngauss + [sp[1]]*self.ngauss
        else:
            self.slots = list(sp)
        self.npars = 4 + len(self.slots)
        return o

    def parts(self, x):
        """log probability of every parameter, the two of the shape in one: [n, npars-1]"""
        x = np.atleast_2d(x)
        out = [-0.5*(x[:, 0] - self.c[0])**2/self.s[0]**2, -0.5*(x[:, 1] - self.c[1])**2/self.s[1]**2, p20.lnp_ba(self.gs)(x[:, 2], x[:, 3])]
        for i, s in enumerate(self.slots):
            out.append(s.lnp(x[:, 4 + i]))
        return np.array(out).T

    def points(self, rng, n):
        x = np.zeros((n, self.npars))
        x[:, :2] = self.c + self.s*rng.normal(size=(n, 2))*2
        x[:, 2:4] = [gen.disk(rng, 0.98) for _ in range(n)]
        for i, s in enumerate(self.slots):
            x[:, 4 + i] = p20.inv_cdf(s, rng.uniform(0.01, 0.99, size=n))
        return x


def forms(mon, rng, idx):
    kind = KINDS[idx % 6]
    mon._count('kind ' + kind)
    su = Setup(rng, kind)
    o = su.make()
    mon.describe(kind=kind, kinds=su.kinds, nband=su.nband, ngauss=su.ngauss, par=su.par, tup=su.tup)
    g0 = p20.state(np.random.mtrand._rand)
    n = (rng.randint(1, 5) if rng.randint(5) else rng.randint(5, 9))
    x = su.points(rng, n)
    if n > 1 and rng.uniform() < 0.5:
        x = np.asfortranarray(x)
    keep = x.copy()
    parts = su.parts(x)
    want = parts.sum(axis=1)
    sc = 1 + abs(parts).max()
    for i in range(n):
        p = gen.pick(rng, [x[i], x[i].copy(), list(x[i]), tuple(x[i])])
        mon.close('lnprob', float(mon.returns('lnprob', o.get_lnprob_scalar, p)), want[i], rtol=1e-8, scale=sc)
        mon.close('prob', float(mon.returns('prob', o.get_prob_scalar, p)), np.exp(want[i]), rtol=1e-7*sc, atol=1e-300)
        nslot = su.npars - 1
        size = nslot + rng.randint(0, 4)
        fd = np.full(size, 77.25)
        got = mon.returns('fdiff', o.fill_fdiff, p, fd)
        mon.true('slots', got == nslot, 'slots', got, nslot)
        mon.true('slots', (fd[nslot:] == 77.25).all(), 'wrote past its slots')
        mon.close('fdiff', fd[:nslot]**2, -2*parts[i], rtol=1e-7, atol=3e-8, scale=1e-2)
        mon.close('fdiff', (fd[:nslot]**2).sum(), -2*want[i], rtol=1e-7, atol=3e-7)
        if kind in OWN_FDIFF:
            # signed: the residual of the component
            mon.close('fdiff', fd[:2], (np.array(x[i, :2]) - su.c)/su.s, rtol=1e-9, atol=1e-12)
        # far from the centre the residual keeps growing
        y = x[i].copy()
        k = rng.randint(2)
        y[k] = su.c[k] + su.s[k]*gen.loguni(rng, 30, 1e6)*gen.pick(rng, [-1, 1])
        fd = np.zeros(nslot)
        o.fill_fdiff(y, fd)
        mon.close('fdiff', abs(fd[k]), abs(y[k] - su.c[k])/su.s[k], rtol=1e-7, detail='far')
        mon.close('lnprob', float(o.get_lnprob_scalar(y)), su.parts(y)[0].sum(), rtol=1e-8, scale=sc, detail='far')
    # what the generic helpers take
    arr = mon.returns('array', o.get_lnprob_array, x)
    mon.close('array', arr, want, rtol=1e-8, scale=sc)
    mon.close('array', mon.returns('array', o.get_prob_array, x), np.exp(want), rtol=1e-7*sc, atol=1e-300)
    mon.same('inputs-kept', np.array(x), keep)
    # outside, one parameter at a time
    for i in range(su.npars):
        y = x[0].copy()
        if i < 2:
            continue
        if i < 4:
            y[i] = gen.pick(rng, [1.0 + 1e-9, -1.5, 7.0])
            how = 'raise'
        else:
            _, out = p20.points(rng, su.slots[i - 4])
            if not out:
                continue
            y[i] = gen.pick(rng, out)
            how = su.slots[i - 4].outside
        try:
            v = o.get_lnprob_scalar(y)
            mon.true('outside', how == 'low' and p20.low(v), 'no refusal outside the support of parameter', i, v)
            mon.true('outside', o.get_prob_scalar(y) < 1e-30, o.get_prob_scalar(y))
        except GMixRangeError:
            mon._count('outside')
        fd = np.zeros(su.npars - 1)
        try:
            o.fill_fdiff(y, fd)
            mon.true('outside', how == 'low' and (fd**2).sum() > 60, 'residuals outside the support of parameter', i, fd)
        except GMixRangeError:
            mon._count('outside')
        z = np.array([x[0], y])
        try:
            v = o.get_lnprob_array(z)
            mon.true('outside', p20.low(v[1]), 'array form outside the support of parameter', i, v)
            mon.close('outside', v[0], want[0], rtol=1e-8, scale=sc)
            mon.true('outside', o.get_prob_array(z)[1] < 1e-30)
        except GMixRangeError:
            mon._count('outside')
    bounds(mon, o, su)
    mon.true('global', p20.state(np.random.mtrand._rand) == g0)
    if kind == 'coellip':
        for bad in (x[0][:-1], np.append(x[0], 1.0)):
            mon.raises('refused', ValueError, o.get_lnprob_scalar, bad)
            mon.raises('refused', ValueError, o.fill_fdiff, bad, np.zeros(50))
        if su.ngauss:
            mon.raises('refused', ValueError, J.PriorCoellipSame, su.ngauss, su.cen, su.g, su.sp[0].obj, [su.sp[1].obj]*2)


def bounds(mon, o, su):
    exp = [(None, None)]*4
    anyb = False
    for s in su.slots:
        b = getattr(s, 'bounds', None)
        anyb = anyb or b is not None
        exp.append((None, None) if b is None else tuple(b))
    if not anyb:
        mon.true('bounds', o.bounds is None, o.bounds)
    else:
        mon.true('bounds', o.bounds is not None and len(o.bounds) == su.npars, o.bounds)
        mon.true('bounds', [tuple(b) for b in o.bounds] == exp, o.bounds, exp)


def boundsonly(mon, rng, idx):
    """components that have bounds but no density too"""
    kind = KINDS[idx % 6]
    su = Setup(rng, kind, comps=['lmbounds', 'normal', 'bounded', 'flat', 'sinh'])
    o = su.make()
    mon.describe(kind=kind, kinds=su.kinds, nband=su.nband, ngauss=su.ngauss)
    bounds(mon, o, su)
    if kind in OWN_FDIFF and 'bounded' not in su.kinds:
        x = su.points(rng, 1)[0]
        parts = su.parts(x)[0]
        fd = np.zeros(su.npars - 1)
        mon.true('slots', o.fill_fdiff(x, fd) == su.npars - 1)
        mon.close('fdiff', fd**2, -2*parts, rtol=1e-7, atol=1e-8)


def sampling(mon, rng, idx):
    kind = KINDS[idx % 6]
    mon._count('kind ' + kind)
    su = Setup(rng, kind, comps=['flat', 'erf', 'normal', 'lognormal', 'truncated', 'lmbounds', 'sinh', 'bounded'])
    n = gen.pick(rng, [1, 3, 1500])
    mon.describe(kind=kind, kinds=su.kinds, nband=su.nband, ngauss=su.ngauss, n=n, par=su.par)
    o = su.make()
    g0 = p20.state(np.random.mtrand._rand)
    x = o.sample(n) if rng.randint(2) else o.sample(nrand=n)
    mon.true('shape', x.shape == (n, su.npars) and np.isfinite(x).all(), x)
    one = o.sample()
    mon.true('shape', one.shape == (su.npars,) and np.isfinite(one).all(), one)
    mon.true('global', p20.state(np.random.mtrand._rand) == g0, 'global generator')
    # the same components on their own
    su.make()
    cols = [None]*su.npars
    cols[0], cols[1] = su.cen.sample(n)
    cols[2], cols[3] = su.g.sample2d(n)
    if kind != 'coellip':
        for i, s in enumerate(su.slots):
            cols[4 + i] = s.obj.sample(n)
        mon.same('own', x, np.array(cols).T.copy(), 'samples are not those of the components')
    else:
        mon.same('own', x[:, :4].copy(), np.array(cols[:4]).T.copy())
    if n > 100:
        t = [scipy.stats.norm(su.c[0], su.s[0]).cdf, scipy.stats.norm(su.c[1], su.s[1]).cdf]
        for i in range(2):
            mon.true('samples', scipy.stats.kstest(x[:, i], t[i]).pvalue > p20.PMIN, 'centre')
        f = p20.lnp_ba(su.gs)
        p20c = p20.radial_cdf(lambda v: f(v, 0*v), 1.0)
        mon.true('samples', scipy.stats.kstest(np.hypot(x[:, 2], x[:, 3]), p20c).pvalue > p20.PMIN, 'shape')
        for i, s in enumerate(su.slots):
            mon.true('samples', scipy.stats.kstest(x[:, 4 + i], p20.cdf_of(s)).pvalue > p20.PMIN, 'parameter', 4 + i)
        # independent of each other
        rk = np.argsort(np.argsort(x, axis=0), axis=0)
        cc = np.corrcoef(rk.T) - np.eye(su.npars)
        mon.true('samples', abs(cc).max() < 7.5/np.sqrt(n), 'parameters are correlated', abs(cc).max())
    # one generator for all
    sh = Setup(rng, kind, shared=True)
    a = sh.make().sample(5)
    np.random.uniform(size=3)
    b = sh.make().sample(5)
    mon.same('generator', a, b)


def widths(mon, rng, idx):
    kind = KINDS[idx % 6]
    su = Setup(rng, kind, comps=['normal', 'flat'])
    o = su.make()
    mon.describe(kind=kind, nband=su.nband)
    w = o.get_widths() if rng.randint(2) else o.get_widths(nrand=20000)
    mon.true('widths', w.shape == (su.npars,) and w[2] == 2.0 and w[3] == 2.0, w)
    exp = list(su.s) + [2.0, 2.0]
    for k, s in enumerate(su.slots):
        exp.append(s.obj.sigma if hasattr(s.obj, 'sigma') else (s.hi - s.lo)/np.sqrt(12))
    mon.close('widths', w, np.array(exp), rtol=0.06)
    mon.same('widths', o.get_widths(), w)


class Probe(object):
    """a component that records what it is asked for"""

    def __init__(self, name, log, rng, lim=None):
        self.name, self.log, self.rng, self.bounds = name, log, rng, lim

    def has_bounds(self):
        return self.bounds is not None

    def _v(self, form, *a):
        self.log.append((self.name, form) + tuple(a))
        return -float(len(self.log)) - 0.25

    def get_lnprob_scalar(self, *a):
        return self._v('l', *a)

    def get_lnprob_scalar2d(self, *a):
        return self._v('l', *a)

    def get_lnprob_scalar_sep(self, *a):
        return self._v('l', *a), self._v('l2', *a)

    def get_lnprob_array(self, *a):
        return np.full(a[0].shape, self._v('a', *[tuple(x) for x in a]))

    def get_lnprob_array2d(self, *a):
        return self.get_lnprob_array(*a)

    def get_fdiff(self, *a):
        v = self._v('f', *a)
        return (v, v - 0.5) if self.name == 'cen' else v

    def sample(self, n=None):
        self.log.append((self.name, 's', n))
        v = self.rng.normal(size=n)
        return (v, v + 1) if self.name == 'cen' else v

    sample2d = None


def record(mon, rng, idx):
    """each component is asked for its own parameter once, and nothing else"""
    kind = KINDS[idx % 6]
    ng = (rng.randint(1, 5) if rng.randint(5) else rng.randint(5, 9))
    nb = 1 if kind == 'coellip' else rng.randint(1, 7)
    log = []
    mk = lambda n: Probe(n, log, rng, None)
    extra = [mk(n) for n in EXTRA[kind]]
    F = [mk('F%d' % i) for i in range(nb)]
    o = build(kind, mk('cen'), mk('g'), extra, F, ng)
    mon.describe(kind=kind, nb=nb, ng=ng if kind == 'coellip' else 0)
    if kind == 'coellip':
        names = ['T']*ng + ['F0']*ng
    else:
        names = EXTRA[kind] + ['F%d' % i for i in range(nb)]
    npars = 4 + len(names)
    p = rng.normal(size=npars)
    exp = sorted([('cen', p[0], p[1]), ('g', p[2], p[3])] + [(n, v) for n, v in zip(names, p[4:])])
    tot = o.get_lnprob_scalar(p)
    mon.true('record', sorted([(c[0],) + c[2:] for c in log]) == exp, log, exp)
    mon.close('record', tot, sum(-(k + 1) - 0.25 for k in range(len(log))), rtol=1e-13)
    del log[:]
    arr = rng.normal(size=(3, npars))
    tot = o.get_lnprob_array(arr)
    exp = sorted([('cen', tuple(arr[:, 0]), tuple(arr[:, 1])), ('g', tuple(arr[:, 2]), tuple(arr[:, 3]))]
                 + [(n, tuple(arr[:, 4 + i])) for i, n in enumerate(names)])
    mon.true('record', sorted([(c[0],) + c[2:] for c in log]) == exp, log, exp)
    mon.close('record', tot, np.full(3, sum(-(k + 1) - 0.25 for k in range(len(log)))), rtol=1e-13)
    del log[:]
    fd = np.full(npars + 3, 1e30)
    n = o.fill_fdiff(p, fd)
    mon.true('record', n == npars - 1 and (fd[n:] == 1e30).all(), n, fd)
    # slot of each call, in the order of the parameters
    seen = {}
    for c in log:
        if c[1] != 'l2':
            seen.setdefault(c[0], []).append(c[2:])
    mon.true('record', seen.pop('cen') == [(p[0], p[1])] and seen.pop('g') == [(p[2], p[3])], log)
    for nm in set(names):
        mon.true('record', sorted(seen.pop(nm)) == sorted((v,) for q, v in zip(names, p[4:]) if q == nm), nm, log)
    mon.true('record', not seen, seen)
    # the value of a slot is that of its own parameter
    val = {}
    for k, c in enumerate(log):
        val.setdefault((c[0], c[2:]), []).append(-float(k + 1) - 0.25)
    for i, (nm, v) in enumerate(zip(names, p[4:])):
        w = val[(nm, (v,))][0]
        mon.close('record', fd[3 + i], w if kind in OWN_FDIFF else np.sqrt(-2*w), rtol=1e-13)


WORKLOADS = [Workload('forms', forms, 900, 18000), Workload('boundsonly', boundsonly, 300, 4000), Workload('sampling', sampling, 300, 6000),
             Workload('widths', widths, 24, 300), Workload('record', record, 600, 6000)]
