"""Bounded least squares against plain least squares, with every evaluation watched."""
import numpy as np
import scipy.optimize
import ngmix
from ngmix import flags as F
from ngmix.fitting.leastsqbound import leastsqbound, run_leastsq
from vlib import gen
from vlib.core import Workload

PROP = 'P14'
RULE = """random least-squares problems (linear ones of every size, exponential decay, gaussian peak, rosenbrock, problems with
prior residuals and with complex data), bounds of every kind per parameter (none, lower, upper, both; far, near, active, on the
guess), with and without analytic derivatives; every point the function is called at is recorded and checked; and hostile
functions (not finite everywhere, in places or after a while, singular, constant, dividing by zero, too few residuals,
too few evaluations); cases differ by problem, bounds and options"""
REQUIRED = ['inside', 'returned-inside', 'unbounded-optimum', 'covariance', 'no-bounds', 'wrapper-cov', 'wrapper-errors',
            'no-false-success', 'entries', 'not-finite', 'singular', 'zero-dof', 'maxfev', 'div-zero', 'refused', 'derivative',
            'active', 'gave-up']
KNOWN = 15 | F.LM_SINGULAR_MATRIX | F.LM_NEG_COV_EIG | F.LM_NEG_COV_DIAG | F.LM_FUNC_NOTFINITE | F.EIG_NOTFINITE \
    | F.DIV_ZERO | F.ZERO_DOF
ENTRIES = ['flags', 'nfev', 'errmsg', 'pars', 'pars_err', 'pars_cov', 'pars_cov0']


class Problem(object):
    """residuals, their derivatives, the truth; remembers where it was asked"""

    def __init__(self, rng, kind=None):
        self.kind = kind or gen.pick(rng, ['linear', 'linear', 'decay', 'peak', 'rosen'])
        self.calls = []
        self.noise = gen.pick(rng, [0.0, 0.01, 0.1])
        if self.kind == 'linear':
            self.n = rng.randint(1, 6)
            self.m = self.n + rng.randint(1, 30)
            self.A = rng.normal(size=(self.m, self.n))
            self.x = rng.normal(size=self.n)*gen.loguni(rng, 0.1, 100)
            self.d = self.A @ self.x
            self.noise *= abs(self.d).max()
        elif self.kind == 'decay':
            self.n, self.m = 3, rng.randint(10, 40)
            self.t = np.linspace(0, 3, self.m)
            self.x = np.array([rng.uniform(1, 3), rng.uniform(0.5, 2), rng.uniform(-1, 1)])
            self.d = self.model(self.x)
        elif self.kind == 'peak':
            self.n, self.m = 3, rng.randint(10, 40)
            self.t = np.linspace(-3, 3, self.m)
            self.x = np.array([rng.uniform(1, 3), rng.uniform(-1, 1), rng.uniform(0.4, 1.5)])
            self.d = self.model(self.x)
        else:
            self.n, self.m = 2, 2
            self.x = np.array([1.0, 1.0])
            self.d = np.zeros(2)
            self.noise = 0
        self.d = self.d + self.noise*rng.normal(size=self.m)
        self.guess = self.x*(1 + 0.15*rng.uniform(-1, 1, size=self.n)) + 0.05*rng.uniform(-1, 1, size=self.n)

    def model(self, p):
        if self.kind == 'linear':
            return self.A @ p
        if self.kind == 'decay':
            return p[0]*np.exp(-p[1]*self.t) + p[2]
        if self.kind == 'peak':
            return p[0]*np.exp(-0.5*((self.t - p[1])/p[2])**2)
        return np.array([10*(p[1] - p[0]**2), 1 - p[0]])

    def __call__(self, p, *args):
        self.calls.append(np.array(p))
        if args:
            assert args == (3.0,), args
        return self.model(np.array(p)) - self.d

    def jac(self, p, *args):
        self.calls.append(np.array(p))
        if self.kind == 'linear':
            return self.A.copy()
        if self.kind == 'decay':
            e = np.exp(-p[1]*self.t)
            return np.column_stack([e, -p[0]*self.t*e, np.ones(self.m)])
        if self.kind == 'peak':
            z = (self.t - p[1])/p[2]
            e = np.exp(-0.5*z*z)
            return np.column_stack([e, p[0]*e*z/p[2], p[0]*e*z*z/p[2]])
        return np.array([[-20*p[0], 10.0], [-1.0, 0.0]])

    def jact(self, p, *args):
        return self.jac(p, *args).T

    def chi2(self, p):
        return ((self.model(p) - self.d)**2).sum()


def rand_bounds(rng, prob, opt, kind):
    """bounds around guess (and optimum, unless active)"""
    out, active = [], False
    for g, o in zip(prob.guess, opt):
        k = gen.pick(rng, ['none', 'low', 'high', 'both'])
        lo, hi = min(g, o), max(g, o)
        w = {'far': 100.0, 'mid': 5.0, 'near': 1.0, 'active': 1.0, 'on-guess': 1.0}[kind]*max(hi - lo, abs(o)*0.3, 0.1)
        a, b = lo - w*rng.uniform(0.5, 2), hi + w*rng.uniform(0.5, 2)
        if kind == 'active' and k != 'none' and rng.randint(2):
            # the optimum is beyond a bound
            if o > g:
                b = 0.5*(o + g)
                active = active or k in ('high', 'both')
            else:
                a = 0.5*(o + g)
                active = active or k in ('low', 'both')
        if kind == 'on-guess' and rng.randint(2):
            a = g
        a, b = float(a), float(b)
        out.append({'none': (None, None), 'low': (a, None), 'high': (None, b), 'both': (a, b)}[k])
    return out, active


def check_inside(mon, prob, bounds, tag=''):
    c = np.array(prob.calls)
    for i, (lo, hi) in enumerate(bounds):
        mon._count('inside')
        # the sine and square root give the bound itself to within a few units of the last place
        if lo is not None and not (c[:, i] >= lo - 8e-16*(1 + abs(lo) + (abs(hi) if hi is not None else 0))).all():
            mon.fail('inside', 'parameter %d evaluated at %r below %r %s' % (i, np.nanmin(c[:, i]), lo, tag))
        if hi is not None and not (c[:, i] <= hi + 8e-16*(1 + abs(hi) + (abs(lo) if lo is not None else 0))).all():
            mon.fail('inside', 'parameter %d evaluated at %r above %r %s' % (i, np.nanmax(c[:, i]), hi, tag))
        mon.event('points inside bounds checked', len(c))


def inside(x, bounds, eps=1e-15):
    return all((lo is None or v >= lo - eps*(1 + abs(lo))) and (hi is None or v <= hi + eps*(1 + abs(hi)))
               for v, (lo, hi) in zip(x, bounds))


def bounded(mon, rng, idx):
    prob = Problem(rng)
    tol = dict(ftol=1e-11, xtol=1e-11)
    x, cov, info, msg, ier = scipy.optimize.leastsq(prob, prob.guess, full_output=1, **tol)
    kind = gen.pick(rng, ['far', 'mid', 'near', 'active', 'on-guess'])
    bounds, active = rand_bounds(rng, prob, x, kind)
    how = gen.pick(rng, ['diff', 'diff', 'jac', 'jact'])
    kw = dict(tol)
    if how == 'jac':
        kw.update(Dfun=prob.jac)
    elif how == 'jact':
        kw.update(Dfun=prob.jact, col_deriv=1)
    if rng.randint(2):
        kw['args'] = gen.pick(rng, [(3.0,), 3.0])
    mon.describe(kind=prob.kind, n=prob.n, m=prob.m, noise=prob.noise, bounds=kind, which=bounds, how=how)
    prob.calls = []
    g0 = prob.guess.copy()
    out = leastsqbound(prob, g0, bounds=bounds, full_output=1, **kw)
    mon.true('inputs', np.array_equal(g0, prob.guess), 'guess changed')
    xb, cb, ib, mb, eb = out
    check_inside(mon, prob, bounds, how)
    mon.true('returned-inside', inside(xb, bounds), xb, bounds)
    if how == 'diff':
        mon.true('nfev', len(prob.calls) - ib['nfev'] in (0, 1, 2), len(prob.calls), ib['nfev'])
    mon.close('returned-value', ib['fvec'], prob.model(xb) - prob.d, rtol=1e-6, scale=np.abs(prob.d).max() + 1, detail='fvec')
    # the same without full output
    prob.calls = []
    xs, es = leastsqbound(prob, prob.guess.copy(), bounds=bounds, **kw)
    mon.same('repeat', [xs, int(es)], [xb, int(eb)])
    check_inside(mon, prob, bounds, how)
    if eb in (1, 2, 3, 4) and ier in (1, 2, 3, 4) and not active and kind in ('far', 'mid', 'near'):
        c2, cr = prob.chi2(xb), prob.chi2(x)
        sc = (np.abs(prob.d)**2).sum() + 1
        mon.true('unbounded-optimum', c2 <= cr*(1 + 1e-6) + 1e-9*sc, 'chi2', c2, 'reachable', cr, xb, x)
        J = prob.jac(xb)
        A = J.T @ J
        if np.linalg.cond(A) < 1e6:
            tolx = 1e-4*(1 + np.abs(x)) if prob.noise == 0 else 1e-2*np.sqrt(np.diag(np.linalg.inv(A))*(cr/max(prob.m - prob.n, 1))) + 1e-6*(1 + np.abs(x))
            mon.true('unbounded-optimum', (np.abs(xb - x) < tolx).all(), xb, x)
            C = np.linalg.inv(A)
            mon.true('covariance', cb is not None, 'no covariance')
            d = np.sqrt(np.diag(C))
            mon.close('covariance', cb/np.outer(d, d), C/np.outer(d, d), rtol=0, atol=2e-2, detail=how)
            mon.close('covariance', cb/np.outer(d, d), cov/np.outer(d, d), rtol=0, atol=2e-2)
            if how != 'diff':
                mon._count('derivative')
    if active:
        mon._count('active')
        c0 = prob.chi2(prob.guess)
        mon.true('active', prob.chi2(xb) <= c0*(1 + 1e-12), 'worse than the guess')
    # wrong input
    mon.raises('refused', ValueError, leastsqbound, prob, prob.guess, bounds=bounds + [(None, None)])
    mon.raises('refused', TypeError, leastsqbound, lambda p: p[:1].sum()*np.ones(1), np.ones(3), bounds=[(None, None)]*3)
    # no bounds: plain least squares
    prob.calls = []
    a = leastsqbound(prob, prob.guess.copy(), full_output=1, **kw)
    b = scipy.optimize.leastsq(prob, prob.guess.copy(), full_output=1, **kw)
    mon.same('no-bounds', [a[0], a[1], a[3], a[4]], [b[0], b[1], b[3], b[4]])
    mon.same('no-bounds', a[2]['fvec'], b[2]['fvec'])
    # bounds that do not bind
    n = prob.n
    c = leastsqbound(prob, prob.guess.copy(), bounds=[(None, None)]*n, full_output=1, **kw)
    mon.close('no-bounds', c[0], a[0], rtol=1e-6, atol=1e-6*(1 + abs(x).max()))
    if a[1] is not None and np.linalg.cond(prob.jac(x)) < 1e4:
        mon.true('no-bounds', c[1] is not None)
        d = np.sqrt(np.diag(a[1]))
        mon.close('no-bounds', c[1]/np.outer(d, d), a[1]/np.outer(d, d), rtol=0, atol=1e-3)


def check_common(mon, res, n):
    for k in ENTRIES:
        mon.true('entries', k in res, 'no', k)
    mon.true('entries', np.shape(res['pars']) == (n,) and np.shape(res['pars_err']) == (n,) and
             np.shape(res['pars_cov']) == (n, n), np.shape(res['pars']), np.shape(res['pars_cov']))
    mon.true('entries', int(res['flags']) & ~KNOWN == 0 and res['flags'] >= 0, res['flags'])
    if res['flags'] == 0:
        mon.true('no-false-success', np.isfinite(res['pars']).all() and np.isfinite(res['pars_err']).all()
                 and np.isfinite(res['pars_cov']).all() and (res['pars_err'] >= 0).all(), res['pars'], res['pars_err'])


def wrapper(mon, rng, idx):
    """run_leastsq scales the covariance with the data residuals only"""
    prob = Problem(rng, gen.pick(rng, ['linear', 'decay', 'peak']))
    if prob.noise == 0:
        prob.noise = 0.05
        prob.d = prob.d + 0.05*rng.normal(size=prob.m)
    npr = int(gen.pick(rng, [0, 0, 1, prob.n]))
    kspace = bool(rng.randint(2))
    if kspace and prob.m % 2:
        kspace = False
    # residuals in any unit
    unit = gen.loguni(rng, 1e-12, 1e12) if rng.randint(3) == 0 and npr == 0 else 1.0
    pc, pw = prob.x[:npr]*1.01, (1 + abs(prob.x[:npr]))*rng.uniform(0.1, 10, size=npr)

    def func(p):
        r = prob(p)*unit
        return np.concatenate([(p[:npr] - pc)/pw, r])

    def jac(p):
        J = np.zeros((npr, prob.n))
        J[range(npr), range(npr)] = 1/pw
        return np.vstack([J, prob.jac(p)*unit])
    x, cov, info, msg, ier = scipy.optimize.leastsq(func, prob.guess, full_output=1, ftol=1e-11, xtol=1e-11)
    kind = gen.pick(rng, ['none', 'far', 'mid', 'near'])
    bounds = None if kind == 'none' else rand_bounds(rng, prob, x, kind)[0]
    mon.describe(kind=prob.kind, n=prob.n, m=prob.m, nprior=npr, kspace=kspace, bounds=bounds, unit=unit)
    prob.calls = []
    kw = dict(ftol=1e-11, xtol=1e-11)
    if kspace or rng.randint(2):
        kw['k_space'] = kspace
    if bounds is not None or rng.randint(2):
        kw['bounds'] = bounds
    g = prob.guess.copy()
    res = run_leastsq(func, g, npr, **kw)
    mon.true('inputs', np.array_equal(g, prob.guess), 'guess changed')
    check_common(mon, res, prob.n)
    if bounds is not None:
        check_inside(mon, prob, bounds)
        mon.true('returned-inside', inside(res['pars'], bounds), res['pars'], bounds)
    dof = (prob.m//2 if kspace else prob.m) - prob.n
    mon.event('flags %d' % res['flags'])
    if dof == 0:
        mon.true('zero-dof', res['flags'] != 0, 'no degrees of freedom but no flag')
        return
    if dof < 0:
        mon.true('zero-dof', res['flags'] != 0, 'negative degrees of freedom but no flag')
        return
    J = jac(res['pars'])
    A = J.T @ J
    if res['flags'] == 0 and np.linalg.cond(A) < 1e6:
        r = func(res['pars'])[npr:]
        s_sq = (r*r).sum()/dof
        C = np.linalg.inv(A)
        d = np.sqrt(np.diag(C))
        mon.close('wrapper-cov', res['pars_cov0']/np.outer(d, d), C/np.outer(d, d), rtol=0, atol=3e-2)
        mon.close('wrapper-cov', res['pars_cov'], res['pars_cov0']*s_sq, rtol=1e-9)
        mon.close('wrapper-errors', res['pars_err'], np.sqrt(np.diag(res['pars_cov'])), rtol=1e-12)
        mon.true('wrapper-cov', res['ier'] in (1, 2, 3, 4) and res['nfev'] > 0, res['ier'], res['nfev'])
        g0 = (J.T @ func(res['pars']))
        mon.close('unbounded-optimum', (np.linalg.inv(A) @ g0)/np.sqrt(np.diag(C)*s_sq + 1e-300), np.zeros(prob.n), rtol=0, atol=0.02 + 1e-6*unit/np.sqrt(s_sq + 1e-300))


def hostile(mon, rng, idx):
    kind = gen.pick(rng, ['nan', 'inf', 'nan-later', 'nan-region', 'singular', 'constant', 'zerodiv', 'zerodiv-later', 'exact',
                          'toofew', 'fewer', 'maxfev', 'huge', 'guess-nan', 'guess-outside', 'lowval', 'other-error', 'tiny', 'stepwise',
                          'nan-param', 'tight', 'tight'])
    prob = Problem(rng, gen.pick(rng, ['linear', 'decay', 'peak']))
    n = prob.n
    state = dict(k=0)
    start = rng.randint(1, 30)
    guess = prob.guess.copy()
    thresh = guess[0] + 0.01*rng.normal()
    use = gen.pick(rng, [None, 'free', 'wide'])
    bounds = None
    if use == 'free':
        bounds = [(None, None)]*n
    elif use == 'wide':
        bounds = [(float(min(g, t) - 10), float(max(g, t) + 10)) for g, t in zip(guess, prob.x)]
    kw = dict(bounds=bounds) if use else {}

    Other = type('Other', (gen.pick(rng, [Exception, TypeError, ValueError, RuntimeError]),), {})

    def func(p):
        state['k'] += 1
        r = prob(p)
        if kind == 'nan' or kind == 'nan-later' and state['k'] > start or kind == 'nan-region' and p[0] > thresh:
            r[rng.randint(r.size)] = np.nan
        if kind == 'nan-param':
            r = r + (np.nan if not np.isfinite(p).all() else 0)
        if kind == 'inf':
            r[0] = gen.pick(rng, [np.inf, -np.inf])
        if kind == 'constant':
            return np.full(r.size, 2.0)
        if kind == 'lowval':
            return np.full(r.size, -np.inf)
        if kind == 'zerodiv' or kind == 'zerodiv-later' and state['k'] > start:
            1/0
        if kind == 'other-error':
            raise Other('x')
        if kind == 'huge':
            r = r*1e200
        if kind == 'tiny':
            r = r*1e-200
        if kind == 'stepwise':
            r = np.round(r)
        return r
    f = func
    npr = 0
    if kind == 'singular':
        n += 1
        guess = np.array(list(guess) + [1.0])
        if bounds:
            bounds.append((None, None))

        def f(p):
            return func(p[:-1])
    if kind in ('exact', 'fewer'):
        m = prob.m = n if kind == 'exact' or n == 1 else rng.randint(1, n)
        if prob.kind == 'linear':
            prob.A = prob.A[:m]
        else:
            prob.t = prob.t[:m]
        prob.d = prob.d[:m]
    if kind == 'toofew':
        # as many residuals as parameters only with the priors
        npr = prob.m - rng.randint(0, n)
    if kind == 'maxfev':
        kw['maxfev'] = int(rng.randint(1, n + 1))
    if kind == 'tight':
        # precision that cannot be reached: the optimiser gives up in one of several ways
        t = gen.pick(rng, ['ftol', 'xtol', 'gtol', 'all'])
        kw.update({k: 0.0 if t in (k, 'all') or k == 'gtol' else 1e-300 for k in ('ftol', 'xtol', 'gtol')})
        if t == 'gtol':
            kw.update(ftol=0.0, xtol=0.0, gtol=1e-300)
    if kind == 'guess-nan':
        guess[rng.randint(n)] = gen.pick(rng, [np.nan, np.inf])
    if kind == 'guess-outside':
        bounds = [(float(g) + 1.0, float(g) + 2.0) for g in guess]
        kw = dict(bounds=bounds)
    mon.describe(hostile=kind, kind=prob.kind, n=n, m=prob.m, use=use, start=start, npr=npr)
    if kind == 'other-error':
        mon.raises('other-errors', Other, run_leastsq, f, guess, npr, **kw)
        return
    res = mon.returns('no-crash', run_leastsq, f, guess, npr, **kw)
    check_common(mon, res, n)
    mon.event('%s flags %d' % (kind, res['flags']))
    fl = int(res['flags'])
    if kind in ('nan', 'inf', 'lowval', 'guess-nan'):
        mon.true('not-finite', fl != 0, 'success with', kind, res['pars'], res['pars_err'])
    elif kind in ('singular', 'constant'):
        mon.true('singular', fl != 0, 'success with', kind)
    elif kind in ('zerodiv',):
        mon.true('div-zero', fl == F.DIV_ZERO, fl)
    elif kind in ('exact', 'fewer'):
        mon.true('zero-dof', fl != 0, fl)
        mon.event(kind)
    elif kind == 'toofew':
        mon.true('zero-dof', fl != 0, fl)
    elif kind == 'tight':
        ier = res.get('ier', 0)
        mon.event('tight: ier %d' % ier)
        if not use:
            a = scipy.optimize.leastsq(func, guess.copy(), full_output=1, **{k: v for k, v in kw.items() if k != 'bounds'})
            mon.true('gave-up', ier == a[4], ier, a[4])
        mon.true('gave-up', fl != 0 or ier <= 4 and res['pars_cov0'] is not None, 'success with the optimiser saying', ier, res['errmsg'])
    elif kind == 'maxfev':
        mon.true('maxfev', fl != 0, fl, res['nfev'])
    elif kind == 'guess-outside':
        mon.true('returned-inside', fl != 0 or inside(res['pars'], bounds), res['pars'], bounds)
    if fl == 0:
        # a success is one: the function is finite there
        with np.errstate(all='ignore'):
            mon.true('no-false-success', np.isfinite(prob.model(res['pars'][:prob.n])).all(), res['pars'])


WORKLOADS = [
    Workload('bounded', bounded, 2500, 40000),
    Workload('wrapper', wrapper, 2000, 30000),
    Workload('hostile', hostile, 2000, 20000),
]
