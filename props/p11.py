"""Adaptive moments against a numpy implementation and the algebra of its own result."""
import numpy as np
import ngmix
from ngmix.admom import AdmomFitter, run_admom, find_cen_admom
from ngmix import flags as F
from vlib import gen, ref, snap
from vlib.core import Workload
from props.p10 import text

PROP = 'P11'
RULE = """random images (elliptical galaxies near and far from the guess, noise, blank, negative, truncated, masked, two objects),
guesses as sizes or mixtures (near, far, tiny, huge, with other normalisation), tolerances, shift limits, iteration limits,
centre-only fits, all jacobians; the result is compared with sums over the pixels weighted with the reported gaussian, and
with a numpy run of the algorithm where that is stable against rounding; cases differ by image, guess and settings"""
REQUIRED = ['success-valid', 'sums', 'flux', 'errors', 'shift', 'iterations', 'fixed-point', 'algorithm', 'reason',
            'failed-nan', 'flagstr', 'inputs-kept', 'repeat', 'gmix', 'steps', 'starts', 'cenonly', 'find-cen', 'size-guess', 'finish']
LOW = 1e-200


try:
    from numba import njit
    from ngmix.fastexp_nb import fexp as _fexp

    @njit
    def _table_exp(x, out):
        for i in range(x.size):
            out[i] = _fexp(x[i])
except ImportError:
    _table_exp = None


def table_exp(x):
    out = np.zeros(x.size)
    _table_exp(x, out)
    return out


EXP = [np.exp]


def weight(cen, cov, v, u, area, p=1.0):
    irr, irc, icc = cov
    det = irr*icc - irc*irc
    dv, du = v - cen[0], u - cen[1]
    chi2 = (icc*dv*dv + irr*du*du - 2*irc*dv*du)/det
    ok = (chi2 < 25) & (chi2 >= 0)
    norm = 1/(2*np.pi*np.sqrt(det))
    return np.where(ok, p*norm*EXP[0](-0.5*np.where(ok, chi2, 0))*area, 0), chi2


def deweight(W, M):
    """covariance with inverse M^-1 - W^-1"""
    w = np.array([[W[0], W[1]], [W[1], W[2]]])
    m = np.array([[M[0], M[1]], [M[1], M[2]]])
    if not degenerate(m) and not degenerate(w):
        if m[0, 0]*m[1, 1] - m[0, 1]**2 <= LOW or w[0, 0]*w[1, 1] - w[0, 1]**2 <= LOW:
            return None
        n = np.linalg.inv(m) - np.linalg.inv(w)
        if abs(np.linalg.det(n)) < 1e-3*abs(np.trace(np.linalg.inv(w)))**2:
            # at the mercy of rounding
            raise Degenerate
        if n[0, 0]*n[1, 1] - n[0, 1]**2 <= LOW:
            return None
        if not degenerate(n):
            c = np.linalg.inv(n)
            return c[0, 0], c[0, 1], c[1, 1]
    raise Degenerate


class Degenerate(Exception):
    pass


def degenerate(m):
    t = m[0, 0] + m[1, 1]
    return not abs(m[0, 0]*m[1, 1] - m[0, 1]**2) > 1e-5*t*t


def moments(cen, cov, v, u, val, area, p, jig):
    W, chi2 = weight(cen, cov, v, u, area, p)
    W = W*jig
    s = (W*val).sum()
    dv, du = v - cen[0], u - cen[1]
    if s <= 0:
        return s, None
    return s, ((W*val*(du*du - dv*dv)).sum()/s, (W*val*2*dv*du).sum()/s, (W*val*(du*du + dv*dv)).sum()/s)


def reference(comp, v, u, val, area, conf, jig):
    """flags, numiter, cen, cov"""
    p, row, col, irr, irc, icc = comp
    cen, cov = np.array([row, col]), (irr, irc, icc)
    orig = cen.copy()
    old = (np.nan, np.nan, np.nan)
    fl = 0
    with np.errstate(all='ignore'):
        for i in range(conf['maxiter']):
            det = cov[0]*cov[2] - cov[1]**2
            if not det >= LOW:
                fl = F.LOW_DET
                break
            if degenerate(np.array([[cov[0], cov[1]], [cov[1], cov[2]]])) or cov[0] <= 0:
                raise Degenerate
            W, _ = weight(cen, cov, v, u, area, p)
            W = W*jig
            s = (W*val).sum()
            if abs(s) < 1e-12*(W.max()*abs(val).max()):
                raise Degenerate
            if s <= 0:
                fl = F.NONPOS_FLUX
                break
            cen = np.array([(W*val*v).sum()/s, (W*val*u).sum()/s])
            if (abs(cen - orig) > conf['shiftmax']).any():
                fl = F.CEN_SHIFT
                break
            s, m = moments(cen, cov, v, u, val, area, p, jig)
            if s <= 0:
                fl = F.NONPOS_FLUX
                break
            M1, M2, T = m
            if abs(T) < 1e-6*area or abs(T) < 1e-6*(cov[0] + cov[2]):
                raise Degenerate
            if T <= 0:
                fl = F.NONPOS_SIZE
                break
            e1, e2 = M1/T, M2/T
            if abs(e1 - old[0]) < conf['etol'] and abs(e2 - old[1]) < conf['etol'] and abs(T/old[2] - 1) < conf['Ttol']:
                break
            if not conf['cenonly']:
                c = deweight(cov, (0.5*(T - M1), 0.5*M2, 0.5*(T + M1)))
                if c is None:
                    fl = F.LOW_DET
                    break
                cov = c
            old = (e1, e2, T)
        if i + 1 == conf['maxiter']:
            fl = F.MAXITER
    return fl, i + 1, cen, np.array(cov)


NANS = ['flux', 'flux_err', 'T', 'T_err', 's2n', 'e1', 'e2', 'e1err', 'e2err']


def rand_case(rng):
    dims = gen.dims(rng, 5, 32)
    jp, jkind = gen.jac_pars(rng, dims)
    rj = ref.Jac(*jp)
    s = np.sqrt(rj.area)
    kind = gen.pick(rng, ['gal']*6 + ['noisy', 'noisy', 'noise', 'blank', 'neg', 'two', 'trunc', 'const', 'point'])
    T = s**2*gen.loguni(rng, 1.5, (min(dims)/3.0)**2 + 2)
    g = gen.disk(rng, 0.7)
    c = rng.normal(size=2)*s*gen.pick(rng, [0.1, 0.5, 2])
    comp = np.array([[gen.loguni(rng, 0.01, 1e3), c[0], c[1]] + list(ref.cov_of(g[0], g[1], T))])
    if rng.uniform() < 0.3:
        k2 = comp.copy()
        k2[0, 3:] *= 3
        comp = np.vstack([comp, k2])
    if kind == 'two':
        k2 = comp.copy()
        k2[:, 1:3] += rng.normal(size=2)*4*s
        comp = np.vstack([comp, k2])
    if kind == 'trunc':
        comp[:, 1:3] += rj.m @ (np.array(dims)*0.45*rng.choice([-1, 1], size=2))
    if kind == 'point':
        comp[:, 3:] *= 0.05
    im = ref.render(comp, dims, rj)
    sig = max(im.max(), 1e-10)*gen.loguni(rng, 1e-4, 1e-2)
    if kind == 'noisy':
        sig = im.max()*gen.loguni(rng, 0.05, 0.5)
    if kind == 'noise':
        im = im*0
        sig = 1.0
    elif kind == 'neg':
        im = -im
    elif kind == 'const':
        im = np.full(dims, 1.0)
        sig = 1e-3
    im = im + sig*rng.normal(size=dims)
    if kind == 'blank':
        im = np.zeros(dims)
    w, wkind = gen.weight_map(rng, dims, gen.pick(rng, ['const', 'vary', 'zeros', 'stripe', 'neg', 'vary']))
    w = w/np.median(w[w > 0])/sig**2
    gk = gen.pick(rng, ['near', 'near', 'truth', 'far', 'tiny', 'huge', 'norm'])
    gc = comp[:1].copy()
    gc[0, 0] = 1.0
    if gk != 'truth':
        a = {'near': 0.2, 'norm': 0.2, 'far': 1.0, 'tiny': 0.2, 'huge': 0.2}[gk]
        gg = gen.disk(rng, 0.5)
        gc[0, 1:3] += a*s*rng.normal(size=2)
        gc[0, 3:] = ref.cov_of(gg[0], gg[1], T*np.exp(a*rng.normal()))
    gc[0, 3:] *= {'tiny': 1e-3, 'huge': 1e3}.get(gk, 1.0)
    if gk == 'norm':
        gc[0, 0] = gen.loguni(rng, 1e-2, 1e2)
    return dims, jp, jkind, rj, s, im, kind, w, wkind, gc, gk, T


def check_success(mon, res, obs, v, u, val, w, area, conf, gc, izero=False):
    """everything in an unflagged result follows from the reported gaussian"""
    mon.true('iterations', 1 <= res['numiter'] < conf['maxiter'], res['numiter'], conf['maxiter'])
    par = np.array(res['pars'])
    cen = par[:2]
    irr, irc, icc = 0.5*(par[4] - par[2]), 0.5*par[3], 0.5*(par[4] + par[2])
    det = irr*icc - irc*irc
    mon.true('success-valid', np.isfinite(par).all() and par[4] > 0 and det > -1e-7*par[4]**2 and irr >= 0 and icc >= 0, 'pars', par)
    if det < 1e-6*par[4]**2:
        # all the light in one row of pixels: a degenerate ellipse, its determinant rounding error
        mon.event('degenerate ellipse')
        return
    mon.true('shift', (np.abs(cen - gc[0, 1:3]) <= conf['shiftmax']*(1 + 1e-9)).all(), cen, gc[0, 1:3], conf['shiftmax'])
    W, chi2 = weight(cen, (irr, irc, icc), v, u, area, gc[0, 0])
    pmax = W.max()
    dv, du = v - cen[0], u - cen[1]
    Fv = np.array([v, u, du*du - dv*dv, 2*dv*du, du*du + dv*dv, np.ones(v.size), chi2**2])
    r2 = du*du + dv*dv
    Fm = np.array([abs(v), abs(u), r2, r2, r2, np.ones(v.size), chi2**2])
    s = (Fv*W*val).sum(axis=1)
    sm = (Fm*np.abs(W*val)).sum(axis=1)
    c = np.einsum('ik,jk,k->ij', Fv, Fv, W**2/w)
    cm = np.einsum('ik,jk,k->ij', Fm, Fm, W**2/w)
    tol = 2e-4
    mon.true('sums', res['npix'] == v.size, res['npix'], v.size)
    mon.close('sums', res['wsum'], W.sum(), rtol=tol)
    mon.close('sums', res['sums_norm'], res['wsum'], rtol=0)
    # components at the cut
    mon.close('sums', res['sums'], s, rtol=tol, scale=sm + 1e-5*pmax*np.abs(val).max()*Fm.max(axis=1), detail='sums')
    mon.close('sums', res['sums_cov'], c, rtol=2*tol,
              scale=cm + 1e-9*pmax**2/w.min()*np.outer(Fm.max(axis=1), Fm.max(axis=1)), detail='cov')
    s, c = np.array(res['sums']), np.array(res['sums_cov'])
    # values from the sums
    T = par[4]
    e = par[2:4]/T
    mon.true('success-valid', np.hypot(*e) < 1, e)
    mon.close('success-valid', res['T'], T, rtol=1e-13)
    mon.close('success-valid', [res['e1'], res['e2']], e, rtol=1e-12)
    mon.close('success-valid', res['e'], e, rtol=1e-12)
    norm = 1/(2*np.pi*np.sqrt(det))
    fnorm = area*norm*res['wsum']
    rt = 1e-9*(1 + T**2/det)
    mon.close('flux', res['flux'], s[5]/fnorm, rtol=rt)
    mon.close('flux', res['flux_mean'], s[5]/res['wsum'], rtol=1e-12)
    mon.close('flux', par[5], s[5]/res['wsum'], rtol=1e-12)
    mon.close('flux', res['flux_err'], np.sqrt(c[5, 5])/fnorm, rtol=rt)
    mon.close('flux', res['s2n'], s[5]/np.sqrt(c[5, 5]), rtol=1e-9)
    mon.true('success-valid', res['flux'] > 0 and res['flux_err'] > 0 and res['flux_flags'] == 0 and res['T_flags'] == 0,
             res['flux'], res['flux_flags'])

    def err2(i, j):
        r = s[i]/s[j]
        return max((c[i, i] + r*r*c[j, j] - 2*r*c[i, j])/s[j]**2, 0), (c[i, i] + r*r*c[j, j] + 2*abs(r*c[i, j]))/s[j]**2
    for name, i, j, f in (('T_err', 4, 5, 4), ('rho4_err', 6, 5, 4), ('e1err', 2, 4, 2), ('e2err', 3, 4, 2)):
        a, m = err2(i, j)
        mon.close('errors', res[name]**2, f*f*a, rtol=1e-8, scale=f*f*m, detail=name)
    mon.close('errors', res['e_err'], [res['e1err'], res['e2err']], rtol=1e-12)
    mon.close('errors', res['e_cov'], np.diag([res['e1err']**2, res['e2err']**2]), rtol=1e-12)
    mon.close('errors', res['rho4'], s[6]/s[5], rtol=1e-12)
    vals = [res[k] for k in NANS + ['rho4', 'rho4_err', 'flux_mean']]
    mon.true('success-valid', np.isfinite(vals).all(), dict(zip(NANS, vals)))
    # mixture and image
    gm = res.get_gmix()
    comp = ref.gmix_components(gm)
    mon.close('gmix', comp[0, 1:], [cen[0], cen[1], irr, irc, icc], rtol=1e-7, scale=np.array([1e-300, 1e-300, T, T, T])
              + abs(par[[0, 1, 4, 4, 4]]))
    mon.close('gmix', comp[0, 0], 1.0, rtol=1e-9)
    tot = obs.image.sum()
    e0 = comp.copy()
    e0[0, 0] = tot
    rend = ref.render(e0, obs.image.shape, ref.Jac.of(obs.jacobian))
    mon.close('gmix', res.make_image(), rend, rtol=1e-6 + 1e-11*(T*T/det)**2, scale=abs(rend).max())
    if conf['cenonly']:
        mon.close('cenonly', [irr, irc, icc], gc[0, 3:], rtol=1e-12, scale=T)
    else:
        # the moments it measures, deweighted, give the weight back
        M = s[2]/s[5], s[3]/s[5], s[4]/s[5]
        if np.hypot(*e) > 0.9 or res['s2n'] < 20 or T < 2*area or conf['etol'] > 1e-3 or conf['Ttol'] > 1e-3:
            mon.event('fixed point: not comparable')
            return
        try:
            D = deweight((irr, irc, icc), (0.5*(M[2] - M[0]), 0.5*M[1], 0.5*(M[2] + M[0])))
        except Degenerate:
            return
        mon.true('fixed-point', D is not None, 'moments cannot be deweighted')
        dT = abs((D[0] + D[2])/T - 1)
        de = np.hypot((D[2] - D[0])/(D[0] + D[2]) - e[0], 2*D[1]/(D[0] + D[2]) - e[1])
        # how much the deweighted moments move per unit of the tolerance
        amp = (T/M[2])**2*(1 + np.hypot(*e))/(1 - np.hypot(*e))
        lim = 3*(conf['Ttol'] + conf['etol'])*amp + 1e-5
        mon.event('fixed point: off by %.0e of the limit' % (10.0**np.ceil(np.log10(max(dT, de)/lim + 1e-9))))
        if amp < 20:
            mon.true('fixed-point', dT < lim and de < lim, 'T off by', dT, 'e off by', de, 'limit', lim, 'amp', amp)


def check_failed(mon, res):
    fl = int(res['flags'])
    mon.true('reason', fl != 0 and fl & ~(F.CEN_SHIFT | F.NONPOS_FLUX | F.NONPOS_SIZE | F.LOW_DET | F.MAXITER |
                                          F.NONPOS_VAR | F.GMIX_RANGE_ERROR | F.NONPOS_SHAPE_VAR) == 0, fl)
    vals = [res[k] for k in ('e1', 'e2', 'e1err', 'e2err')] + list(res['e']) + list(res['e_err'])
    if not fl & F.NONPOS_SHAPE_VAR:
        mon.true('failed-nan', np.isnan(vals).all(), vals, fl)
    if fl & ~(F.NONPOS_VAR | F.NONPOS_SHAPE_VAR):
        vals = [res[k] for k in NANS]
        mon.true('failed-nan', np.isnan(vals).all(), dict(zip(NANS, vals)), fl)
        for k in ('flux_flags', 'T_flags', 'rho4_flags'):
            mon.true('reason', res[k] != 0, k, 'not set with flags', fl)
    mon.raises('failed-nan', RuntimeError, res.get_gmix)
    mon.raises('failed-nan', RuntimeError, res.make_image)


def run(mon, rng, idx):
    dims, jp, jkind, rj, s, im, kind, w, wkind, gc, gk, T = rand_case(rng)
    conf = dict(maxiter=int(gen.pick(rng, [200, 200, 200, 1, 2, 3, 5, 10, 50])),
                shiftmax=float(gen.pick(rng, [5.0, 5.0, 0.5*s, 0.05*s, 100*s])),
                etol=gen.pick(rng, [1e-5, 1e-5, 1e-3, 1e-7]), Ttol=gen.pick(rng, [1e-3, 1e-3, 1e-5, 1e-1]),
                cenonly=bool(rng.uniform() < 0.2))
    mon.describe(dims=dims, jac=jkind, image=kind, w=wkind, guess=gk, conf=conf)
    mon.event('image ' + kind)
    obs = ngmix.Observation(im.copy(), weight=w.copy(), jacobian=gen.make_jac(jp))
    gm = ngmix.GMix(pars=gc.ravel()) if rng.randint(2) else None
    if gm is None:
        irr, irc, icc = gc[0, 3:]
        gg1, gg2 = ngmix.shape.e1e2_to_g1g2((icc - irr)/(irr + icc), 2*irc/(irr + icc))
        gm = ngmix.GMixModel([gc[0, 1], gc[0, 2], gg1, gg2, irr + icc, gc[0, 0]], 'gauss')
    before = snap.snap([obs, gm])
    if rng.randint(2):
        fitter = AdmomFitter(**conf)
        res = fitter.go(obs, gm)
        again = fitter.go(obs=obs, guess=gm)
    else:
        res = run_admom(obs, gm, **conf)
        again = run_admom(obs=obs, guess=gm, **conf)
    d = snap.diff_snap(before, snap.snap([obs, gm]))
    mon.true('inputs-kept', d is None, d)
    mon.same('repeat', dict(again), dict(res))
    for k in ('flags', 'flux_flags', 'T_flags', 'rho4_flags'):
        mon.true('flagstr', res[k.replace('flags', 'flagstr')] == text(int(res[k])), k, res[k])
    m = w > 0
    v, u = rj.grid(dims)
    v, u, val, ww = v[m], u[m], im[m], w[m]
    mon.event('flags %d' % res['flags'])
    if res['flags'] == 0:
        check_success(mon, res, obs, v, u, val, ww, rj.area, conf, gc)
    else:
        check_failed(mon, res)
    # the whole iteration, where it is not at the mercy of rounding
    j = np.ones(v.size)
    if _table_exp is not None:
        # with the same table for the exponential: step by step the same
        EXP[0] = table_exp
        try:
            rs = [reference(gc[0], v, u, val, rj.area, conf, j)]
            rs += [reference(gc[0], v, u, val, rj.area, conf, 1 + 1e-10*rng.normal(size=v.size)) for _ in range(2)]
        except Degenerate:
            rs = []
        finally:
            EXP[0] = np.exp
        if rs and all(r[:2] == rs[0][:2] for r in rs):
            fl = int(res['flags']) & ~(F.NONPOS_VAR | F.NONPOS_SHAPE_VAR)
            mon.true('steps', fl == rs[0][0] and res['numiter'] == rs[0][1], 'flags', fl, 'iterations', int(res['numiter']),
                     'expected', rs[0][0], rs[0][1])
            if res['flags'] == 0:
                par = np.array(res['pars'])
                got = np.array([0.5*(par[4] - par[2]), 0.5*par[3], 0.5*(par[4] + par[2])])
                sp = max(abs(b[3] - rs[0][3]).max() for b in rs)
                mon.close('steps', got, rs[0][3], rtol=1e-7, scale=par[4], atol=100*sp)
        else:
            mon.event('steps: not comparable')
    try:
        a = reference(gc[0], v, u, val, rj.area, conf, j)
        bs = [reference(gc[0], v, u, val, rj.area, conf, 1 + 3e-5*rng.normal(size=v.size)) for _ in range(3)]
    except Degenerate:
        mon.event('algorithm: degenerate')
        return
    if any(b[0] != a[0] or b[1] != a[1] for b in bs) or (a[0] != 0 and max(a[1], res['numiter']) > 15):
        # (a fit that wanders before it fails is chaotic)
        mon.event('algorithm: not comparable')
        return
    if a[0] == 0 and max(abs(b[3] - a[3]).max() for b in bs) > 0.01*abs(a[3]).max():
        mon.event('algorithm: not comparable')
        return
    if a[0] == F.NONPOS_FLUX and val.size and not (np.abs(val) > 0).any():
        pass
    fl = int(res['flags']) & ~(F.NONPOS_VAR | F.NONPOS_SHAPE_VAR)
    near = abs(res['numiter'] - a[1]) <= max(2, 0.2*a[1])
    if (fl != a[0] or res['numiter'] != a[1]) and near and (fl == a[0] or F.MAXITER in (fl, a[0])):
        mon.event('algorithm: a few iterations apart')
        return
    mon.true('algorithm', fl == a[0] and res['numiter'] == a[1], 'flags', fl, 'iterations', int(res['numiter']),
             'expected', a[0], a[1])
    if res['flags'] == 0:
        par = np.array(res['pars'])
        got = np.array([0.5*(par[4] - par[2]), 0.5*par[3], 0.5*(par[4] + par[2])])
        sp = max(abs(b[3] - a[3]).max() for b in bs)
        mon.close('algorithm', got, a[3], rtol=5e-4, scale=par[4], atol=20*sp)
        sp = max(abs(b[2] - a[2]).max() for b in bs)
        mon.close('algorithm', par[:2], a[2], rtol=5e-4, scale=np.sqrt(par[4]), atol=20*sp)


class Starts(object):
    """records the gaussian every run of the algorithm starts with"""

    def __enter__(self):
        import ngmix.admom.admom_nb as nb
        self.nb, self.orig, self.seen = nb, getattr(nb, 'admom', None), []
        if self.orig is None:
            return self.seen

        def admom(conf, wt, *args, **kw):
            try:
                self.seen.append([float(wt[n][0]) for n in ('p', 'row', 'col', 'irr', 'irc', 'icc')])
            except Exception:
                pass
            return self.orig(conf, wt, *args, **kw)
        nb.admom = admom
        return self.seen

    def __exit__(self, *a):
        if self.orig is not None:
            self.nb.admom = self.orig


def starts(mon, rng, idx):
    """where fits start when only a size is given, or when the centre has to be tried again"""
    dims = gen.dims(rng, 4, 9)
    jp, jkind = gen.jac_pars(rng, dims)
    rj = ref.Jac(*jp)
    s = np.sqrt(rj.area)
    f = gen.pick(rng, [1.0, 1.0, gen.loguni(rng, 1e-3, 1e3)])
    jp = tuple(jp[:2]) + tuple(f*x for x in jp[2:])
    s *= f
    jac = gen.make_jac(jp)
    im = -rng.uniform(size=dims)      # nothing to find
    obs = ngmix.Observation(im, jacobian=jac)
    mon.describe(dims=dims, jac=jkind, scale=s, idx=idx)
    T = gen.loguni(rng, 0.1, 50)*s*s
    n = 60
    with Starts() as seen:
        fitter = AdmomFitter(rng=np.random.RandomState(rng.randint(2**31)))
        for i in range(n):
            mon.true('reason', fitter.go(obs, T)['flags'] != 0)
    if len(seen) != n:
        mon.event('starts not seen')
        mon._count('starts', 1)
        return
    a = np.array(seen)
    for k in (1, 2):
        x = a[:, k]/s
        mon.true('starts', (abs(x) <= 0.5 + 1e-9).all() and x.max() > 0.2 and x.min() < -0.2, 'centres', x.min(), x.max())
    mon.true('starts', abs(np.corrcoef(a[:, 1], a[:, 2])[0, 1]) < 0.9, 'centres along a line')
    Ts = a[:, 3] + a[:, 5]
    mon.true('starts', (abs(Ts/T - 1) <= 0.1 + 1e-9).all() and Ts.max() > 1.04*T and Ts.min() < 0.96*T, 'sizes', Ts.min()/T, Ts.max()/T)
    e1, e2 = (a[:, 5] - a[:, 3])/Ts, 2*a[:, 4]/Ts
    mon.true('starts', np.hypot(e1, e2).max() < 0.75 and min(e1.max(), e2.max(), -e1.min(), -e2.min()) > 0.1, 'shapes')
    # again and again
    cen = rng.normal(size=2)*s
    fw = 2.3548200450309493*np.sqrt(T/2)
    g = ngmix.GMixModel([cen[0], cen[1], 0.1, 0.2, T, 3.0], 'gauss')
    ntry = int(gen.pick(rng, [1, 2, 5, 12]))
    rs = np.random.RandomState(rng.randint(2**31)) if ntry > 1 else None
    with_g = bool(rng.randint(2))
    with Starts() as seen:
        kw = dict(gmix=g) if with_g else dict(fwhm=fw)
        r = mon.returns('find-cen', find_cen_admom, obs, ntry=ntry, rng=rs, **kw) if ntry > 1 \
            else mon.returns('find-cen', find_cen_admom, obs, **kw)
    mon.true('find-cen', r['flags'] != 0 and np.isnan(r['cen']).all())
    mon.true('starts', len(seen) == ntry, len(seen), ntry)
    a = np.array(seen)
    mon.close('starts', a[0, 1:3], cen if with_g else [0.0, 0.0], atol=1e-12*s, rtol=1e-12)
    mon.true('starts', (abs(a[1:, 1:3]) <= 0.5*s*(1 + 1e-9)).all(), a)
    if ntry > 2:
        mon.true('starts', abs(np.diff(a[1:, 1:3], axis=0)).min() > 0 and abs(a[1:, 1] - a[1:, 2]).min() > 0, a)
    mon.close('starts', a[:, 3:], np.broadcast_to(a[0, 3:], (ntry, 3)), rtol=1e-12)
    # the first that works is taken
    c = np.array([(d - 1)/2.0 for d in dims])
    good = ngmix.Observation(g.make_image(dims, jacobian=jac), jacobian=jac)
    with Starts() as seen:
        r = find_cen_admom(good, ntry=4, rng=np.random.RandomState(3), **kw)
    if len(seen):
        mon.true('starts', (r['flags'] == 0 and len(seen) <= 4) or len(seen) == 4, r['flags'], len(seen))


def size_guess(mon, rng, idx):
    """a size as guess, and finding centres"""
    dims, jp, jkind, rj, s, im, kind, w, wkind, gc, gk, T = rand_case(rng)
    obs = ngmix.Observation(im.copy(), weight=w.copy(), jacobian=gen.make_jac(jp))
    mon.describe(dims=dims, jac=jkind, image=kind, w=wkind, T=T)
    before = snap.snap(obs)
    seed = rng.randint(2**31)
    a = run_admom(obs, T, rng=np.random.RandomState(seed))
    b = AdmomFitter(rng=np.random.RandomState(seed)).go(obs, T)
    mon.same('repeat', dict(a), dict(b))
    mon._count('size-guess')
    # the guess it makes is a guess like any other
    fit = AdmomFitter(rng=np.random.RandomState(seed))
    r = np.random.RandomState(seed)
    sc = s
    if a['flags'] == 0:
        m = w > 0
        v, u = rj.grid(dims)
        # within half a pixel scale of the centre, and from there within the allowed shift
        mon.true('shift', (np.abs(np.array(a['pars'][:2])) <= 5.0 + 0.5*sc*(1 + 1e-9)).all(), a['pars'][:2])
        conf = dict(maxiter=200, shiftmax=5.0 + 0.5*sc, etol=1e-5, Ttol=1e-3, cenonly=False)
        check_success(mon, a, obs, v[m], u[m], im[m], w[m], rj.area, conf, np.array([[1.0, 0, 0, 1, 0, 1]]))
    else:
        check_failed(mon, a)
    # centre finding
    kw = {}
    if rng.randint(2):
        gm = ngmix.GMix(pars=gc.ravel())
        kw['gmix'] = gm
        cov = gc[0, 3:]
    else:
        fwhm = 2.3548200450309493*np.sqrt(T/2)
        kw['fwhm'] = fwhm
        gm = None
        cov = np.array([T/2, 0, T/2])
    gs = snap.snap(gm)
    ntry = int(gen.pick(rng, [1, 1, 3]))
    r1 = find_cen_admom(obs, ntry=ntry, rng=np.random.RandomState(seed), **kw)
    r2 = find_cen_admom(obs, ntry=ntry, rng=np.random.RandomState(seed), **kw)
    mon.same('repeat', dict(r1), dict(r2))
    mon.same('inputs-kept', snap.snap(gm), gs)
    if r1['flags'] == 0:
        par = np.array(r1['pars'])
        mon.close('cenonly', [0.5*(par[4] - par[2]), 0.5*par[3], 0.5*(par[4] + par[2])], cov, rtol=1e-9, scale=T)
        mon.close('find-cen', r1['cen'], par[:2], rtol=1e-12)
    else:
        mon.true('find-cen', np.isnan(r1['cen']).all() and len(r1['cen']) == 2, r1['cen'])
    mon.raises('refused', ValueError, find_cen_admom, obs, ntry=2, fwhm=1.0)
    mon.raises('refused', ValueError, find_cen_admom, obs)
    for bad in (im, ngmix.ObsList(), None):
        mon.raises('refused', ValueError, run_admom, bad, T)
    d = snap.diff_snap(before, snap.snap(obs))
    mon.true('inputs-kept', d is None, d)


def finish(mon, rng, idx):
    """the result made from sums and their covariance: what is flagged, and what follows from the sums"""
    try:
        from ngmix.admom.admom import get_result
    except ImportError:
        mon.event('no result maker')
        mon._count('finish')
        return
    a = rng.normal(size=(7, 7))
    sc = np.array([0.1, 0.1, 1, 1, 1, 1, 1])*gen.loguni(rng, 1e-3, 1e3)
    cov = a.dot(a.T)*0.01*np.outer(sc, sc)
    sums = rng.normal(size=7)*sc
    sums[4], sums[5], sums[6] = [abs(x) + 0.3*y for x, y in zip(sums[4:], sc[4:])]
    T = gen.loguni(rng, 1e-3, 1e3)
    g = gen.disk(rng, 0.95)
    flags = int(gen.pick(rng, [0, 0, 0, 0, 0, F.MAXITER, F.CEN_SHIFT, F.LOW_DET | F.MAXITER]))
    what = []
    for k in range(rng.randint(3)):
        w = gen.pick(rng, ['T', 'flux', 'vart', 'varf', 'varr', 'vare', 'covneg', 'nan', 'T2'])
        what.append(w)
        bad = float(gen.pick(rng, [0.0, -1.0, -1e-8]))
        if w == 'T':
            T = bad
        elif w == 'T2':
            T = 1e-201
        elif w == 'flux':
            sums[5] = bad
        elif w == 'vart':
            cov[4, 4] = bad
        elif w == 'varf':
            cov[5, 5] = bad
        elif w == 'varr':
            cov[6, 6] = bad
        elif w == 'vare':
            i = int(rng.randint(2, 4))
            cov[i, i] = bad
        elif w == 'covneg':
            i = int(rng.randint(2, 4))
            cov[i, 4] = cov[4, i] = 10*np.sqrt(abs(cov[i, i]*cov[4, 4]))*np.sign(sums[i]*sums[4])
        else:
            i, j = rng.randint(2, 7, size=2)
            cov[i, j] = cov[j, i] = np.nan
    pars = np.array([rng.normal(), rng.normal(), g[0]*T, g[1]*T, T, 7.0])
    wsum = gen.loguni(rng, 1e-3, 1e3)
    area, wn = gen.loguni(rng, 1e-2, 1e2), gen.loguni(rng, 1e-2, 1e2)
    mon.describe(what=what, flags=flags, T=T, r=int(rng.randint(10**6)))
    if rng.randint(2) or not hasattr(AdmomFitter, '_get_am_result'):
        d = dict(flags=flags, numiter=3, npix=100, wsum=wsum, sums=sums.copy(), sums_cov=cov.copy(), pars=pars.copy(), rho4=1.7)
    else:
        d = AdmomFitter()._get_am_result()
        for k, x in dict(flags=flags, numiter=3, npix=100, wsum=wsum, sums=sums, sums_cov=cov, pars=pars, rho4=1.7).items():
            d[k][0] = x
    with np.errstate(all='ignore'):
        r = mon.returns('finish', get_result, d, area, wn)
    fl = flags
    nf = dict(flux_flags=flags, T_flags=flags, rho4_flags=flags)
    v = np.diag(cov)
    want = dict(flux=np.nan, flux_err=np.nan, s2n=np.nan, T=np.nan, T_err=np.nan, rho4_err=np.nan, rho4=np.nan, flux_mean=np.nan,
                e1=np.nan, e2=np.nan, e1err=np.nan, e2err=np.nan)

    def err(i, j):
        q = sums[i]/sums[j]
        x = (cov[i, i] + q*q*cov[j, j] - 2*q*cov[i, j])/sums[j]**2
        return np.sqrt(x) if x > 0 else (0.0 if x <= 0 else np.nan)
    if flags == 0:
        want['T'], want['flux_mean'], want['rho4'] = T, sums[5]/wsum, 1.7
        if T > LOW:
            want['flux'] = sums[5]/(area*wn*wsum)
            if v[5] > 0:
                want['flux_err'] = np.sqrt(v[5])/(area*wn*wsum)
                want['s2n'] = want['flux']/want['flux_err']
            else:
                nf['flux_flags'] |= F.NONPOS_VAR
        else:
            nf['flux_flags'] |= F.NONPOS_SIZE
        for k, i, e in (('T_flags', 4, 'T_err'), ('rho4_flags', 6, 'rho4_err')):
            if v[i] > 0 and v[5] > 0:
                if sums[5] > 0:
                    want[e] = 4*err(i, 5)
                    if i == 6:
                        want['rho4'] = sums[6]/sums[5]
                else:
                    nf[k] |= F.NONPOS_FLUX
            else:
                nf[k] |= F.NONPOS_VAR
    if not (v[2:] > 0).all():
        fl |= F.NONPOS_VAR
    if fl == 0:
        if not sums[5] > 0:
            fl |= F.NONPOS_FLUX
        elif not T > 0:
            fl |= F.NONPOS_SIZE
        else:
            want['e1'], want['e2'] = g[0], g[1]
            with np.errstate(all='ignore'):
                want['e1err'], want['e2err'] = 2*err(2, 4), 2*err(3, 4)
            if not np.isfinite(want['e1err'] + want['e2err']):
                want['e1err'] = want['e2err'] = np.nan
                fl |= F.NONPOS_SHAPE_VAR
    mon.true('finish', int(r['flags']) == fl, 'flags', int(r['flags']), 'expected', fl, what)
    for k, x in nf.items():
        mon.true('finish', int(r[k]) == x, k, int(r[k]), 'expected', x, what)
    for k in ('flags', 'flux_flags', 'T_flags', 'rho4_flags'):
        mon.true('flagstr', r[k[:-1] + 'str'] == text(int(r[k])), k, r[k])
    for k, x in want.items():
        # differences in the variance of a ratio are at the mercy of rounding
        at = 1e-6*abs(x) if k.endswith('err') and np.isfinite(x) else 0
        if k in ('T_err', 'rho4_err', 'e1err', 'e2err') and x == 0:
            at = 1e-6
        mon.true('finish', np.isnan(x) == np.isnan(r[k]), k, r[k], 'expected', x, what)
        if not np.isnan(x):
            mon.close('finish', r[k], x, rtol=1e-9, atol=at, detail='%s %s' % (k, what))
    if fl == 0:
        mon.close('finish', r['e_err'], [want['e1err'], want['e2err']], rtol=1e-6, atol=1e-6*(want['e1err'] == 0 or want['e2err'] == 0))
        mon.close('finish', r['e_cov'], np.diag([want['e1err'], want['e2err']])**2, rtol=1e-5, atol=1e-12)
        mon.close('finish', r['e'], g, rtol=1e-9)
    else:
        for k in ('e_err', 'e_cov'):
            x = np.array(r[k])
            mon.true('finish', np.isnan(x if x.ndim == 1 else np.diag(x)).all(), k, 'of a flagged shape', x)
    mon.event('finish: flags %d' % fl)


WORKLOADS = [
    Workload('run', run, 2500, 40000, warm=3),
    Workload('size_guess', size_guess, 600, 8000),
    Workload('starts', starts, 200, 3000),
    Workload('finish', finish, 3000, 30000),
]
