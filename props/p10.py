"""Moment results: values, flags, flag texts, regularised shapes."""
import numpy as np
import ngmix
from ngmix import flags as F
from ngmix.moments import make_mom_result, regularize_mom_shapes, MOMENTS_NAME_MAP, fwhm_to_T
from ngmix.util import get_ratio_var, get_ratio_error
from vlib import gen
from vlib.core import Workload

PROP = 'P10'
RULE = """random moment vectors (6 and 17 entries, both signs, exact zeros, not-a-number in the centroid or shape slots) with
random covariances (positive definite, singular, indefinite, zero or negative variances in chosen slots), all weight sums,
all regularisation sizes; the result is compared entry by entry with the definition of each flag and value; flag texts for
all single bits and random combinations, with the standard and other name tables; cases differ by signs and slots"""
REQUIRED = ['flags-exact', 'unflagged-finite', 'values', 'spoiled-nan', 'flagstr', 'regularize', 'ratio', 'named', 'refused',
            'inputs-kept']

NONE, NVAR, NFLUX, NSIZE, NSVAR = 0, F.NONPOS_VAR, F.NONPOS_FLUX, F.NONPOS_SIZE, F.NONPOS_SHAPE_VAR


def text(val, names=None):
    names = F.NAME_MAP if names is None else names
    return '|'.join(names.get(2**k, 'bit 2**%d' % k) for k in range(31) if (val >> k) & 1)


def random_cov(rng, n, scale):
    kind = gen.pick(rng, ['pd', 'pd', 'pd', 'diag', 'indef', 'singular', 'zero', 'negdiag', 'badslot', 'badslot'])
    a = rng.normal(size=(n, n))
    if kind == 'pd':
        c = a @ a.T/n + 0.1*np.eye(n)
    elif kind == 'diag':
        c = np.diag(rng.uniform(0.1, 2, size=n))
    elif kind == 'indef':
        c = (a + a.T)/2
        c[np.diag_indices(n)] = rng.uniform(0.1, 1, size=n)
    elif kind == 'singular':
        b = rng.normal(size=(n, 2))
        c = b @ b.T
    elif kind == 'zero':
        c = np.zeros((n, n))
    elif kind == 'negdiag':
        c = -np.diag(rng.uniform(0.1, 2, size=n))
    else:
        c = a @ a.T/n + 0.1*np.eye(n)
        for k in range(rng.randint(1, 3)):
            i = rng.randint(min(n, 7)) if rng.uniform() < 0.8 else rng.randint(n)
            if rng.uniform() < 0.3:
                c[i, :] = 0
                c[:, i] = 0
            c[i, i] = gen.pick(rng, [0.0, -1.0, -1e-12, np.nan])
    return c*np.outer(scale, scale), kind


def random_sums(rng, n):
    s = rng.normal(size=n)
    s[5] = abs(s[5])
    s[4] = abs(s[4])
    kind = gen.pick(rng, ['good', 'good', 'good', 'flux<0', 'flux=0', 'T<0', 'T=0', 'both<0', 'nancen', 'nanshape', 'zeros',
                          'e=0', 'big-e'])
    if kind == 'flux<0':
        s[5] = -s[5]
    elif kind == 'flux=0':
        s[5] = 0
    elif kind == 'T<0':
        s[4] = -s[4]
    elif kind == 'T=0':
        s[4] = 0
    elif kind == 'both<0':
        s[4] = -s[4]
        s[5] = -s[5]
    elif kind == 'nancen':
        s[:2] = np.nan
    elif kind == 'nanshape':
        s[rng.randint(2, 4)] = np.nan
    elif kind == 'zeros':
        s[:] = 0
    elif kind == 'e=0':
        s[2:4] = 0
    elif kind == 'big-e':
        s[2:4] *= 100
    return s, kind


def ratio_err(a, b, va, vb, cab):
    r = a/b
    return np.sqrt(np.maximum((va + r*r*vb - 2*r*cab)/b**2, 0.0)), (abs(va) + r*r*abs(vb) + 2*abs(r*cab))/b**2


def check_err(mon, name, got, a, b, va, vb, cab, detail=''):
    e, mag = ratio_err(a, b, va, vb, cab)
    if np.isnan(e):
        mon.true(name, np.isnan(got), 'expected nan', got, detail)
        return e
    mon.close(name, got**2, e**2, rtol=1e-9, scale=mag, detail=detail)
    return e


def check_result(mon, res, s, c, norm, tag=''):
    n = len(s)
    d = np.diagonal(c)
    mon.same('values', np.array(res['sums']), s, tag)
    mon.same('values', np.array(res['sums_cov']), c, tag)
    mon.true('values', (np.isnan(res['sums_norm']) if norm is None else res['sums_norm'] == norm), tag, res['sums_norm'])
    mon.same('values', float(res['flux']), float(s[5]))
    # --- flux
    if d[5] > 0:
        mon.true('flags-exact', res['flux_flags'] == 0, 'flux', res['flux_flags'], tag)
        mon.close('values', res['flux_err'], np.sqrt(d[5]), rtol=1e-12)
        mon.close('values', res['s2n'], s[5]/np.sqrt(d[5]), rtol=1e-12)
    else:
        mon.true('flags-exact', res['flux_flags'] == NVAR, 'flux', res['flux_flags'], tag)
        mon.true('spoiled-nan', np.isnan(res['flux_err']) and np.isnan(res['s2n']), res['flux_err'], tag)
    # --- size
    if not (d[5] > 0 and d[4] > 0):
        tf = NVAR
    elif not s[5] > 0:
        tf = NFLUX
    else:
        tf = 0
    mon.true('flags-exact', res['T_flags'] == tf, 'T_flags', res['T_flags'], 'expected', tf, tag)
    T = np.nan
    if tf == 0:
        T = s[4]/s[5]
        mon.close('values', res['T'], T, rtol=1e-12)
        check_err(mon, 'values', res['T_err'], s[4], s[5], d[4], d[5], c[4, 5], 'T_err ' + tag)
    else:
        mon.true('spoiled-nan', np.isnan(res['T']) and np.isnan(res['T_err']), res['T'], res['T_err'], tag)
    # --- everything
    e = np.array([np.nan, np.nan])
    haveshape = False
    if not (d > 0).all():
        fl = NVAR
    elif not s[5] > 0:
        fl = NFLUX
    elif not T > 0:
        fl = NSIZE
    else:
        haveshape = True
        e = s[2:4]/s[4]
        err = [ratio_err(s[2 + k], s[4], d[2 + k], d[4], c[2 + k, 4])[0] for k in range(2)]
        fl = 0 if np.isfinite(err).all() else NSVAR
    mon.true('flags-exact', res['flags'] == fl, 'flags', res['flags'], 'expected', fl, tag)
    if (d > 0).all():
        mon.close('values', res['sums_err'], np.sqrt(d), rtol=1e-12)
    else:
        mon.true('spoiled-nan', np.isnan(res['sums_err']).all(), res['sums_err'])
    if haveshape:
        mon.close('values', res['e'], e, rtol=1e-12)
        mon.close('values', [res['e1'], res['e2']], e, rtol=1e-12)
        mon.close('values', res['pars'], [s[0], s[1], e[0], e[1], T, s[5]], rtol=1e-12)
        if fl == 0:
            for k in range(2):
                check_err(mon, 'values', res['e_err'][k], s[2 + k], s[4], d[2 + k], d[4], c[2 + k, 4], 'e_err ' + tag)
            mon.close('values', res['e_cov'], np.diag(np.array(res['e_err'])**2), rtol=1e-12)
    if not haveshape or fl:
        mon.true('spoiled-nan', np.isnan(res['e_err']).all() and np.isnan(np.diagonal(res['e_cov'])).all(), res['e_err'], tag)
    if not haveshape:
        mon.true('spoiled-nan', np.isnan(res['e']).all() and np.isnan(res['e1']) and np.isnan(res['e2']), res['e'], tag)
    for nme in ('flags', 'flux_flags', 'T_flags'):
        mon.true('flagstr', res[nme.replace('flags', 'flagstr')] == text(int(res[nme])), nme, tag)
    if res['flags'] == 0:
        vals = [res[k] for k in ('flux', 'flux_err', 's2n', 'T', 'T_err', 'e1', 'e2')] + list(res['e']) + \
            list(res['e_err']) + list(np.asarray(res['pars'])[2:])
        mon.true('unflagged-finite', np.isfinite(vals).all(), vals, tag)
        mon.true('unflagged-finite', res['flux'] > 0 and res['T'] > 0 and res['flux_err'] > 0 and res['s2n'] > 0, tag)
        mon.true('unflagged-finite', res['flux_flags'] == 0 and res['T_flags'] == 0, tag)
    # --- named ratios
    for nm, i in MOMENTS_NAME_MAP.items():
        if i >= n:
            mon.true('named', nm not in res, nm)
        elif i == 5:
            mon.same('named', float(res[nm]), float(s[5]))
            if d[5] >= 0:
                mon.close('named', res[nm + '_err'], np.sqrt(d[5]), rtol=1e-12)
        elif s[5] > 0:
            mon.close('named', res[nm], s[i]/s[5], rtol=1e-12)
            check_err(mon, 'named', res[nm + '_err'], s[i], s[5], d[i], d[5], c[i, 5], nm)
        else:
            mon.true('named', np.isnan(res[nm]) and np.isnan(res[nm + '_err']), nm, tag)
    return fl


def result(mon, rng, idx):
    n = gen.pick(rng, [6, 17])
    scale = np.full(n, gen.loguni(rng, 1e-6, 1e6))*np.exp(rng.normal(size=n))
    s, skind = random_sums(rng, n)
    s = s*scale*gen.loguni(rng, 0.1, 1e4)
    c, ckind = random_cov(rng, n, scale)
    norm = gen.pick(rng, [None, 1.0, float(rng.normal()), 0.0])
    mon.describe(n=n, sums=skind, cov=ckind, s=s[:6], norm=norm)
    mon.event('sums %s, cov %s' % (skind, ckind))
    s0, c0 = s.copy(), c.copy()
    res = make_mom_result(s, c, norm) if rng.randint(2) else make_mom_result(s, c, sums_norm=norm)
    fl = check_result(mon, res, s0, c0, norm)
    mon.event('flags %d' % fl)
    mon.same('inputs-kept', s, s0)
    mon.same('inputs-kept', c, c0)
    mon.same('values', make_mom_result(s0.copy(), c0.copy(), norm), res, 'again')

    # --- regularisation
    fwhm = gen.pick(rng, [0.0, 0.0, -1.0, 1.2, gen.loguni(rng, 1e-6, 1e-3), gen.loguni(rng, 1e-3, 1e3), gen.loguni(rng, 1e-3, 1e3)])
    import copy
    before = copy.deepcopy(res)
    reg = regularize_mom_shapes(res, fwhm)
    mon.same('inputs-kept', res, before, 'regularize')
    mon._count('regularize')
    if fwhm <= 0:
        mon.same('regularize', reg, before)
        return
    if np.isnan(c0).any() or np.isnan(s0[2:]).any():
        return
    treg = fwhm_to_T(fwhm)
    mon.close('regularize', treg, 2*(fwhm/2.3548200450309493)**2, rtol=1e-12)
    for k in ('flux', 'flux_err', 's2n', 'T', 'T_err', 'T_flags', 'T_flagstr', 'flux_flags', 'flux_flagstr', 'sums_norm'):
        mon.same('regularize', reg[k], before[k], k)
    s2 = s0.copy()
    s2[4] = s0[4] + treg*s0[5]
    A = np.eye(n)
    A[4, 5] = treg
    keep = [i for i in range(n) if i != 4]
    mon.same('regularize', np.array(reg['sums'])[keep], s0[keep], 'the other moments')
    mon.close('regularize', reg['sums'][4], s2[4], rtol=1e-12, scale=abs(s0[4]) + abs(treg*s0[5]))
    mon.true('regularize', reg['flags'] & res['flags'] == res['flags'], 'lost a flag', reg['flags'], res['flags'])
    mon.true('flagstr', reg['flagstr'] == text(int(reg['flags'])), reg['flagstr'])
    c2 = A @ c0 @ A.T
    sub = np.ix_(keep, keep)
    mon.close('regularize', np.array(reg['sums_cov'])[sub], c0[sub], rtol=1e-9)
    cm = np.abs(A) @ np.abs(c0) @ np.abs(A).T
    mon.close('regularize', reg['sums_cov'], c2, rtol=1e-9, scale=cm)
    d2 = np.diagonal(c2)
    if fl == 0 and (d2 > 1e-9*np.diagonal(cm)).all():
        # (an indefinite covariance can turn into one with a negative variance)
        sh = s0[2:4]/s2[4]
        # the size it is divided by is never smaller
        mon.true('regularize', (np.abs(reg['e']) <= np.abs(res['e'])*(1 + 1e-12)).all(), reg['e'], res['e'])
        mon.close('regularize', reg['e'], sh, rtol=1e-11)
        mon.close('regularize', [reg['e1'], reg['e2']], sh, rtol=1e-11)
        mon.true('regularize', reg['flags'] == 0, reg['flags'])
        for k in range(2):
            e, mag = ratio_err(s0[2 + k], s2[4], d2[2 + k], d2[4], c2[2 + k, 4])
            mag = cm[2 + k, 2 + k] + sh[k]**2*cm[4, 4] + 2*abs(sh[k])*cm[2 + k, 4]
            mon.close('regularize', reg['e_err'][k]**2, e**2, rtol=1e-8, scale=mag/s2[4]**2)
        mon.close('regularize', reg['e_cov'], np.diag(np.array(reg['e_err'])**2), rtol=1e-12)


def flagstr(mon, rng, idx):
    names = None
    if rng.uniform() < 0.4:
        names = {2**k: 'name%d' % k for k in range(31) if rng.uniform() < 0.4}
    val = int(rng.randint(0, 2**31, dtype='i8'))
    if idx < 31:
        val, names = 2**idx, None
    elif rng.uniform() < 0.5:
        val &= int(rng.randint(0, 2**31, dtype='i8'))
        val &= int(rng.randint(0, 2**31, dtype='i8'))
    if idx == 31:
        val = 0
    mon.describe(val=val, names=None if names is None else sorted(names))
    for v in (val, np.int64(val), np.int32(val), np.uint32(val)):
        s = F.get_flags_str(v) if names is None else F.get_flags_str(v, name_map=names)
        mon.true('flagstr', s == text(val, names), s, text(val, names))
    mon.raises('refused', ValueError, F.get_flags_str, -val - 1)
    if idx == 32:
        vals = [v for k, v in vars(F).items() if k.isupper() and isinstance(v, int)]
        for v in F.NAME_MAP:
            mon.true('flagstr', v in vals and (v & (v - 1)) == 0 and v > 0, v)
        prim = ['NO_ATTEMPT', 'CEN_SHIFT', 'NONPOS_FLUX', 'NONPOS_SIZE', 'LOW_DET', 'MAXITER', 'NONPOS_VAR', 'GMIX_RANGE_ERROR',
                'NONPOS_SHAPE_VAR', 'LM_SINGULAR_MATRIX', 'LM_NEG_COV_EIG', 'LM_NEG_COV_DIAG', 'LM_FUNC_NOTFINITE',
                'EIG_NOTFINITE', 'DIV_ZERO', 'ZERO_DOF']
        pv = [getattr(F, p) for p in prim]
        mon.true('flagstr', len(set(pv)) == len(pv), 'two conditions share a bit')
        mon.true('flagstr', all(v in F.NAME_MAP for v in pv) and len(set(F.NAME_MAP.values())) == len(F.NAME_MAP))


def ratio(mon, rng, idx):
    shape = gen.pick(rng, [(), (), (3,), (2, 4)])
    a = rng.normal(size=shape)*gen.loguni(rng, 1e-3, 1e3)
    b = rng.normal(size=shape)*gen.loguni(rng, 1e-3, 1e3)
    if rng.uniform() < 0.2:
        a = a*0
    va, vb = rng.uniform(0, 2, size=shape), rng.uniform(0, 2, size=shape)
    rho = rng.uniform(-1, 1, size=shape)
    cab = rho*np.sqrt(va*vb)
    if rng.uniform() < 0.2:
        cab = cab*10  # not a covariance
    if shape == ():
        a, b, va, vb, cab = [float(x) for x in (a, b, va, vb, cab)]
    mon.describe(a=a, b=b, va=va)
    # first order propagation: gradient of a/b
    r = np.asarray(a)/b
    var = va/np.square(b) + r**2*vb/np.square(b) - 2*r*cab/np.square(b)
    mag = (va + r**2*vb + 2*np.abs(r*cab))/np.square(b)
    mon.close('ratio', get_ratio_var(a, b, va, vb, cab), var, rtol=1e-9, scale=mag)
    err = get_ratio_error(a, b, va, vb, cab)
    mon.close('ratio', np.square(err), np.maximum(var, 0), rtol=1e-9, scale=mag)
    mon.true('ratio', np.isfinite(err).all() and (np.asarray(err) >= 0).all())
    if shape == ():
        b = 0.0
    else:
        b = b.copy()
        b[(0,)*len(shape)] = 0
    mon.raises('refused', ValueError, get_ratio_var, a, b, va, vb, cab)
    mon.raises('refused', ValueError, get_ratio_error, a, b, va, vb, cab)


def refused(mon, rng, idx):
    n = int(gen.pick(rng, [0, 1, 5, 7, 8, 16, 18, 36]))
    mon.describe(n=n)
    good = np.eye(6) if rng.randint(2) else np.eye(17)
    mon.raises('refused', ValueError, make_mom_result, np.ones(n), good)
    mon.raises('refused', ValueError, make_mom_result, np.ones(gen.pick(rng, [6, 17])),
               np.ones(gen.pick(rng, [(n, n), (6,), (6, 17), (36,), (1, 6, 6)])))


WORKLOADS = [
    Workload('result', result, 12000, 300000),
    Workload('flagstr', flagstr, 3000, 30000),
    Workload('ratio', ratio, 3000, 30000),
    Workload('refused', refused, 100, 1000),
]
