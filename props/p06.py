"""Model mixtures: reported flux, centre, shape, size and profile."""
import copy
import numpy as np
import ngmix
from ngmix.gmix import (GMix, GMixModel, GMixCM, GMixCoellip, make_gmix_model, get_coellip_npars, get_coellip_ngauss,
                        get_model_npars, get_model_ngauss, get_model_num, get_model_name)
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref
from vlib.core import Workload

PROP = 'P06'
RULE = """random parameters for every model and parameterisation (gauss, turb, exp, dev, cm, bd, bdf, coellip 1-6 gaussians,
full), shapes up to 0.95, sizes over 6 decades, fluxes of both signs, then random histories of re-fills, flux and centre
changes, evaluations, copies and refused fills; non-trivial when the mixture was compared with one computed from the
parameters by the reference; cases differ by model and parameters"""
REQUIRED = ['rendered', 'flux', 'cen', 'shape', 'T', 'profile', 'anew', 'refused', 'co-elliptical', 'galsim-profile']

# amplitudes and sizes of the profile approximations (Hogg & Lang 2013, as normalised in the model definitions)
TAB = {
    'gauss': [(1.0, 1.0)],
    'turb': [(0.596510042804182, 0.5793612389470884), (0.4034898268889178, 1.621860687127999),
             (1.303069003078001e-07, 7.019347162356363)],
    'exp': [(0.00061601229677880041, 0.002467115141477932), (0.0079461395724623237, 0.018147435573256168),
            (0.053280454055540001, 0.07944063151366336), (0.21797364640726541, 0.27137669897479122),
            (0.45496740582554868, 0.79782256866993773), (0.26521634184240478, 2.1623306025075739)],
    'dev': [(6.5288960012625658e-05, 2.9934935706271918e-07), (0.00044199216814302695, 3.4651596338231207e-06),
            (0.0020859587871659754, 2.4807910570562753e-05), (0.0075913681418996841, 1.4307404300535354e-04),
            (0.02260266219257237, 7.2753169298239500e-04), (0.056532254390212859, 3.4582464394427260e-03),
            (0.11939049233042602, 1.6086645440719100e-02), (0.20969545753234975, 7.7006776775654429e-02),
            (0.29254151133139222, 4.1012562102501476e-01), (0.28905301416582552, 2.9812509778548648e00)],
}


def expected(model, pars, fracdev=None, TdByTe=None):
    """components (p, row, col, irr, irc, icc)"""
    pars = [float(x) for x in pars]
    if model == 'full':
        return np.array(pars).reshape(-1, 6)
    row, col, g1, g2 = pars[:4]
    comps = []
    if model == 'coellip':
        n = (len(pars) - 4)//2
        comps = [(pars[4 + n + i], pars[4 + i]) for i in range(n)]
    elif model in TAB:
        comps = [(pars[5]*p, pars[4]*f) for p, f in TAB[model]]
    else:
        T = pars[4]
        if model == 'bd':
            TdByTe, fracdev, flux = 10.0**pars[5], pars[6], pars[7]
        elif model == 'bdf':
            TdByTe, fracdev, flux = 1.0, pars[5], pars[6]
        else:
            flux = pars[5]
        # total size is the flux weighted mean of the sizes
        te = sum(p*f for p, f in TAB['exp'])
        td = sum(p*f for p, f in TAB['dev'])
        Te = T/((1 - fracdev)*te + fracdev*TdByTe*td)
        comps = [(flux*(1 - fracdev)*p, Te*f) for p, f in TAB['exp']]
        comps += [(flux*fracdev*p, Te*TdByTe*f) for p, f in TAB['dev']]
    out = []
    for p, T in comps:
        irr, irc, icc = ref.cov_of(g1, g2, T)
        out.append([p, row, col, irr, irc, icc])
    return np.array(out)


MODELS = ['gauss', 'turb', 'exp', 'dev', 'cm', 'bd', 'bdf', 'coellip', 'full']
_NUM = {'full': 0, 'gauss': 1, 'turb': 2, 'exp': 3, 'dev': 4, 'bdf': 6, 'coellip': 7, 'cm': 9, 'bd': 10}
_NG = {'gauss': 1, 'turb': 3, 'exp': 6, 'dev': 10, 'cm': 16, 'bd': 16, 'bdf': 16}
_NP = {'gauss': 6, 'turb': 6, 'exp': 6, 'dev': 6, 'cm': 6, 'bd': 8, 'bdf': 7}


def rand_pars(rng, model, n=None, far=False):
    if model == 'full':
        return list(gen.full_gmix_pars(rng, n=n, gmax=0.9, signs=False).ravel())
    g1, g2 = gen.disk(rng, 0.95)
    T = gen.loguni(rng, 1e-3, 1e3)
    if far:
        k = rng.randint(8)
        if k == 0:
            # nearly the unit disk
            t, r = rng.uniform(0, 2*np.pi), 1 - gen.loguni(rng, 1e-4, 0.05)
            g1, g2 = r*np.cos(t), r*np.sin(t)
        elif k == 1:
            T = gen.loguni(rng, 1e-20, 1e-3)
        elif k == 2:
            T = gen.loguni(rng, 1e3, 1e12)
    flux = gen.loguni(rng, 1e-3, 1e4)*gen.pick(rng, [1, 1, 1, -1])
    head = [rng.normal()*3, rng.normal()*3, g1, g2]
    fd = gen.pick(rng, [0.0, 1.0, rng.uniform(), rng.uniform(), rng.uniform()])
    if model == 'coellip':
        n = n or rng.randint(1, 7)
        Ts = [gen.loguni(rng, 0.1, 10)*T for _ in range(n)]
        sign = np.sign(flux)
        return head + Ts + [sign*gen.loguni(rng, 1e-2, 1e2) for _ in range(n)]
    if model == 'bd':
        return head + [T, rng.uniform(-1.5, 1.5) if rng.randint(4) or not far else rng.uniform(-6, 6), fd, flux]
    if model == 'bdf':
        return head + [T, fd, flux]
    return head + [T, flux]


def build(rng, model, pars, cm):
    if model == 'cm':
        return GMixCM(cm[0], cm[1], pars)
    seq = gen.pick(rng, [list, tuple, np.array])(pars)
    name = gen.pick(rng, [model, _NUM[model]])
    if model == 'coellip':
        return gen.pick(rng, [lambda: GMixCoellip(seq), lambda: make_gmix_model(seq, name)])()
    if model == 'full':
        return gen.pick(rng, [lambda: GMix(pars=seq), lambda: make_gmix_model(seq, name)])()
    return gen.pick(rng, [lambda: GMixModel(seq, name), lambda: make_gmix_model(seq, name)])()


def check(mon, gm, comp, tag=''):
    """gm against reference components"""
    s, row, col, irr, irc, icc = ref.mix_moments(comp)
    got = ref.gmix_components(gm)
    mon.true('ngauss', len(gm) == len(comp) and len(got) == len(comp), len(gm), len(comp))
    big = abs(comp[:, 0]).sum()
    mon.close('flux', gm.get_flux(), s, rtol=1e-7, scale=big*1e-3, detail=tag)
    mon.close('flux', gm.get_psum(), s, rtol=1e-7, scale=big*1e-3, detail=tag)
    T = irr + icc
    sz = np.sqrt(abs(T))
    mon.close('cen', list(gm.get_cen()), [row, col], rtol=1e-7, scale=sz*0.01 + abs(row)*1e-3 + abs(col)*1e-3, detail=tag)
    mon.close('T', gm.get_T(), T, rtol=1e-7, detail=tag)
    mon.close('T', gm.get_sigma(), np.sqrt(T/2), rtol=1e-7, detail=tag)
    e1, e2 = (icc - irr)/T, 2*irc/T
    o1, o2, oT = gm.get_e1e2T()
    mon.close('shape', [o1, o2, oT/T], [e1, e2, 1], rtol=1e-7, atol=1e-8, detail=tag + 'e1e2T')
    o1, o2, os = gm.get_e1e2sigma()
    mon.close('shape', [o1, o2, os**2*2/T], [e1, e2, 1], rtol=1e-7, atol=1e-8, detail=tag + 'e1e2sigma')
    e = np.hypot(e1, e2)
    f = np.tanh(0.5*np.arctanh(e))/e if e > 0 else 0.0
    o1, o2, oT = gm.get_g1g2T()
    mon.close('shape', [o1, o2, oT/T], [f*e1, f*e2, 1], rtol=1e-6, atol=1e-7, detail=tag + 'g1g2T')
    o1, o2, os = gm.get_g1g2sigma()
    mon.close('shape', [o1, o2, os**2*2/T], [f*e1, f*e2, 1], rtol=1e-6, atol=1e-7, detail=tag + 'g1g2sigma')
    # the profile: surface brightness along two directions
    r = sz*np.array([0.0, 0.03, 0.1, 0.3, 0.7, 1.0, 2.0, 4.0])
    v = np.concatenate([row + r, row + 0.3*r])
    u = np.concatenate([col - 0.5*r, col + r])
    a = ref.eval_components(got, v, u)
    b = ref.eval_components(comp, v, u)
    mon.close('profile', a, b, rtol=1e-6, scale=abs(b).max()*1e-6, detail=tag)


def construct(mon, rng, idx):
    model = MODELS[idx % len(MODELS)]
    pars = rand_pars(rng, model, far=True)
    cm = (gen.pick(rng, [0.0, 1.0, rng.uniform()]), gen.loguni(rng, 0.05, 20) if rng.randint(3) else gen.loguni(rng, 1e-6, 1e6))
    keep = list(pars)
    mon.describe(model=model, pars=pars, cm=cm if model == 'cm' else None)
    gm = build(rng, model, pars, cm)
    mon.true('inputs', list(pars) == keep)
    comp = expected(model, pars, *cm)
    check(mon, gm, comp)
    if rng.randint(3) == 0:
        # the code's own evaluation, at the scale of the mixture
        m = ref.mix_moments(comp)
        sc = np.sqrt(abs(m[3] + m[5]))*gen.loguni(rng, 0.1, 1)
        dims = gen.dims(rng, 2, 7)
        jac = ngmix.Jacobian(row=dims[0]/2 - m[1]/sc, col=dims[1]/2 - m[2]/sc, dvdrow=sc, dvdcol=0, dudrow=0, dudcol=sc)
        im = gm.make_image(dims, jacobian=jac)
        e = ref.render(comp, dims, ref.Jac.of(jac))
        mag = ref.render(np.column_stack([abs(comp[:, 0]), comp[:, 1:]]), dims, ref.Jac.of(jac))
        # positions are rounded where the mixture is small compared with its distance from the origin
        lim = 1e-6 + 1e-13*(abs(m[1]) + abs(m[2]))/sc*comp[:, 3:6:2].sum(axis=1).max()/comp[:, 3:6:2].sum(axis=1).min()
        if lim < 1e-3 and (comp[:, 3]*comp[:, 5] - comp[:, 4]**2 > 1e-9*(comp[:, 3] + comp[:, 5])**2).all():
            mon.close('rendered', im, e, rtol=10*lim, scale=mag + mag.max()*1e-3)
    if model != 'full':
        # the parameters come back
        row, col, g1, g2 = pars[:4]
        mon.close('cen', list(gm.get_cen()), [row, col], rtol=1e-9, atol=1e-9)
        o1, o2, oT = gm.get_g1g2T()
        mon.close('shape', [o1, o2], [g1, g2], rtol=1e-6, atol=1e-7)
        if model != 'coellip':
            mon.close('T', oT, pars[4], rtol=1e-6 if model in ('gauss', 'turb', 'exp', 'dev') else 1e-9)
            mon.close('flux', gm.get_flux(), pars[-1], rtol=1e-6)
        d = ref.gmix_components(gm)
        mon.close('co-elliptical', d[:, 1], np.full(len(d), row), rtol=1e-12)
        mon.close('co-elliptical', d[:, 2], np.full(len(d), col), rtol=1e-12)
        Ti = d[:, 3] + d[:, 5]
        mon.close('co-elliptical', (d[:, 5] - d[:, 3])/Ti, np.full(len(d), 2*g1/(1 + g1*g1 + g2*g2)), rtol=1e-6,
                  atol=1e-8)
        mon.close('co-elliptical', 2*d[:, 4]/Ti, np.full(len(d), 2*g2/(1 + g1*g1 + g2*g2)), rtol=1e-6, atol=1e-8)
    mon.true('names', get_model_num(model) == _NUM[model] and get_model_num(_NUM[model]) == _NUM[model]
             and get_model_name(_NUM[model]) == model and get_model_name(model) == model, model)
    if model in _NG:
        mon.true('names', get_model_ngauss(_NUM[model]) == _NG[model] and get_model_npars(model) == _NP[model]
                 and get_model_npars(_NUM[model]) == _NP[model] and len(gm) == _NG[model], model)
    n = rng.randint(1, 9)
    mon.true('names', get_coellip_npars(n) == 4 + 2*n and get_coellip_ngauss(4 + 2*n) == n, n)


def history(mon, rng, idx):
    """fill, set_flux, set_cen, evaluate, copy, refused fill in any order"""
    model = MODELS[idx % len(MODELS)]
    n = rng.randint(1, 6)
    pars = rand_pars(rng, model, n=n)
    cm = (rng.uniform(), gen.loguni(rng, 0.1, 10))
    gm = build(rng, model, pars, cm)
    comp = expected(model, pars, *cm)
    ops = []
    others = []
    for _ in range(rng.randint(2, 9)):
        op = gen.pick(rng, ['fill', 'fill', 'flux', 'cen', 'image', 'norms', 'copy', 'badfill', 'badlen'])
        ops.append(op)
        if op == 'fill':
            pars = rand_pars(rng, model, n=n)
            gm.fill(gen.pick(rng, [list, tuple, np.array])(pars))
            comp = expected(model, pars, *cm)
        elif op == 'flux':
            f = gen.loguni(rng, 1e-3, 1e4)*gen.pick(rng, [1, 1, -1])
            gen.pick(rng, [gm.set_flux, gm.set_psum])(f)
            comp = comp.copy()
            comp[:, 0] *= f/comp[:, 0].sum()
        elif op == 'cen':
            r, c = rng.normal(size=2)*5
            gm.set_cen(r, c)
            s = ref.mix_moments(comp)
            comp = comp.copy()
            comp[:, 1] += r - s[1]
            comp[:, 2] += c - s[2]
        elif op == 'image':
            dims = gen.dims(rng, 3, 9)
            jac = ngmix.DiagonalJacobian(row=dims[0]/2, col=dims[1]/2, scale=gen.loguni(rng, 0.2, 2))
            im = gm.make_image(dims, jacobian=jac)
            e = ref.render(comp, dims, ref.Jac.of(jac))
            mon.close('anew', im, e, rtol=1e-6, scale=abs(e).max() + abs(comp[:, 0]).sum()*1e-6, detail=('image', ops))
        elif op == 'norms':
            gen.pick(rng, [gm.set_norms, gm.set_norms_if_needed])()
        elif op == 'copy':
            others.append((gm, comp.copy()))
            gm = gen.pick(rng, [lambda x: x.copy(), copy.copy, copy.deepcopy])(gm)
        elif op == 'badfill':
            if model == 'full':
                continue
            bad = rand_pars(rng, model, n=n)
            t = rng.uniform(0, 2*np.pi)
            rr = gen.pick(rng, [1.0000001, 1.5, 10.0])
            bad[2:4] = [rr*np.cos(t), rr*np.sin(t)]
            mon.raises('refused', GMixRangeError, gm.fill, bad)
        else:
            bad = list(rand_pars(rng, model, n=n)) + [1.0]
            mon.raises('refused', ValueError, gm.fill, bad)
            mon.raises('refused', ValueError, gm.fill, bad[:-2])
        check(mon, gm, comp, tag=str(ops))
        mon._count('anew')
    for o, c in others:
        check(mon, o, c, tag='original of a copy')
    mon.describe(model=model, ops=ops, pars=pars)


def refused(mon, rng, idx):
    model = gen.pick(rng, MODELS[:-1])
    pars = rand_pars(rng, model)
    t = rng.uniform(0, 2*np.pi)
    rr = gen.pick(rng, [1 + 1e-9, 1.1, 1e3])
    bad = list(pars)
    bad[2:4] = [rr*np.cos(t), rr*np.sin(t)]
    mon.describe(model=model, bad=bad)
    mon.raises('refused', GMixRangeError, build, rng, model, bad, (0.3, 1.0))
    if model != 'coellip':
        for b in (pars + [1.0], pars[:-1], []):
            mon.raises('refused', ValueError, build, rng, model, b, (0.3, 1.0))
    else:
        mon.raises('refused', ValueError, GMixCoellip, pars + [1.0])
    mon.raises('refused', ValueError, GMix, pars=np.zeros(6*rng.randint(1, 4) + rng.randint(1, 6)))
    mon.raises('refused', ValueError, GMix)
    mon.raises('refused', ValueError, make_gmix_model, pars, gen.pick(rng, ['blah', 99, 'expo']))


def galsim_profile(mon, rng, idx):
    """profiles against the analytic ones of galsim"""
    import galsim
    from scipy.optimize import brentq
    model = gen.pick(rng, ['gauss', 'exp', 'dev'])
    T = gen.loguni(rng, 0.01, 100)
    flux = gen.loguni(rng, 0.1, 1e3)
    mon.describe(model=model, T=T, flux=flux)
    gm = GMixModel([0.0, 0.0, 0.0, 0.0, T, flux], model)
    c = ref.gmix_components(gm)
    hlr = brentq(lambda r: (c[:, 0]*(1 - np.exp(-r*r/2/c[:, 3]))).sum()/flux - 0.5, 1e-4*np.sqrt(T), 10*np.sqrt(T))
    mon.close('galsim-profile', T/hlr**2, {'gauss': 1/np.log(2.0), 'exp': 2.0912, 'dev': 6.3249}[model], rtol=1e-3)
    cls = {'gauss': galsim.Gaussian, 'exp': galsim.Exponential, 'dev': galsim.DeVaucouleurs}[model]
    obj = cls(half_light_radius=hlr, flux=flux)
    for x in (0.1, 0.3, 0.5, 1.0, 1.5, 2.0, 3.0):
        sb = ref.eval_components(c, x*hlr, 0.0)
        tol = {'gauss': 1e-6, 'exp': 0.015, 'dev': 0.15}[model]
        mon.close('galsim-profile', sb, obj.xValue(x*hlr, 0.0), rtol=tol, detail=('at', x, 'half light radii'))


WORKLOADS = [
    Workload('construct', construct, 3600, 40000, warm=9),
    Workload('history', history, 2700, 30000, warm=9),
    Workload('refused', refused, 600, 5000),
    Workload('galsim_profile', galsim_profile, 200, 2000),
]
