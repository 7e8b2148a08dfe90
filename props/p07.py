"""Mixture transformations against second-moment algebra."""
import copy
import numpy as np
import ngmix
from ngmix import GMix, GMixModel, Shape
from ngmix.gmix import gmix_concat
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref, snap
from vlib.core import Workload
from props.p06 import rand_pars, build, expected, MODELS

PROP = 'P07'
RULE = """random mixtures (all models and full mixtures of 1-8 gaussians with scattered centres), kernels that are off-centre
and not normalised, shears up to 0.9, random chains of transformations with evaluations (rendering, norms, likelihood) in
between; each step is compared component by component with 2x2 matrix algebra and the inputs with a snapshot taken
before; cases differ by mixture, chain and parameters"""
REQUIRED = ['moments', 'equal', 'convolve', 'shear', 'round', 'concat', 'galsim', 'inputs', 'det', 'chain']


def rand_mix(rng):
    """a mixture and its reference components"""
    if rng.uniform() < 0.5:
        gm, comp = gen.full_gmix(rng, gmax=0.8, signs=True)
        if abs(comp[:, 0].sum()) < 0.05:
            comp[:, 0] = abs(comp[:, 0])
            gm = GMix(pars=comp.ravel())
        kind = 'full'
    else:
        kind = gen.pick(rng, MODELS[:-1])
        pars = rand_pars(rng, kind)
        pars[2:4] = gen.disk(rng, 0.8)
        cm = (rng.uniform(), gen.loguni(rng, 0.1, 10))
        gm = build(rng, kind, pars, cm)
        comp = expected(kind, pars, *cm)
    return gm, comp, kind


def same_mix(mon, name, gm, comp, tag=''):
    got = ref.gmix_components(gm)
    mon.true(name, got.shape == comp.shape, got.shape, comp.shape, tag)
    mon.true(name, len(gm) == len(comp))
    # gaussians are compared as a set: the order is not part of the algebra
    def srt(c):
        c = c.copy()
        sc = np.abs(c).max(axis=0) + 1e-300
        key = np.round(c/sc, 6) + 0.0
        return np.lexsort(key.T[::-1])
    Tall = comp[:, 3] + comp[:, 5]
    size = np.sqrt(np.abs(Tall).max()) + np.abs(comp[:, 1:3]).max()
    a, b = got, comp
    if not np.allclose(a, b, rtol=1e-6, atol=1e-6*np.abs(b).max()):
        a, b = got[srt(got)], comp[srt(comp)]
    T = b[:, 3] + b[:, 5]
    mon.close(name, a[:, 0], b[:, 0], rtol=1e-7, scale=1e-3*abs(b[:, 0]).max(), detail=(tag, 'p'))
    mon.close(name, a[:, 1], b[:, 1], rtol=1e-7, scale=1e-2*size, detail=(tag, 'row'))
    mon.close(name, a[:, 2], b[:, 2], rtol=1e-7, scale=1e-2*size, detail=(tag, 'col'))
    for k, n in ((3, 'irr'), (4, 'irc'), (5, 'icc')):
        mon.close(name, a[:, k]/T, b[:, k]/T, rtol=1e-6, atol=1e-8, detail=(tag, n))
    # the size reported, and the reported moments of mixtures whose gaussians are not at one place
    m = ref.mix_moments(comp)
    big = abs(comp[:, 0]).sum()
    if abs(m[0]) > 0.05*big:
        sz = (abs(comp[:, 0])*(T.max() + (comp[:, 1] - m[1])**2 + (comp[:, 2] - m[2])**2)).sum()/abs(m[0])
        mon.close('moments', gm.get_T(), m[3] + m[5], rtol=1e-7, scale=sz, detail=tag)
        mon.close('moments', list(gm.get_cen()), m[1:3], rtol=1e-7, scale=size*big/abs(m[0]), detail=tag)
        mon.close('moments', gm.get_flux(), m[0], rtol=1e-7, scale=big, detail=tag)
        if m[3] + m[5] > 1e-3*sz:
            mon.close('moments', gm.get_sigma()**2*2, m[3] + m[5], rtol=1e-7, scale=sz, detail=tag)
            e = np.array([m[5] - m[3], 2*m[4]])/(m[3] + m[5])
            if np.hypot(*e) < 0.999:
                o = gm.get_e1e2T()
                mon.close('moments', o[:2], e, rtol=1e-6, scale=sz/(m[3] + m[5]), detail=tag)
                mon.close('moments', o[2], m[3] + m[5], rtol=1e-7, scale=sz, detail=tag)
    # consistent determinant, and evaluations that agree with the components
    data = gm.get_data()
    mon.close('det', data['det'], got[:, 3]*got[:, 5] - got[:, 4]**2, rtol=1e-6, scale=1e-6*(got[:, 3] + got[:, 5])**2,
              detail=tag)


def evaluate(mon, rng, gm, comp, tag=''):
    dims = gen.dims(rng, 2, 7)
    sz = np.sqrt(np.abs(comp[:, 3:6:2].sum(axis=1)).max())
    s = sz*gen.loguni(rng, 0.2, 2)
    m = ref.mix_moments(comp)
    jac = ngmix.Jacobian(row=dims[0]/2 - m[1]/s, col=dims[1]/2 - m[2]/s, dvdrow=s, dvdcol=0, dudrow=0, dudcol=s)
    im = gm.make_image(dims, jacobian=jac)
    e = ref.render(comp, dims, ref.Jac.of(jac))
    a = np.column_stack([abs(comp[:, 0]), comp[:, 1:]])
    mag = ref.render(a, dims, ref.Jac.of(jac))
    mon.close('evaluate', im, e, rtol=1e-6, atol=1e-280, scale=mag + mag.max()*1e-3, detail=tag)


def tconvolve(mon, rng, gm, comp):
    psf, pc, k = rand_mix(rng)
    while abs(pc[:, 0].sum()) < 0.02*abs(pc[:, 0]).sum():
        psf, pc, k = rand_mix(rng)
    if rng.uniform() < 0.5:
        evaluate(mon, rng, psf, pc, 'psf')
    s = snap.snap(psf)
    new = gm.convolve(psf)
    d = snap.diff_snap(snap.snap(psf), s)
    mon.true('inputs', d is None, 'psf changed', d)
    out = ref.convolve(comp, pc)
    same_mix(mon, 'convolve', new, out)
    # moments add
    a, b, c = ref.mix_moments(comp), ref.mix_moments(pc), ref.mix_moments(ref.gmix_components(new))
    big = abs(comp[:, 0]).sum()
    if abs(a[0]) > 0.05*big:
        mon.close('convolve', c[0], a[0], rtol=1e-7, scale=big*1e-2, detail='flux')
        sz = np.sqrt(abs(a[3]) + abs(a[5]) + abs(b[3]) + abs(b[5])) + abs(comp[:, 1:3]).max()
        mon.close('convolve', c[1:3], a[1:3], rtol=1e-6, scale=sz, detail='centre')
        mon.close('convolve', c[3:], np.array(a[3:]) + np.array(b[3:]), rtol=1e-6, scale=sz**2, detail='second moments')
    return new, out, 'convolve ' + k


def tshear(mon, rng, gm, comp):
    s1, s2 = gen.disk(rng, 0.9)
    new = gen.pick(rng, [lambda: gm.get_sheared(s1, s2), lambda: gm.get_sheared(Shape(s1, s2)),
                         lambda: gm.get_sheared(s1, s2=s2)])()
    out = comp.copy()
    for i in range(len(out)):
        out[i, 3:] = ref.shear_cov(*comp[i, 3:], s1, s2)
    same_mix(mon, 'shear', new, out, (s1, s2))
    return new, out, 'shear %.3f %.3f' % (s1, s2)


def tround(mon, rng, gm, comp):
    m = ref.mix_moments(comp)
    T = m[3] + m[5]
    mat = np.array([[m[3], m[4]], [m[4], m[5]]])
    ev = np.linalg.eigvalsh(mat)
    if not (ev > 1e-6*T).all() or T <= 0:
        return gm, comp, 'noround'
    pres = bool(rng.uniform() < 0.5)
    new = gm.make_round(preserve_size=pres)
    if pres:
        f = ev.max()/(T/2)
    else:
        # the size a shear to round leaves: sqrt(det) per dimension
        f = 2*np.sqrt(ev[0]*ev[1])/T
    out = comp.copy()
    Ti = comp[:, 3] + comp[:, 5]
    out[:, 3] = out[:, 5] = 0.5*Ti*f
    out[:, 4] = 0.0
    same_mix(mon, 'round', new, out, 'preserve_size=%s' % pres)
    mon.close('round', new.get_flux(), gm.get_flux(), rtol=1e-12)
    if pres:
        r = ref.mix_moments(out - np.column_stack([out[:, 0]*0, out[:, 1:3] - out[:1, 1:3], out[:, 3:]*0]))
    return new, out, 'round %s' % pres


def tconcat(mon, rng, gm, comp):
    mixes, comps = [gm], [comp]
    for _ in range(rng.randint(0, 3)):
        g, c, k = rand_mix(rng)
        if rng.uniform() < 0.5:
            evaluate(mon, rng, g, c, 'part')
        mixes.append(g)
        comps.append(c)
    order = rng.permutation(len(mixes))
    mixes = [mixes[i] for i in order]
    comps = [comps[i] for i in order]
    s = snap.snap(mixes)
    new = gmix_concat(gen.pick(rng, [list, tuple])(mixes))
    mon.true('inputs', snap.diff_snap(snap.snap(mixes), s) is None, 'concat changed an input')
    out = np.concatenate(comps)
    same_mix(mon, 'concat', new, out)
    return new, out, 'concat %d' % len(mixes)


def tcopy(mon, rng, gm, comp):
    new = gen.pick(rng, [lambda x: x.copy(), copy.copy, copy.deepcopy])(gm)
    mon.true('equal', new == gm and not new != gm, 'a copy differs')
    # another mixture is not equal
    full = GMix(pars=ref.gmix_components(gm).ravel())
    mon.true('equal', full == gm and gm == full, 'same gaussians differ')
    other = ref.gmix_components(gm).copy()
    i, k = rng.randint(len(other)), rng.randint(6)
    if k == 4:
        other[i, 4] *= -1
    elif k in (1, 2):
        other[i, k] += np.sqrt(other[i, 3] + other[i, 5])*0.1
    else:
        other[i, k] *= 1.1
    if (other != ref.gmix_components(gm)).any():
        o = GMix(pars=other.ravel())
        mon.true('equal', not (o == full) and not (full == o) and o != full, 'different gaussians are equal', k)
    return new, comp, 'copy'


def tset(mon, rng, gm, comp):
    """in-place updates between transformations, on a copy the chain owns"""
    gm = gm.copy()
    comp = comp.copy()
    if rng.uniform() < 0.5:
        evaluate(mon, rng, gm, comp, 'before set')
    m = ref.mix_moments(comp)
    if abs(m[0]) < 0.05*abs(comp[:, 0]).sum():
        return gm, comp, 'noset'
    if rng.uniform() < 0.5:
        f = gen.loguni(rng, 0.1, 10)
        gm.set_flux(f)
        comp[:, 0] *= f/m[0]
        return gm, comp, 'set_flux'
    r, c = rng.normal(size=2)
    gm.set_cen(r, c)
    comp[:, 1] += r - m[1]
    comp[:, 2] += c - m[2]
    return gm, comp, 'set_cen'


TRANS = [tconvolve, tshear, tround, tconcat, tcopy, tset, tshear, tconvolve]


def chain(mon, rng, idx):
    gm, comp, kind = rand_mix(rng)
    ops = [kind]
    alive = []
    for _ in range(rng.randint(1, 5)):
        if len(comp) > 150:
            break
        if rng.uniform() < 0.5:
            evaluate(mon, rng, gm, comp, str(ops))
        s = snap.snap(gm)
        alive.append((gm, comp, s))
        f = TRANS[rng.randint(len(TRANS))]
        new, comp, op = f(mon, rng, gm, comp)
        ops.append(op)
        d = snap.diff_snap(snap.snap(gm), s)
        mon.true('inputs', d is None, 'input changed by', str(ops), d)
        gm = new
        mon._count('chain')
    evaluate(mon, rng, gm, comp, str(ops))
    # what came before is still as it was, also after the results were evaluated
    for g, c, s in alive:
        d = snap.diff_snap(snap.snap(g), s)
        mon.true('inputs', d is None, 'earlier mixture changed', str(ops), d)
        evaluate(mon, rng, g, c, 'earlier ' + str(ops))
    mon.describe(ops=ops, comp0=alive[0][1][0] if alive else None)


def galsim_export(mon, rng, idx):
    import galsim
    gm, comp, kind = rand_mix(rng)
    while len(comp) > 10 and rng.uniform() < 0.7:
        gm, comp, kind = rand_mix(rng)
    # galsim has a minimum size; stay above it
    T = comp[:, 3] + comp[:, 5]
    if T.min() < 1e-4:
        f = 1e-4/T.min()
        comp[:, 3:] *= f
        comp[:, 1:3] *= np.sqrt(f)
        gm = GMix(pars=comp.ravel())
        kind += '-scaled'
    mon.describe(kind=kind, comp=comp[0], n=len(comp))
    if rng.uniform() < 0.5:
        evaluate(mon, rng, gm, comp)
    s = snap.snap(gm)
    obj = gen.pick(rng, [lambda: gm.make_galsim_object(),
                         lambda: gm.make_galsim_object(gsparams={'maximum_fft_size': 8192}),
                         lambda: gm.make_galsim_object(gsparams=galsim.GSParams(maximum_fft_size=8192))])()
    mon.true('inputs', snap.diff_snap(snap.snap(gm), s) is None, 'export changed the mixture')
    big = abs(comp[:, 0]).sum()
    mon.close('galsim', obj.flux, comp[:, 0].sum(), rtol=1e-7, scale=big*1e-2)
    parts = obj.obj_list if hasattr(obj, 'obj_list') else [obj]
    mon.true('galsim', len(parts) == len(comp), len(parts), len(comp))
    sz = np.sqrt(T.max())
    for _ in range(6):
        i = rng.randint(len(comp))
        v = comp[i, 1] + rng.normal()*np.sqrt(T[i])
        u = comp[i, 2] + rng.normal()*np.sqrt(T[i])
        a = sum(o.xValue(u, v) for o in parts)
        e = float(ref.eval_components(comp, v, u))
        m = float(ref.eval_components(np.column_stack([abs(comp[:, 0]), comp[:, 1:]]), v, u))
        mon.close('galsim', a, e, rtol=2e-5, scale=m, detail='xValue')
        # fourier space too
        kx, ky = rng.normal(size=2)/sz
        q = comp[:, 5]*kx*kx + comp[:, 3]*ky*ky + 2*comp[:, 4]*kx*ky
        e = (comp[:, 0]*np.exp(-0.5*q)*np.exp(-1j*(kx*comp[:, 2] + ky*comp[:, 1]))).sum()
        a = sum(o.kValue(kx, ky) for o in parts)
        mon.close('galsim', a, e, rtol=2e-5, scale=big, detail='kValue')
    mon.raises('refused', TypeError, gm.make_galsim_object, gsparams=[1, 2])


def refused(mon, rng, idx):
    gm, comp, kind = rand_mix(rng)
    t = rng.uniform(0, 2*np.pi)
    r = gen.pick(rng, [1.001, 1.5, 5.0])
    mon.describe(kind=kind, r=r, t=t)
    s = snap.snap(gm)
    mon.raises('refused', GMixRangeError, gm.get_sheared, r*np.cos(t), r*np.sin(t))
    mon.raises('refused', (TypeError, AttributeError), gm.convolve, gen.pick(rng, [3, None, 'x', np.zeros(3)]))
    mon.raises('refused', ValueError, gm.get_sheared, 0.1)
    mon.raises('refused', ValueError, gmix_concat, [])
    mon.true('inputs', snap.diff_snap(snap.snap(gm), s) is None, 'refused call changed the mixture')


WORKLOADS = [
    Workload('chain', chain, 4000, 50000, warm=12),
    Workload('galsim_export', galsim_export, 1200, 10000, warm=3),
    Workload('refused', refused, 300, 3000),
]
