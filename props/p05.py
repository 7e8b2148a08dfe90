"""Shape and moment algebra against 2x2 matrices and complex shear addition."""
import numpy as np
import ngmix
from ngmix import shape, moments, Shape
from ngmix.gexceptions import GMixRangeError
from vlib import gen, ref
from vlib.core import Workload

PROP = 'P05'
RULE = """pairs of shapes with modulus up to 1-1e-6 (zero, axis-aligned and nearly-unit ones over-represented), sizes over
12 decades, rotation angles of any size, scalars and arrays, shapes at or outside the unit circle; a case is non-trivial
when results were compared with explicit 2x2 moment matrices; cases differ by their shapes"""
REQUIRED = ['g-e', 'g-eta', 'shear-matrix', 'compose-inverse', 'rotate', 'sizes', 'refused', 'moments', 'sheared-T',
            'jacobian', 'limit', 'tiny']


def _shape(rng, near=True):
    k = rng.randint(10)
    if near and k == 0:
        r = 1 - gen.loguni(rng, 1e-6, 1e-1)
        t = rng.uniform(0, 2*np.pi)
        return r*np.cos(t), r*np.sin(t)
    if k == 1:
        r = gen.loguni(rng, 1e-12, 1e-2)
        t = rng.uniform(0, 2*np.pi)
        return r*np.cos(t), r*np.sin(t)
    return gen.disk(rng, 0.95)


def _call(rng, f, *args):
    """call with scalars or with arrays holding the values; returns a tuple of floats"""
    if rng.uniform() < 0.5:
        out = f(*args)
        return tuple(float(x) for x in (out if isinstance(out, tuple) else (out,)))
    n = rng.randint(1, 4)
    i = rng.randint(n)
    filled = []
    for a in args:
        x = np.zeros(n) + 0.5*a
        x[i] = a
        filled.append(x)
    keep = [x.copy() for x in filled]
    out = f(*filled)
    for x, y in zip(filled, keep):
        assert np.array_equal(x, y), 'input array was modified'
    return tuple(float(np.asarray(x)[i]) for x in (out if isinstance(out, tuple) else (out,)))


def _mat(g1, g2, T):
    irr, irc, icc = ref.cov_of(g1, g2, T)
    return np.array([[icc, irc], [irc, irr]])


def _gof(m):
    """reduced shear of a moment matrix, through its definition"""
    icc, irr, irc = m[0, 0], m[1, 1], m[0, 1]
    T = icc + irr
    chi = (icc - irr + 2j*irc)
    det = icc*irr - irc*irc
    g = chi/(T + 2*np.sqrt(max(det, 0.0)))
    return g.real, g.imag, T


def conversions(mon, rng, idx):
    g1, g2 = _shape(rng)
    mon.describe(g=(g1, g2))
    gsq = g1*g1 + g2*g2
    edge = 1 - np.sqrt(gsq)
    e1, e2 = _call(rng, shape.g1g2_to_e1e2, g1, g2)
    x1, x2 = 2*g1/(1 + gsq), 2*g2/(1 + gsq)
    mon.close('g-e', [e1, e2], [x1, x2], rtol=1e-8, atol=1e-15)
    # close to the edge 1-e loses digits: it is ~ edge**2/2
    tol = 1e-9 + 1e-14/edge**2
    b1, b2 = _call(rng, shape.e1e2_to_g1g2, x1, x2)
    if np.hypot(x1, x2) < 1:
        mon.close('g-e', [b1, b2], [g1, g2], rtol=tol, atol=1e-15, detail='e to g')
    eta = 2*np.arctanh(np.sqrt(gsq))
    h1, h2 = _call(rng, shape.g1g2_to_eta1eta2, g1, g2)
    f = eta/np.sqrt(gsq) if gsq > 0 else 0.0
    mon.close('g-eta', [h1, h2], [f*g1, f*g2], rtol=1e-8, atol=1e-15)
    b1, b2 = _call(rng, shape.eta1eta2_to_g1g2, f*g1, f*g2)
    mon.close('g-eta', [b1, b2], [g1, g2], rtol=1e-8, atol=1e-15, detail='eta to g')
    h1, h2 = _call(rng, shape.e1e2_to_eta1eta2, e1, e2)
    mon.close('g-eta', [h1, h2], [f*g1, f*g2], rtol=1e-6 + 1e-14/edge**2, atol=1e-15, detail='e to eta')
    # moments
    T = gen.loguni(rng, 1e-6, 1e6)
    m = _mat(g1, g2, T)
    irr, irc, icc = _call(rng, moments.g2mom, g1, g2, T)
    mon.close('moments', [irr, irc, icc], [m[1, 1], m[0, 1], m[0, 0]], rtol=1e-9, scale=T*1e-3, detail='g2mom')
    irr, irc, icc = _call(rng, moments.e2mom, x1, x2, T)
    mon.close('moments', [irr, irc, icc], [m[1, 1], m[0, 1], m[0, 0]], rtol=1e-9, scale=T*1e-3, detail='e2mom')
    mm = (m[1, 1], m[0, 1], m[0, 0])
    o1, o2, oT = _call(rng, moments.mom2e, *mm)
    mon.close('moments', [o1, o2, oT/T], [x1, x2, 1.0], rtol=1e-9, atol=1e-12, detail='mom2e')
    if edge > 1e-4:
        o1, o2, oT = _call(rng, moments.mom2g, *mm)
        mon.close('moments', [o1, o2, oT/T], [g1, g2, 1.0], rtol=tol, atol=1e-12, detail='mom2g')
    M1, M2 = m[0, 0] - m[1, 1], 2*m[0, 1]
    o1, o2 = _call(rng, moments.moms_to_e1e2, M1, M2, T)
    mon.close('moments', [o1, o2], [x1, x2], rtol=1e-9, atol=1e-12, detail='moms_to_e1e2')
    # round size: det preserved
    Tr, = _call(rng, moments.get_Tround, T, g1, g2)
    mon.close('moments', Tr, T*(1 - gsq)/(1 + gsq), rtol=1e-9, detail='Tround')
    if edge > 1e-4:
        mon.close('moments', (Tr/2)**2, np.linalg.det(m), rtol=1e-6, detail='Tround and det')
    Tb, = _call(rng, moments.get_T, Tr, g1, g2)
    mon.close('moments', Tb, T, rtol=1e-9, detail='get_T')
    rf, = _call(rng, shape.get_round_factor, g1, g2)
    mon.close('moments', rf, Tr/T, rtol=1e-9, detail='round factor')
    s = Shape(g1, g2)
    mon.close('moments', [s.g1, s.g2, s.g], [g1, g2, np.sqrt(gsq)], rtol=1e-14)


def shearing(mon, rng, idx):
    g1, g2 = _shape(rng, near=False)
    s1, s2 = _shape(rng, near=False)
    T = gen.loguni(rng, 1e-6, 1e6)
    mon.describe(g=(g1, g2), s=(s1, s2), T=T)
    g, s = g1 + 1j*g2, s1 + 1j*s2
    exp = (g + s)/(1 + np.conj(s)*g)
    o = _call(rng, shape.shear_reduced, g1, g2, s1, s2)
    edge = min(1 - abs(g), 1 - abs(s))
    mon.close('shear-matrix', o, [exp.real, exp.imag], rtol=1e-10, atol=1e-12)
    # against matrices
    S = ref.shear_matrix(s1, s2)
    ms = S @ _mat(g1, g2, T) @ S.T
    if abs(exp) < 1 - 1e-4:
        x1, x2, xT = _gof(ms)
        mon.close('shear-matrix', o, [x1, x2], rtol=1e-6, atol=1e-8, detail='matrix')
        sh = Shape(g1, g2)
        new = gen.pick(rng, [lambda: sh.get_sheared(s1, s2), lambda: sh.get_sheared(Shape(s1, s2))])()
        mon.close('shear-matrix', [new.g1, new.g2], [exp.real, exp.imag], rtol=1e-10, atol=1e-12)
        mon.close('shear-matrix', [sh.g1, sh.g2], [g1, g2], rtol=0, detail='input shape changed')
        a1, a2, aT = _call(rng, moments.get_sheared_g1g2T, g1, g2, T, s1, s2)
        mon.close('sheared-T', [a1, a2], [exp.real, exp.imag], rtol=1e-9, atol=1e-11)
        mon.close('sheared-T', aT, xT, rtol=1e-7, detail='T after shear')
        if edge > 1e-3:
            m = _mat(g1, g2, T)
            irr, irc, icc = _call(rng, moments.get_sheared_moments, m[1, 1], m[0, 1], m[0, 0], s1, s2)
            mon.close('sheared-T', [irr, irc, icc], [ms[1, 1], ms[0, 1], ms[0, 0]], rtol=1e-6, scale=xT*1e-3)
            M1, M2, MT = _call(rng, moments.get_sheared_M1M2T, m[0, 0] - m[1, 1], 2*m[0, 1], T, s1, s2)
            mon.close('sheared-T', [M1, M2, MT], [ms[0, 0] - ms[1, 1], 2*ms[0, 1], xT], rtol=1e-6, scale=xT*1e-3)
        # inverse and composition
        b = _call(rng, shape.shear_reduced, o[0], o[1], -s1, -s2)
        mon.close('compose-inverse', b, [g1, g2], rtol=1e-9, atol=1e-10/edge/(1 - abs(exp)))
        n = -Shape(s1, s2)
        mon.close('compose-inverse', [n.g1, n.g2], [-s1, -s2], rtol=0)
        t1, t2 = gen.disk(rng, 0.5)
        two = _call(rng, shape.shear_reduced, o[0], o[1], t1, t2)
        m2 = ref.shear_matrix(t1, t2) @ ms @ ref.shear_matrix(t1, t2).T
        y1, y2, yT = _gof(m2)
        mon.close('compose-inverse', two, [y1, y2], rtol=1e-6, atol=1e-7, detail='two shears')
    # jacobian of the shear by central differences
    if edge > 0.05 and abs(exp) < 0.95:
        h = 1e-5
        d = []
        for k in range(2):
            dp = np.array(shape.shear_reduced(g1 + h*(k == 0), g2 + h*(k == 1), s1, s2))
            dm = np.array(shape.shear_reduced(g1 - h*(k == 0), g2 - h*(k == 1), s1, s2))
            d.append((dp - dm)/(2*h))
        num = abs(np.linalg.det(np.array(d)))
        j, = _call(rng, shape.dgs_by_dgo_jacob, g1, g2, s1, s2)
        mon.close('jacobian', j, num, rtol=1e-4, atol=1e-7)


def rotation(mon, rng, idx):
    g1, g2 = _shape(rng)
    th = rng.normal()*gen.pick(rng, [0.01, 1.0, 10.0]) if rng.uniform() < 0.8 else gen.pick(
        rng, [0.0, np.pi/4, np.pi/2, np.pi, -np.pi/2, 2*np.pi])
    mon.describe(g=(g1, g2), th=th)
    # coordinates turn by theta: x' = c x + s y
    c, s = np.cos(th), np.sin(th)
    R = np.array([[c, s], [-s, c]])
    m = R @ _mat(g1, g2, 1.0) @ R.T
    e1, e2 = m[0, 0] - m[1, 1], 2*m[0, 1]
    o = _call(rng, shape.rotate_shape, g1, g2, th)
    gsq = g1*g1 + g2*g2
    mon.close('rotate', [2*o[0]/(1 + gsq), 2*o[1]/(1 + gsq)], [e1, e2], rtol=1e-9, atol=1e-12)
    mon.close('rotate', np.hypot(*o), np.sqrt(gsq), rtol=1e-12, atol=1e-300, detail='modulus')
    sh = Shape(g1, g2)
    new = sh.get_rotated(th)
    mon.close('rotate', [new.g1, new.g2], o, rtol=1e-9, atol=1e-14)
    mon.close('rotate', [sh.g1, sh.g2], [g1, g2], rtol=0)
    cp = sh.copy()
    cp.rotate(th)
    mon.close('rotate', [cp.g1, cp.g2, cp.g], [new.g1, new.g2, new.g], rtol=1e-12, atol=1e-14)
    mon.close('rotate', [sh.g1, sh.g2], [g1, g2], rtol=0)
    # a shape set anew is the new shape in everything
    h1, h2 = _shape(rng)
    cp.set_g1g2(h1, h2)
    mon.close('rotate', [cp.g1, cp.g2, cp.g], [h1, h2, np.hypot(h1, h2)], rtol=1e-14, detail='set anew')
    # rotation and shear commute
    s1, s2 = gen.disk(rng, 0.9)
    a = shape.shear_reduced(g1, g2, s1, s2)
    if np.hypot(*a) < 1 - 1e-5 and gsq < (1 - 1e-5)**2:
        a = shape.rotate_shape(a[0], a[1], th)
        sr = shape.rotate_shape(s1, s2, th)
        b = shape.shear_reduced(o[0], o[1], sr[0], sr[1])
        mon.close('rotate', a, b, rtol=1e-7, atol=1e-9, detail='commute')


def sizes(mon, rng, idx):
    x = gen.loguni(rng, 1e-8, 1e8)
    mon.describe(x=x)
    arr = rng.uniform() < 0.4
    X = np.array([x, 2*x]) if arr else x
    k = np.sqrt(8*np.log(2.0))

    def chk(f, e):
        o = f(X)
        o = o[0] if arr else o
        mon.close('sizes', o, e, rtol=1e-12, detail=f.__name__)

    chk(moments.sigma_to_fwhm, k*x)
    chk(moments.fwhm_to_sigma, x/k)
    chk(moments.T_to_fwhm, k*np.sqrt(x/2))
    chk(moments.fwhm_to_T, 2*(x/k)**2)
    chk(moments.r50_to_sigma, 2*x/k)
    chk(moments.sigma_to_r50, k*x/2)
    chk(moments.r50_to_T, 2*(2*x/k)**2)
    chk(moments.T_to_r50, k/2*np.sqrt(x/2))


def limit(mon, rng, idx):
    """shapes so close to the unit circle that the conversion cannot tell the result from one"""
    r = 1 - gen.loguni(rng, 1.2e-16, 1e-7)
    t = gen.pick(rng, [0.0, np.pi/2, np.pi, -np.pi/2, rng.uniform(0, 2*np.pi)])
    g1, g2 = (r*np.round(np.cos(t)), r*np.round(np.sin(t))) if t in (0.0, np.pi/2, np.pi, -np.pi/2) else (r*np.cos(t), r*np.sin(t))
    if np.sqrt(g1*g1 + g2*g2) >= 1:
        g1, g2 = g1*(1 - 4e-16), g2*(1 - 4e-16)
    mon.describe(g=(g1, g2), edge=1 - r)
    d = np.array([np.cos(t), np.sin(t)])
    edge = 1 - np.hypot(g1, g2)
    for f, want in ((shape.g1g2_to_e1e2, 1 - edge**2/2), (shape.e1e2_to_g1g2, 1 - np.sqrt(2*edge) + edge)):
        o = np.array(mon.returns('limit', f, g1, g2))
        mon.true('limit', np.all(np.isfinite(o)) and np.hypot(*o) < 1 + 4e-16, f.__name__, 'modulus of the result', repr(np.hypot(*o)))
        # half a unit in the last place of the input is all of the edge here
        mon.close('limit', o, want*d, rtol=0, atol=1e-13 + (3*np.sqrt(1e-16) if 'to_g' in f.__name__ else 0) + 1e-3*np.sqrt(edge), detail=f.__name__)
        a = f(np.array([0.3, g1, 0.0]), np.array([0.1, g2, 0.0]))
        mon.close('limit', [a[0][1], a[1][1]], o, rtol=1e-15, atol=3e-16, detail='array and scalar of ' + f.__name__)
        b = f(0.3, 0.1)
        mon.close('limit', [a[0][0], a[1][0], a[0][2], a[1][2]], [b[0], b[1], 0, 0], rtol=1e-14, detail='other members of the array')


def tiny(mon, rng, idx):
    """shapes of any smallness, compared relative to their modulus"""
    r = 10**rng.uniform(-140, -2)
    t = gen.pick(rng, [0.0, np.pi/2, np.pi, rng.uniform(0, 2*np.pi)])
    a = np.array([r*np.cos(t), r*np.sin(t)])
    mon.describe(a=a)
    q = np.hypot(*a)
    want = dict(g1g2_to_e1e2=2/(1 + q*q), e1e2_to_g1g2=1/(1 + np.sqrt(1 - q*q)), g1g2_to_eta1eta2=2*np.arctanh(q)/q,
                e1e2_to_eta1eta2=np.arctanh(q)/q, eta1eta2_to_g1g2=np.tanh(q/2)/q)
    for n in sorted(want):
        o = _call(rng, getattr(shape, n), a[0], a[1])
        mon.close('tiny', np.array(o)/q, want[n]*a/q, rtol=0, atol=1e-13, detail=n)
        # arrays of all magnitudes keep each its own
        big = gen.disk(rng, 0.9)
        x = np.array([big[0], a[0], 0.0, big[0]])
        y = np.array([big[1], a[1], 0.0, big[1]])
        o = np.array(getattr(shape, n)(x, y))
        mon.close('tiny', o[:, 1]/q, want[n]*a/q, rtol=0, atol=1e-13, detail=n + ' among others')
        mon.close('tiny', o[:, 2], [0.0, 0.0], rtol=0)
        mon.close('tiny', o[:, 0], o[:, 3], rtol=0)
        b = getattr(shape, n)(*big)
        mon.close('tiny', o[:, 0], [float(b[0]), float(b[1])], rtol=1e-13, atol=1e-300, detail=n)
    s1, s2 = gen.disk(rng, 0.5)
    if np.hypot(s1, s2) > 0:
        # a tiny shear moves a shape by ds (1 - conj...): compare with the exact composition
        z, w = complex(s1, s2), complex(*a)
        d = (z + w)/(1 + z*np.conj(w))
        o = _call(rng, shape.shear_reduced, s1, s2, a[0], a[1])
        mon.close('tiny', o, [d.real, d.imag], rtol=0, atol=4e-16, detail='tiny shear')
        o = _call(rng, shape.shear_reduced, a[0], a[1], s1, s2)
        d = (w + z)/(1 + w*np.conj(z))
        mon.close('tiny', o, [d.real, d.imag], rtol=0, atol=4e-16, detail='of a tiny shape')
    s3, s4 = a*gen.pick(rng, [1.0, 0.3, 1e-3])
    o = Shape(float(a[0]), float(a[1])).get_sheared(float(s3), float(s4))
    mon.close('tiny', np.array([o.g1, o.g2])/q, [(a[0] + s3)/q, (a[1] + s4)/q], rtol=0, atol=1e-12 + 3*q*q, detail='two tiny ones')


def refused(mon, rng, idx):
    r = gen.pick(rng, [1.0, 1 + 1e-12, 1.01, 2.0, 100.0, gen.loguni(rng, 1.0000001, 1e3)])
    k = rng.randint(3)
    t = rng.uniform(0, 2*np.pi)
    g1, g2 = [(r, 0.0), (0.0, -r), (r*1.0001*np.cos(t), r*1.0001*np.sin(t))][k]
    mon.describe(g=(g1, g2))
    funcs = [shape.g1g2_to_e1e2, shape.e1e2_to_g1g2, shape.g1g2_to_eta1eta2, shape.e1e2_to_eta1eta2]
    for f in funcs:
        mon.raises('refused', GMixRangeError, f, g1, g2)
        a = np.array([0.1, g1, 0.0])
        b = np.array([0.1, g2, 0.2])
        mon.raises('refused', GMixRangeError, f, a, b)
    mon.raises('refused', GMixRangeError, Shape, g1, g2)
    s = Shape(0.1, 0.2)
    mon.raises('refused', GMixRangeError, s.set_g1g2, g1, g2)
    mon.raises('refused', GMixRangeError, moments.g2mom, g1, g2, 1.0)
    mon.raises('refused', GMixRangeError, ngmix.GMixModel, [0, 0, g1, g2, 1.0, 1.0], gen.pick(rng, gen.SIMPLE))
    # a shear outside the disk takes shapes out of it
    if np.hypot(g1, g2) > 1.001:
        q1, q2 = gen.disk(rng, 0.9)
        mon.raises('refused', GMixRangeError, lambda: Shape(q1, q2).get_sheared(g1, g2))
    # moments that are no covariance
    T = gen.loguni(rng, 1e-3, 1e3)
    c, d = 2*g1/(1.0 + 0.0), g2
    mon.raises('refused', GMixRangeError, moments.mom2g, T/2*(1 - g1*1.001), T/2*g2*1.001, T/2*(1 + g1*1.001))
    mon.raises('refused', GMixRangeError, moments.get_sheared_moments,
               T/2*(1 - g1*1.001), T/2*g2*1.001, T/2*(1 + g1*1.001), 0.1, 0.0)
    for bad in (0.0, -T):
        mon.raises('refused', GMixRangeError, moments.moms_to_e1e2, 0.1, 0.2, bad)
        mon.raises('refused', GMixRangeError, moments.moms_to_e1e2, np.array([0.1, 0.1]), np.array([0., 0.]),
                   np.array([T, bad]))
        mon.raises('refused', GMixRangeError, moments.get_sheared_M1M2T, 0.1, 0.2, bad, 0.1, 0.1)
    # conformal shear has no upper limit until the result rounds to one
    mon.raises('refused', GMixRangeError, shape.eta1eta2_to_g1g2, 100.0, 0.0)
    mon.raises('refused', GMixRangeError, shape.eta1eta2_to_g1g2, np.array([0.1, 100.0]), np.array([0.0, 0.0]))


WORKLOADS = [
    Workload('conversions', conversions, 12000, 150000),
    Workload('shearing', shearing, 12000, 150000),
    Workload('rotation', rotation, 6000, 60000),
    Workload('sizes', sizes, 1500, 15000),
    Workload('refused', refused, 1500, 15000),
    Workload('limit', limit, 1500, 15000),
    Workload('tiny', tiny, 1500, 15000),
]
