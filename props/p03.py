"""Copies against shadow models; equality against known single differences."""
import copy
import numpy as np
import ngmix
from ngmix.gexceptions import GMixRangeError
from vlib import gen, snap, ref
from vlib.core import Workload
from vlib.obsops import Shadow, step, MASKS

PROP = 'P03'
RULE = """observations, lists and multi-band lists after random histories of updates, copied in every way (copy, copy.copy,
copy.deepcopy), then original and copy driven on separately and both compared with shadow models; mixtures of all kinds after
histories of fills, flux and centre changes and refused fills; jacobians and shapes; equality in both orders for copies and for
every kind of single difference (one element of an array, a part on one side only, psf, mixture, jacobian, metadata, length, order);
cases differ by history, copy method and difference"""
REQUIRED = ['copy-equal', 'copy-observable', 'independent', 'eq-copy', 'eq-different', 'eq-symmetric', 'list-copy', 'mb-copy',
            'gmix-copy', 'jac-copy', 'shape-copy', 'diff image', 'diff weight', 'diff bmask', 'diff ormask', 'diff noise',
            'diff mfrac', 'diff gmix', 'diff psf', 'diff jacobian', 'diff meta', 'list-eq', 'mb-eq', 'meta arrays', 'gmix-eq', 'jac-eq']


def how_copy(rng):
    return gen.pick(rng, [('copy', lambda o: o.copy()), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy)])


def eq(mon, name, a, b, want, *detail):
    """in both orders, with both operators"""
    r = [mon.returns(name, lambda: a == b), mon.returns(name, lambda: b == a), mon.returns(name, lambda: a != b),
         mon.returns(name, lambda: b != a)]
    mon.true('eq-symmetric', bool(r[0]) == bool(r[1]) and bool(r[2]) == bool(r[3]), 'not symmetric', r, *detail)
    mon.true(name, bool(r[0]) == want, 'equality is', r[0], 'expected', want, *detail)
    mon.true(name, bool(r[2]) != want, 'inequality is', r[2], *detail)


def history(mon, rng, idx):
    sh = Shadow(rng)
    obs = sh.build(rng)
    ops = []
    for _ in range(rng.randint(0, 8)):
        ops.append(step(mon, rng, obs, sh))
    name, f = how_copy(rng)
    arr = None
    if rng.randint(2):
        # metadata can hold anything
        arr = rng.normal(size=rng.randint(0, 4))
        obs.meta['arr'] = gen.pick(rng, [arr, {'pars': arr, 'flags': 0}, [1, arr], (arr, 'x')])
    c = mon.returns('copy-equal', f, obs)
    mon.describe(dims=sh.dims, ops=ops, how=name, arr=arr is not None)
    mon.true('copy-observable', type(c) is ngmix.Observation and c is not obs)
    mon.true('copy-observable', list(obs.meta) == list(c.meta))
    usable = np.isfinite(obs.weight).all() and (not obs.has_psf() or np.isfinite(obs.psf.weight).all())
    if arr is not None:
        if usable:
            eq(mon, 'eq-copy', obs, c, True, name, 'array in the metadata')
        mine = obs.meta['arr']
        mon.same('copy-observable', c.meta.pop('arr'), mine)
        mon.true('independent', c.meta.get('arr') is None and obs.meta.pop('arr') is mine, 'metadata dictionary shared')
    d = snap.diff_snap(snap.snap(obs), snap.snap(c))
    mon.true('copy-equal', d is None, d, name)
    if usable:
        eq(mon, 'eq-copy', obs, c, True, name)
    # (a pending update of the pixels is made up for in the copy)
    shc = copy.deepcopy(sh)
    shc.check(mon, c, 'copy')
    mon._count('copy-observable')
    # the state is not shared
    for a in ('image', 'weight') + MASKS:
        if sh.masks.get(a, 0) is not None:
            mon.true('independent', not np.shares_memory(getattr(obs, a), getattr(c, a)), a, 'shared')
    if obs.has_psf():
        mon.true('independent', obs.psf is not c.psf, 'psf shared')
    for k in range(rng.randint(1, 6)):
        o, s = (obs, sh) if rng.randint(2) else (c, shc)
        while o.has_psf() and rng.randint(2) == 0:
            o, s = o.psf, s.psf
        ops.append(step(mon, rng, o, s))
        sh.check(mon, obs, ops, readonly=False)
        shc.check(mon, c, ops, readonly=False)
        mon._count('independent')
    if 'l' in sh.meta and sh.meta['l']:
        obs.meta['l'].append(7)
        mon.true('independent', c.meta.get('l') is None or c.meta['l'][-1:] != [7] or shc.meta['l'][-1:] == [7], 'nested metadata shared')


DIFFS = ['image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac', 'gmix', 'gmix-none', 'psf', 'psf-none', 'psf-gmix', 'psf-image',
         'jacobian', 'meta', 'meta-key', 'meta-nested', 'meta-array', 'mask-none', 'gmix-size']


def change(rng, o, kind):
    """one difference; None if it cannot be had"""
    def one(a):
        a = a.copy()
        i = (rng.randint(a.shape[0]), rng.randint(a.shape[1]))
        if a.dtype.kind == 'f':
            k = rng.randint(4)
            x = [a[i]*(1 + 1e-6), np.nextafter(a[i], np.array(np.inf, a.dtype)), -a[i], a[i]][k]
            if x == a[i]:
                x = a[i]*2 + 1
            a[i] = x
        else:
            a[i] += 1
        return a
    if kind == 'image':
        o.image = one(o.image)
    elif kind == 'weight':
        w = one(o.weight)
        if not (w > 0).any() and o.ignore_zero_weight:
            w = o.weight*2
        if np.array_equal(w, o.weight):
            return None
        o.weight = w
    elif kind in MASKS:
        if not getattr(o, 'has_' + kind)():
            return None
        setattr(o, kind, one(getattr(o, kind)))
    elif kind == 'mask-none':
        has = [m for m in MASKS if getattr(o, 'has_' + m)()]
        if not has:
            return None
        m = gen.pick(rng, has)
        setattr(o, m, None)
        return m
    elif kind == 'gmix':
        if not o.has_gmix():
            return None
        g = o.gmix
        d = g.get_data()
        n = gen.pick(rng, ['p', 'row', 'col', 'irr', 'irc', 'icc'])
        i = rng.randint(d.size)
        d[n][i] += 1e-6 if rng.randint(2) else 4*np.spacing(d[n][i])
        if n in ('irr', 'irc', 'icc'):
            g = ngmix.GMix(pars=ref.gmix_components(g).ravel())
        o.gmix = g
    elif kind == 'gmix-none':
        if not o.has_gmix():
            return None
        o.gmix = None
        return 'gmix'
    elif kind == 'gmix-size':
        if not o.has_gmix():
            return None
        c = ref.gmix_components(o.gmix)
        o.gmix = ngmix.GMix(pars=np.vstack([c, c[:1]]).ravel())
        return 'gmix'
    elif kind == 'psf-none':
        if not o.has_psf():
            return None
        o.psf = None
        return 'psf'
    elif kind in ('psf', 'psf-gmix', 'psf-image'):
        if not o.has_psf():
            return None
        k = {'psf': gen.pick(rng, ['weight', 'jacobian', 'meta', 'mask-none']), 'psf-gmix': 'gmix', 'psf-image': 'image'}[kind]
        p = o.psf.copy()
        if change(rng, p, k) is None:
            return None
        o.psf = p
        return 'psf'
    elif kind == 'jacobian':
        j = o.jacobian.copy()
        k = rng.randint(6)
        p = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
        p[k] += 1e-5 if rng.randint(2) else np.spacing(p[k]) if p[k] else 1e-300
        o.jacobian = gen.make_jac(p)
    elif kind == 'meta':
        if 'a' not in o.meta:
            return None
        o.meta['a'] += 1
    elif kind == 'meta-key':
        o.meta['newkey'] = None
        return 'meta'
    elif kind == 'meta-nested':
        if 'l' not in o.meta:
            return None
        o.meta['l'][2]['x'] = 4
        return 'meta'
    elif kind == 'meta-array':
        if 'arr' not in o.meta:
            return None
        v = o.meta['arr']
        v = v['pars'] if isinstance(v, dict) else (v if isinstance(v, np.ndarray) else v[1])
        v[rng.randint(3)] += 1
        return 'meta'
    return kind


def equality(mon, rng, idx):
    sh = Shadow(rng)
    for m in MASKS:
        if rng.uniform() < 0.6 and sh.masks[m] is None:
            sh.masks[m] = sh.mask(rng, m)
    a = sh.build(rng)
    if rng.randint(2):
        b = sh.build(rng)
    else:
        b = a.copy()
    eq(mon, 'eq-copy', a, b, True, 'built alike')
    if rng.randint(2):
        # as left by fits: arrays at some level
        arr = rng.normal(size=3)
        k = rng.randint(4)
        for o in (a, b):
            x = arr.copy()
            m = [x, {'pars': x, 'flags': 0}, [1, x], (0, x)][k]
            if o is b and rng.randint(6) == 0:
                o.meta['arr'] = gen.pick(rng, [None, 3, 'x', [1, 2]])
                eq(mon, 'eq-different', a, b, False, 'an array on one side', k)
            o.meta['arr'] = m
        eq(mon, 'eq-copy', a, b, True, 'with arrays in the metadata', k)
        mon._count('meta arrays')
    kind = gen.pick(rng, DIFFS)
    mon.describe(dims=sh.dims, kind=kind, parts=[m for m in MASKS if sh.masks[m] is not None] + [sh.psf is not None])
    got = change(rng, b, kind)
    if got is None:
        mon.trivial()
        return
    eq(mon, 'eq-different', a, b, False, kind, got)
    name = got if got in ('image', 'weight', 'gmix', 'psf', 'jacobian', 'meta') + MASKS else 'other'
    mon._count('diff ' + name)
    # how they are stored does not matter, nor what was evaluated
    c = a.copy()
    c.store_pixels = not a.store_pixels if rng.randint(2) and (not c.ignore_zero_weight or (c.weight > 0).any()) else a.store_pixels
    if c.has_gmix():
        c.gmix.make_image((3, 3))
    # in lists
    la, lb = ngmix.ObsList(), ngmix.ObsList()
    pos = rng.randint(3)
    for i in range(3):
        la.append(a.copy())
        lb.append(b.copy() if i == pos else a.copy())
    l2 = la.copy()
    eq(mon, 'list-eq', la, lb, False, kind, pos)
    eq(mon, 'list-eq', la, l2, True)
    l2.append(a)
    eq(mon, 'list-eq', la, l2, False, 'length')
    ma, mb = ngmix.MultiBandObsList(), ngmix.MultiBandObsList()
    bpos = rng.randint(2)
    for i in range(2):
        ma.append(la.copy())
        mb.append(lb.copy() if i == bpos else la.copy())
    eq(mon, 'mb-eq', ma, mb, False, kind, pos, bpos)
    eq(mon, 'mb-eq', ma, ma.copy(), True)
    m2 = ma.copy()
    m2.append(la)
    eq(mon, 'mb-eq', ma, m2, False, 'length')
    e = ngmix.MultiBandObsList()
    eq(mon, 'mb-eq', ma, e, False, 'empty')
    eq(mon, 'mb-eq', ngmix.MultiBandObsList(), e, True)
    eq(mon, 'list-eq', ngmix.ObsList(), ngmix.ObsList(), True)
    eq(mon, 'list-eq', ngmix.ObsList(), la, False)


def lists(mon, rng, idx):
    mb = ngmix.MultiBandObsList(meta={'m': [1, {'q': 2}]})
    shs = []
    for b in range(rng.randint(1, 4)):
        ol = ngmix.ObsList(meta={'band': b, 'n': [b]})
        ss = []
        for e in range(rng.randint(0, 4)):
            s = Shadow(rng)
            ol.append(s.build(rng))
            ss.append(s)
        mb.append(ol)
        shs.append(ss)
    name, f = how_copy(rng)
    mon.describe(how=name, n=[len(x) for x in mb])
    c = f(mb)
    mon.true('mb-copy', type(c) is ngmix.MultiBandObsList and [type(x) for x in c] == [ngmix.ObsList]*len(mb))
    d = snap.diff_snap(snap.snap(mb), snap.snap(c))
    mon.true('mb-copy', d is None, d)
    eq(mon, 'mb-eq', mb, c, True)
    cs = copy.deepcopy(shs)
    one = f(mb[0])
    d = snap.diff_snap(snap.snap(mb[0]), snap.snap(one))
    mon.true('list-copy', d is None and type(one) is ngmix.ObsList, d)
    ones = copy.deepcopy(shs[0])
    for _ in range(6):
        t, s = (mb, shs) if rng.randint(2) else (c, cs)
        b = rng.randint(len(t))
        if len(t[b]) == 0:
            t[b].append(Shadow(rng).build(rng))
            t[b].pop()
            continue
        e = rng.randint(len(t[b]))
        step(mon, rng, t[b][e], s[b][e])
        for x, sx in ((mb, shs), (c, cs), ([one], [ones])):
            for ol, so in zip(x, sx):
                mon.true('independent', len(ol) == len(so))
                for o, ss in zip(ol, so):
                    ss.check(mon, o, readonly=False)
        mon._count('independent')
    mb.meta['m'][1]['q'] = 9
    mb[0].meta['n'].append(4)
    mon.true('independent', c.meta == {'m': [1, {'q': 2}]} and c[0].meta == {'band': 0, 'n': [0]} and one.meta == c[0].meta,
             'metadata shared')
    n = len(mb)
    mb.append(ngmix.ObsList())
    mb[0].append(Shadow(rng).build(rng))
    mon.true('independent', len(c) == n and len(c[0]) == len(cs[0]) and len(one) == len(ones), 'list shared')


def rand_gmix(rng):
    k = gen.pick(rng, ['full', 'model', 'model', 'coellip', 'cm', 'bdf', 'bd', 'convolved'])
    g = gen.disk(rng, 0.7)
    base = [rng.normal(), rng.normal(), g[0], g[1], rng.uniform(2, 10)]
    if k == 'full':
        return gen.full_gmix(rng)[0], k, None
    if k == 'model':
        m = gen.pick(rng, gen.SIMPLE)
        return ngmix.GMixModel(base + [rng.uniform(1, 5)], m), k, lambda: base[:4] + [rng.uniform(2, 9), rng.uniform(1, 9)]
    if k == 'coellip':
        n = rng.randint(1, 4)

        def fc():
            return base[:4] + list(rng.uniform(1, 9, size=n)) + list(rng.uniform(1, 9, size=n))
        return ngmix.gmix.GMixCoellip(fc()), k, fc
    if k == 'cm':
        return (ngmix.gmix.GMixCM(rng.uniform(0, 1), rng.uniform(0.5, 2), base + [2.0]), k,
                lambda: base[:4] + [rng.uniform(2, 9), rng.uniform(1, 9)])
    if k == 'bdf':
        def f():
            return base + [rng.uniform(0, 1), rng.uniform(1, 9)]
        return ngmix.gmix.make_gmix_model(f(), 'bdf'), k, f
    if k == 'bd':
        def f2():
            return base + [rng.uniform(-0.3, 0.3), rng.uniform(0, 1), rng.uniform(1, 9)]
        return ngmix.gmix.make_gmix_model(f2(), 'bd'), k, f2
    m = ngmix.GMixModel(base + [2.0], 'exp')
    return m.convolve(ngmix.GMixModel([0.1, 0, 0, 0, 4.0, 1.3], 'turb')), k, None


def act(rng, g, pars):
    k = gen.pick(rng, ['flux', 'cen', 'eval', 'fill', 'bad', 'psum', 'reset'])
    if k in ('flux', 'psum'):
        getattr(g, 'set_' + k)(rng.uniform(0.5, 20))
    elif k == 'cen':
        g.set_cen(rng.normal(), rng.normal())
    elif k == 'eval':
        g.make_image((4, 5))
        if rng.randint(2):
            g.set_norms()
    elif k == 'fill' and pars is not None:
        g.fill(pars())
    elif k == 'bad' and pars is not None:
        p = pars()
        p[2:4] = [0.9, 0.9]
        try:
            g.fill(p)
        except GMixRangeError:
            pass
    elif k == 'reset' and pars is None:
        g.fill(gen.full_gmix_pars(rng, n=len(g)).ravel())
    else:
        return 'none'
    return k


def gmix(mon, rng, idx):
    g, kind, pars = rand_gmix(rng)
    ops = [act(rng, g, pars) for _ in range(rng.randint(0, 5))]
    name, f = how_copy(rng)
    mon.describe(kind=kind, ops=ops, how=name, n=len(g))
    c = mon.returns('gmix-copy', f, g)
    comp = ref.gmix_components(g).copy()
    mon.same('gmix-copy', ref.gmix_components(c), comp)
    mon.true('gmix-copy', type(c) is type(g) or kind == 'convolved', type(c), type(g))
    eq(mon, 'gmix-eq', g, c, True)
    im = g.make_image((7, 6))
    mon.same('gmix-copy', c.make_image((7, 6)), im)
    mon.same('gmix-copy', [c.get_flux(), c.get_cen(), c.get_T()], [g.get_flux(), g.get_cen(), g.get_T()])
    mon.true('gmix-copy', repr(c) == repr(g), 'repr', repr(c), repr(g))
    if hasattr(g, '_pars') and rng.randint(2):
        # the copy behaves alike
        fl = rng.uniform(1, 9)
        g.set_flux(fl)
        c.set_flux(fl)
        mon.same('gmix-copy', ref.gmix_components(c), ref.gmix_components(g))
        comp = ref.gmix_components(g).copy()
    mon.true('independent', not np.shares_memory(g.get_data(), c.get_data()))
    for _ in range(4):
        s = rng.get_state()
        a, b = (g, c) if rng.randint(2) else (c, g)
        keep = ref.gmix_components(b).copy()
        act(rng, a, pars)
        mon.same('independent', ref.gmix_components(b), keep)
    # the same history on both gives the same
    for _ in range(3):
        s = np.random.RandomState(rng.randint(2**31))
        s2 = np.random.RandomState()
        s2.set_state(s.get_state())
        st = rng.get_state()
        op = act(rng, g, pars)
        rng.set_state(st)
        act(rng, c, pars)
        if op in ('fill', 'reset'):
            mon.same('gmix-copy', ref.gmix_components(c), ref.gmix_components(g), op)
    g2, _, _ = rand_gmix(rng)
    want = len(g2) == len(g) and np.array_equal(ref.gmix_components(g2), ref.gmix_components(g))
    eq(mon, 'gmix-eq', g, g2, want, 'others')
    h = g.copy()
    d = h.get_data()
    n = gen.pick(rng, ['p', 'row', 'col', 'irr', 'irc', 'icc'])
    i = rng.randint(d.size)
    d[n][i] += 1e-7*(1 + abs(d[n][i]))
    eq(mon, 'gmix-eq', g, h, False, n)
    mon.raises('gmix-eq', ValueError, lambda: g == 3)


def small(mon, rng, idx):
    p, kind = gen.jac_pars(rng, (5, 6))
    j = gen.make_jac(p)
    if rng.randint(3) == 0:
        j = gen.pick(rng, [ngmix.DiagonalJacobian(row=p[0], col=p[1], scale=0.3), ngmix.UnitJacobian(row=p[0], col=p[1])])
    if rng.randint(2):
        j.set_cen(row=rng.normal(), col=rng.normal())
    name, f = how_copy(rng)
    mon.describe(jac=kind, how=name, p=p)
    c = f(j)
    d = snap.diff_snap(snap.snap(j), snap.snap(c))
    mon.true('jac-copy', d is None, d)
    eq(mon, 'jac-eq', j, c, True)
    q = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
    mon.true('jac-copy', j.get_galsim_wcs() == c.get_galsim_wcs())
    x, y = rng.normal(size=2)
    mon.same('jac-copy', [c.get_vu(x, y), c.get_rowcol(x, y), c.area, c.scale, c.det], [j.get_vu(x, y), j.get_rowcol(x, y), j.area, j.scale, j.det])
    (c if rng.randint(2) else j).set_cen(row=100.0, col=-3.0)
    keep = c if c.row0 != 100.0 else j
    mon.same('independent', [keep.row0, keep.col0], q[:2])
    eq(mon, 'jac-eq', j, c, False)
    for k in range(6):
        r = list(q)
        r[k] += 1e-9*max(1, abs(r[k]))
        eq(mon, 'jac-eq', gen.make_jac(q), gen.make_jac(r), False, k)
    # with anything in it
    mon.raises('jac-eq', ValueError, lambda: j == 'x')
    g = gen.disk(rng, 0.9)
    s = ngmix.Shape(*g)
    t = s.copy()
    mon.same('shape-copy', [t.g1, t.g2], [s.g1, s.g2])
    t.set_g1g2(0.3, 0.31)
    mon.same('shape-copy', [s.g1, s.g2], [float(g[0]), float(g[1])])
    t = s.copy()
    t.get_sheared(0.1, 0.0).set_g1g2(0.2, 0)
    t.get_rotated(0.3).set_g1g2(0.2, 0)
    mon.same('shape-copy', [s.g1, s.g2], [float(g[0]), float(g[1])])


WORKLOADS = [
    Workload('history', history, 800, 15000),
    Workload('equality', equality, 1500, 25000),
    Workload('lists', lists, 300, 5000),
    Workload('gmix', gmix, 1200, 20000),
    Workload('small', small, 600, 5000),
]
