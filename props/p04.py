"""Jacobians: pixel <-> sky conversions."""
import copy
import numpy as np
import ngmix
from ngmix import Jacobian, DiagonalJacobian, UnitJacobian
from vlib import gen, ref
from vlib.core import Workload

PROP = 'P04'
RULE = """random non-singular derivative matrices (unit, diagonal, rotated, flipped, sheared, general, extreme
scales) and centres, every constructor for the same map, random histories of centre changes and copies, scalar and
array coordinates; a case is non-trivial when a conversion was compared with the reference affine map, and cases are
distinct when their parameters differ"""
REQUIRED = ['forward', 'inverse', 'roundtrip', 'constructors-agree', 'cen-move', 'refused', 'galsim-wcs']


def _pars(rng):
    p, kind = gen.jac_pars(rng, (rng.randint(1, 60), rng.randint(1, 60)), maxshear=0.8)
    p = list(p)
    if rng.uniform() < 0.2:
        f = gen.loguni(rng, 1e-6, 1e6)
        p[2:] = [x*f for x in p[2:]]
        kind += '-scaled'
    if rng.uniform() < 0.15:
        p[0] *= gen.loguni(rng, 1, 1e5)
        p[1] *= -gen.loguni(rng, 1, 1e5)
        kind += '-far'
    if rng.uniform() < 0.15:
        p[rng.randint(2)] = 0.0
    if rng.uniform() < 0.2:
        m = rng.normal(size=4)
        if abs(m[0]*m[3] - m[1]*m[2]) > 0.01:
            p[2:] = list(m)
            kind = 'random'
    return [float(x) for x in p], kind


def _check_map(mon, j, p, rng):
    r = ref.Jac(*p)
    size = abs(r.m).max()
    n = rng.randint(1, 6)
    k = rng.randint(4)
    row = rng.uniform(-50, 50, size=n) + p[0]
    col = rng.uniform(-50, 50, size=n) + p[1]
    if k == 0:
        row, col = float(row[0]), float(col[0])
    elif k == 1:
        row, col = int(round(row[0])), int(round(col[0]))
    elif k == 2:
        row = np.tile(row, (2, 1))
        col = np.tile(col, (2, 1))
    ev, eu = r.vu(row, col)
    mag = size*(100 + abs(p[0])*1e-3 + abs(p[1])*1e-3)
    for f in (j.get_vu, j):
        v, u = f(row, col)
        mon.close('forward', v, ev, rtol=1e-11, scale=mag, detail=('v', p, row, col))
        mon.close('forward', u, eu, rtol=1e-11, scale=mag, detail=('u', p, row, col))
    er, ec = r.rowcol(ev, eu)
    cond = np.linalg.cond(r.m)
    gr, gc = j.get_rowcol(ev, eu)
    pm = 100*cond + abs(p[0]) + abs(p[1])
    mon.close('inverse', gr, er, rtol=1e-11, scale=pm, detail=('row', p))
    mon.close('inverse', gc, ec, rtol=1e-11, scale=pm, detail=('col', p))
    v, u = j.get_vu(row, col)
    br, bc = j.get_rowcol(v, u)
    mon.close('roundtrip', br, np.asarray(row, 'f8'), rtol=1e-11, scale=pm)
    mon.close('roundtrip', bc, np.asarray(col, 'f8'), rtol=1e-11, scale=pm)
    # sky -> pixel -> sky
    sv, su = rng.normal(size=2)*10*size
    br, bc = j.get_rowcol(sv, su)
    v, u = j.get_vu(br, bc)
    mon.close('roundtrip', [v, u], [sv, su], rtol=1e-11, scale=size*pm)
    # the numbers it reports
    mon.close('numbers', [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol], p, rtol=0)
    mon.close('numbers', [j.get_row0(), j.get_col0(), j.get_dvdrow(), j.get_dvdcol(), j.get_dudrow(),
                          j.get_dudcol()], p, rtol=0)
    mon.close('numbers', list(j.cen), p[:2], rtol=0)
    mon.close('numbers', list(j.get_cen()), p[:2], rtol=0)
    big = abs(p[2]*p[5]) + abs(p[3]*p[4])
    mon.close('det', j.det, r.det, rtol=1e-12, scale=big)
    mon.close('area', j.area, r.area, rtol=1e-12, scale=big)
    mon.close('area', j.get_area(), r.area, rtol=1e-12, scale=big)
    mon.close('scale', j.scale**2, r.area, rtol=1e-12, scale=big)
    mon.close('scale', j.get_scale(), j.scale, rtol=0)


class _WCS(object):
    def __init__(self, dudx, dudy, dvdx, dvdy):
        self.dudx, self.dudy, self.dvdx, self.dvdy = dudx, dudy, dvdx, dvdy


def constructors(mon, rng, idx):
    p, kind = _pars(rng)
    mon.describe(kind=kind, pars=p)
    row, col, dvdr, dvdc, dudr, dudc = p
    import galsim
    objs = [
        Jacobian(row=row, col=col, dvdrow=dvdr, dvdcol=dvdc, dudrow=dudr, dudcol=dudc),
        Jacobian(x=col, y=row, dudx=dudc, dudy=dudr, dvdx=dvdc, dvdy=dvdr),
        Jacobian(row=row, col=col, wcs=_WCS(dudc, dudr, dvdc, dvdr)),
        Jacobian(x=col, y=row, wcs=galsim.JacobianWCS(dudc, dudr, dvdc, dvdr)),
    ]
    objs.append(objs[0].copy())
    objs.append(copy.deepcopy(objs[1]))
    objs.append(eval(repr(objs[0]).replace('np.float64', 'float'), {'ngmix': ngmix, 'float': float}))
    objs.append(Jacobian(row=row, col=col, wcs=objs[1].get_galsim_wcs()))
    for j in objs:
        mon.true('constructors-agree', bool(j == objs[0]) and bool(objs[0] == j), repr(j), repr(objs[0]))
    _check_map(mon, objs[rng.randint(len(objs))], p, rng)
    _check_map(mon, objs[rng.randint(len(objs))], p, rng)
    w = objs[rng.randint(len(objs))].get_galsim_wcs()
    mon.close('galsim-wcs', [w.dudx, w.dudy, w.dvdx, w.dvdy], [dudc, dudr, dvdc, dvdr], rtol=0)
    mon.close('galsim-wcs', w.pixelArea(), abs(dudc*dvdr - dudr*dvdc), rtol=1e-11, scale=abs(dudc*dvdr) + abs(dudr*dvdc))
    x, y = rng.normal(size=2)*10
    pos = w.toWorld(galsim.PositionD(x, y))
    v, u = objs[0].get_vu(row + y, col + x)
    s = max(abs(np.array(p[2:])))*(20 + 1e-3*(abs(row) + abs(col)))
    mon.close('galsim-wcs', [u, v], [pos.x, pos.y], rtol=1e-10, scale=s)


def diagonal(mon, rng, idx):
    row, col = rng.normal(size=2)*30
    scale = gen.pick(rng, [gen.loguni(rng, 1e-3, 10), -gen.loguni(rng, 0.1, 2), 1.0])
    mon.describe(row=row, col=col, scale=scale)
    full = Jacobian(row=row, col=col, dvdrow=scale, dvdcol=0.0, dudrow=0.0, dudcol=scale)
    for j in (DiagonalJacobian(row=row, col=col, scale=scale), DiagonalJacobian(x=col, y=row, scale=scale)):
        mon.true('constructors-agree', bool(j == full), repr(j), repr(full))
        _check_map(mon, j, [row, col, scale, 0.0, 0.0, scale], rng)
    one = Jacobian(row=row, col=col, dvdrow=1.0, dvdcol=0.0, dudrow=0.0, dudcol=1.0)
    for j in (UnitJacobian(row=row, col=col), UnitJacobian(x=col, y=row), DiagonalJacobian(row=row, col=col)):
        mon.true('constructors-agree', bool(j == one), repr(j), repr(one))
        _check_map(mon, j, [row, col, 1.0, 0.0, 0.0, 1.0], rng)


def history(mon, rng, idx):
    """centre changes, copies; only the origin moves"""
    p, kind = _pars(rng)
    mon.describe(kind=kind, pars=p)
    j = gen.make_jac(p)
    others = []
    ops = []
    for _ in range(rng.randint(1, 7)):
        op = rng.randint(4)
        if op in (0, 1):
            r, c = rng.normal(size=2)*20
            k = rng.randint(8)
            if k < 3:
                # on the axes, or at the origin; and whole numbers
                r, c = [(0, c), (r, 0.0), (0.0, 0)][k]
            elif k == 3:
                r, c = int(r), np.int64(c)
            if op == 0:
                j.set_cen(row=r, col=c)
            else:
                j.set_cen(x=c, y=r)
            p = [float(r), float(c)] + list(p[2:])
            ops.append(('cen', r, c))
        elif op == 2:
            others.append((j, list(p)))
            j = gen.pick(rng, [lambda x: x.copy(), copy.copy, copy.deepcopy])(j)
            ops.append('copy')
        else:
            mon.raises('refused', ValueError, j.set_cen, rowx=3.0)
        _check_map(mon, j, p, rng)
        mon._count('cen-move')
    mon.describe(ops=ops)
    for o, q in others:
        _check_map(mon, o, q, rng)


def refused(mon, rng, idx):
    p, kind = _pars(rng)
    names = ['row', 'col', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol']
    xy = ['y', 'x', 'dvdy', 'dvdx', 'dudy', 'dudx']
    nm = gen.pick(rng, [names, xy])
    kw = dict(zip(nm, p))
    drop = nm[rng.randint(6)]
    mon.describe(pars=p, drop=drop)
    kw.pop(drop)
    mon.raises('refused', (ValueError, KeyError, AssertionError), lambda: Jacobian(**kw))
    cls = gen.pick(rng, [DiagonalJacobian, UnitJacobian])
    kw = gen.pick(rng, [{'row': 1.0}, {'x': 2.0}, {'y': 1.0}, {'col': 1.0}, {}])
    mon.raises('refused', (ValueError, KeyError, AssertionError), lambda: cls(**kw))
    # a singular jacobian never gives a pixel position
    f = rng.normal()
    j = Jacobian(row=p[0], col=p[1], dvdrow=1.0*f, dvdcol=2.0*f, dudrow=0.5, dudcol=1.0)
    if j.det == 0.0:
        try:
            r, c = j.get_rowcol(1.0, 0.3)
        except ZeroDivisionError:
            mon._count('refused')
        else:
            mon.true('refused', not (np.isfinite(r) and np.isfinite(c)), 'singular gave', r, c)


WORKLOADS = [
    Workload('constructors', constructors, 6000, 60000),
    Workload('diagonal', diagonal, 1500, 15000),
    Workload('history', history, 2500, 25000),
    Workload('refused', refused, 1000, 5000),
]
