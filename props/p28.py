"""P28 every usable cutout of a MEDS file is delivered with its own data

The meds package is not installed, so the readers run on a stand-in for its
MEDS class that holds the file's contents in memory and implements the calls
the package documents.  Every plane of every cutout of every band has contents
of its own, so the monitor can tell which data were delivered.
"""
import sys
import types

import numpy as np

from vlib.core import Workload
from vlib import gen, snap

KINDS = ('weight', 'uberseg', 'cweight', 'cseg', 'cseg-canonical')
OPTIONAL = ('bmask', 'ormask', 'noise', 'mfrac')


class MEDS(object):
    """the part of meds.MEDS the documentation of the package describes"""

    def __init__(self, contents):
        self._contents = contents
        self._cat = contents['cat']
        self._image_info = contents['image_info']
        self._meta = contents.get('meta')
        self._filename = 'memory'

    def _check(self, iobj, icutout=None):
        if iobj < 0 or iobj >= self._cat.size:
            raise ValueError('object index %s out of range' % iobj)
        if icutout is not None and (icutout < 0 or icutout >= self._cat['ncutout'][iobj]):
            raise ValueError('cutout index %s out of range' % icutout)

    def _get(self, name, iobj, icutout):
        self._check(iobj, icutout)
        d = self._contents['planes']
        if name not in d or (iobj, icutout) not in d[name]:
            raise ValueError("bad cutout type '%s'" % name)
        return d[name][(iobj, icutout)].copy()

    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, item):
        return self._cat[item]

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def get_meta(self):
        return self._meta

    def has_psf(self):
        return 'psf' in self._contents['planes']

    def get_psf(self, iobj, icutout):
        return self._get('psf', iobj, icutout)

    def get_cutout(self, iobj, icutout, type='image'):
        return self._get(type, iobj, icutout)

    def get_uberseg(self, iobj, icutout, fast=True):
        return self._get('wt:uberseg', iobj, icutout)

    def get_cweight_cutout(self, iobj, icutout, restrict_to_seg=False):
        return self._get('wt:cweight' if restrict_to_seg else 'wt:cweight-unrestricted', iobj, icutout)

    def get_cseg_weight(self, iobj, icutout, use_canonical_cen=False):
        return self._get('wt:cseg-canonical' if use_canonical_cen else 'wt:cseg', iobj, icutout)

    def get_jacobian(self, iobj, icutout):
        self._check(iobj, icutout)
        c = self._cat
        return dict(row0=c['cutout_row'][iobj, icutout], col0=c['cutout_col'][iobj, icutout],
                    dudrow=c['dudrow'][iobj, icutout], dudcol=c['dudcol'][iobj, icutout],
                    dvdrow=c['dvdrow'][iobj, icutout], dvdcol=c['dvdcol'][iobj, icutout])


_stub = types.ModuleType('meds')
_stub.MEDS = MEDS
sys.modules['meds'] = _stub

import ngmix  # noqa
import ngmix.medsreaders  # noqa
from ngmix.medsreaders import NGMixMEDS, MultiBandNGMixMEDS  # noqa

PROP = 'P28'
RULE = '''
reads: a file of 1-5 objects with 0-6 cutouts each of their own shape (1-15 pixels a side), jacobian and centre, optional planes present,
absent, or absent for some cutouts, weight maps of five kinds with none, some or all pixels zero or negative (cutouts to be skipped first,
last, in the middle or all), catalogue columns present or not; objects read in random order with random weight kinds and compared with the
contents of the file; then again, after what was returned was overwritten.
bands: 1-4 files with the same objects but different numbers of cutouts, read object by object, as a list, for a subset in any order.
bad: unknown weight kinds and indices.
A case is non-trivial if at least one cutout was read.
'''
REQUIRED = ['order and number', 'image', 'weight', 'optional', 'jacobian', 'psf', 'meta', 'list meta', 'bands', 'indices', 'refused',
            'file-kept', 'repeat', 'skipped']


def contents(rng, nobj, unique, npsf=None):
    """unique: a counter, every plane has its own values"""
    ncmax = int(rng.randint(1, 7))
    npf = ncmax + int(rng.randint(0, 2))
    dt = [('id', 'i8'), ('ncutout', 'i4'), ('file_id', 'i4', (npf,)), ('box_size', 'i4')]
    for n in ('cutout_row', 'cutout_col', 'orig_row', 'orig_col', 'dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
        dt.append((n, 'f8', (npf,)))
    for n in ('orig_start_row', 'orig_start_col', 'start_row'):
        dt.append((n, 'i8', (npf,)))
    if rng.randint(2):
        dt.append(('flux_auto', 'f4'))
    if rng.randint(3):
        dt.append(('x2', 'f4'))
    if rng.randint(3):
        dt.append(('y2', 'f4'))
    if rng.randint(2):
        dt.append(('number', 'i4'))
    psf = bool(rng.randint(3)) if npsf is None else npsf
    if psf:
        dt += [('psf_cutout_row', 'f8', (npf,)), ('psf_cutout_col', 'f8', (npf,)), ('psf_box_size', 'i4')]
    cat = np.zeros(nobj, dtype=dt)
    for n in cat.dtype.names:
        cat[n] = -9999
    nfile = int(rng.randint(2, 9))
    ii = np.zeros(nfile, dtype=[('image_path', 'U40'), ('scale', 'f4')])
    for i in range(nfile):
        ii['image_path'][i] = gen.pick(rng, ['/a/b%d/im%d.fits', 'im%d-%d.fits ', 'x/%d-%d.fits.fz'])%(i, rng.randint(1000))
    ii['scale'] = rng.uniform(0.5, 2, size=nfile)
    for n in ('flux_auto', 'x2', 'y2'):
        if n in cat.dtype.names:
            cat[n] = rng.uniform(0.5, 100, size=nobj)
    cat['id'] = rng.choice(10**6, size=nobj, replace=False)
    if 'number' in cat.dtype.names:
        cat['number'] = 1 + rng.permutation(nobj)
    opt = [p for p in OPTIONAL if rng.randint(2)]
    partial = [p for p in opt if rng.randint(4) == 0]
    planes = {k: {} for k in ['image', 'weight', 'wt:cweight-unrestricted'] + ['wt:' + k for k in KINDS[1:]] + opt + (['psf'] if psf else [])}
    for i in range(nobj):
        n = int(rng.randint(0, ncmax + 1)) if rng.randint(4) == 0 else int(rng.randint(1, ncmax + 1))
        cat['ncutout'][i] = n
        same = rng.randint(1, 16, size=2) if rng.randint(2) else None
        for j in range(n):
            dims = tuple(same) if same is not None else tuple(rng.randint(1, 16, size=2))
            cat['file_id'][i, j] = rng.randint(nfile)
            jp, _ = gen.jac_pars(rng, dims)
            for name, v in zip(('cutout_row', 'cutout_col', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol'), jp):
                cat[name][i, j] = v
            for name in ('orig_row', 'orig_col', 'orig_start_row', 'orig_start_col', 'start_row'):
                cat[name][i, j] = rng.randint(10**4)
            unique[0] += 1
            planes['image'][i, j] = (unique[0] + rng.uniform(size=dims)).astype('f4')
            base = rng.uniform(0.5, 2, size=dims).astype('f4') + unique[0]
            for k in KINDS + ('cweight-unrestricted',):
                w = base if k == 'weight' else base*(rng.uniform(size=dims) < 0.8) + 0.001*KINDS.index(k if k in KINDS else 'cweight')*(base > 0)*(
                    rng.uniform(size=dims) < 0.7)
                w = np.array(w, dtype='f4')
                what = int(rng.randint(8))
                if what == 0:
                    w[...] = 0
                elif what == 1:
                    w[rng.uniform(size=dims) < 0.3] = 0
                elif what == 2:
                    w[rng.uniform(size=dims) < 0.3] = -1
                elif what == 3:
                    w[...] = -rng.uniform(0, 2, size=dims)
                elif what == 4:
                    w[...] = 0
                    w[rng.randint(dims[0]), rng.randint(dims[1])] = unique[0]
                planes[k if k == 'weight' else 'wt:' + k][i, j] = w
            for p in opt:
                if p in partial and rng.randint(2):
                    continue
                if p in ('bmask', 'ormask'):
                    planes[p][i, j] = rng.randint(0, 2000, size=dims).astype(gen.pick(rng, ['i2', 'i4']))
                else:
                    planes[p][i, j] = rng.uniform(size=dims).astype('f4')
            if psf:
                pd = tuple(rng.randint(1, 12, size=2))
                planes['psf'][i, j] = (rng.uniform(0.1, 1, size=pd)).astype(gen.pick(rng, ['f4', 'f8']))
                cat['psf_cutout_row'][i, j], cat['psf_cutout_col'][i, j] = (np.array(pd) - 1)/2 + rng.uniform(-.5, .5, size=2)
    return dict(cat=cat, image_info=ii, planes=planes)


def wkey(kind):
    return kind if kind == 'weight' else 'wt:' + kind


def usable(c, kind, i, j):
    return bool((c['planes'][wkey(kind)][i, j] > 0).any())


def check_obs(mon, c, kind, i, j, obs):
    pl, cat = c['planes'], c['cat']
    d = 'object %d cutout %d, %s' % (i, j, kind)
    mon.same('image', np.asarray(obs.image), pl['image'][i, j].astype('f8'), d)
    mon.same('weight', np.asarray(obs.weight), pl[wkey(kind)][i, j].astype('f8'), d)
    for p in OPTIONAL:
        has = getattr(obs, 'has_' + p)()
        want = p in pl and (i, j) in pl[p]
        mon.true('optional', has == want, '%s: has %s is %s' % (d, p, has))
        if want:
            mon.true('optional', np.array_equal(getattr(obs, p), pl[p][i, j]), '%s of %s' % (p, d))
    jac = obs.jacobian
    for attr, col in (('row0', 'cutout_row'), ('col0', 'cutout_col'), ('dvdrow', 'dvdrow'), ('dvdcol', 'dvdcol'), ('dudrow', 'dudrow'), ('dudcol', 'dudcol')):
        mon.true('jacobian', getattr(jac, attr) == cat[col][i, j], '%s of %s' % (attr, d))
    mon.true('psf', obs.has_psf() == ('psf' in pl), 'has psf', d)
    if obs.has_psf():
        p = obs.psf
        mon.same('psf', np.asarray(p.image), pl['psf'][i, j].astype('f8'), d)
        for attr, col in (('row0', 'psf_cutout_row'), ('col0', 'psf_cutout_col'), ('dvdrow', 'dvdrow'), ('dvdcol', 'dvdcol'), ('dudrow', 'dudrow'),
                          ('dudcol', 'dudcol')):
            mon.true('psf', getattr(p.jacobian, attr) == cat[col][i, j], 'psf %s of %s' % (attr, d))
        w = np.asarray(p.weight)
        mon.true('psf', w.shape == p.image.shape and np.isfinite(w).all() and (w > 0).all() and (w == w.flat[0]).all(), 'psf weight', d)
        # noise of a thousandth of the peak
        mon.close('psf', w.flat[0]*(p.image.max()/1000)**2, 1.0, rtol=1e-6, detail=d)
    ii = c['image_info']
    fid = cat['file_id'][i, j]
    want = dict(id=cat['id'][i], index=i, icut=j, cutout_index=j, file_id=fid, file_path=str(ii['image_path'][fid]).split('/')[-1].strip(),
                orig_row=cat['orig_row'][i, j], orig_col=cat['orig_col'][i, j], orig_start_row=cat['orig_start_row'][i, j],
                orig_start_col=cat['orig_start_col'][i, j], scale=ii['scale'][fid])
    names = cat.dtype.names
    if 'flux_auto' in names:
        want['flux'] = cat['flux_auto'][i]
    if 'x2' in names and 'y2' in names:
        want['T'] = cat['x2'][i] + cat['y2'][i]
    if 'number' in names:
        want['number'] = cat['number'][i]
    mon.true('meta', set(obs.meta) == set(want), '%s: keys %s' % (d, sorted(obs.meta)))
    for k, v in want.items():
        mon.true('meta', obs.meta[k] == v, '%s: %s is %r not %r' % (d, k, obs.meta[k], v))


def check_list(mon, c, kind, i, ol):
    want = [j for j in range(c['cat']['ncutout'][i]) if usable(c, kind, i, j)]
    mon.true('order and number', isinstance(ol, ngmix.ObsList))
    mon.true('order and number', [o.meta['icut'] for o in ol] == want, 'object %d %s: cutouts %s, usable are %s' % (i, kind, [o.meta['icut'] for o in ol], want))
    nskip = int(c['cat']['ncutout'][i]) - len(want)
    if nskip:
        mon._count('skipped', nskip)
    for j, o in zip(want, ol):
        check_obs(mon, c, kind, i, j, o)
    names = c['cat'].dtype.names
    wm = {}
    if want and 'flux_auto' in names:
        wm['flux'] = c['cat']['flux_auto'][i]
    if want and 'x2' in names and 'y2' in names:
        wm['T'] = c['cat']['x2'][i] + c['cat']['y2'][i]
    mon.true('list meta', dict(ol.meta) == wm, 'object %d: %s' % (i, dict(ol.meta)))
    return len(want)


def frozen(c):
    return snap.snap(dict(cat=c['cat'].copy(), ii=c['image_info'].copy(), planes={k: {str(q): v.copy() for q, v in p.items()} for k, p in c['planes'].items()}))


def w_reads(mon, rng, idx):
    nobj = int(rng.randint(1, 6))
    c = contents(rng, nobj, [0])
    m = NGMixMEDS(c)
    before = frozen(c)
    mon.describe(ncut=c['cat']['ncutout'].tolist(), cols=len(c['cat'].dtype.names), planes=sorted(c['planes']))
    nread = 0
    for _ in range(6):
        i = int(rng.randint(nobj))
        kind = gen.pick(rng, list(KINDS))
        n = c['cat']['ncutout'][i]
        how = int(rng.randint(3))
        if how == 0 and n:
            j = int(rng.randint(n))
            if usable(c, kind, i, j):
                o = mon.returns('image', m.get_obs, i, j, weight_type=kind)
                check_obs(mon, c, kind, i, j, o)
                nread += 1
            else:
                mon.raises('skipped', ngmix.GMixFatalError, m.get_obs, i, j, weight_type=kind)
        elif how == 1 and n and 'psf' in c['planes']:
            j = int(rng.randint(n))
            p = mon.returns('psf', m.get_psf_obs, i, j)
            mon.same('psf', np.asarray(p.image), c['planes']['psf'][i, j].astype('f8'))
            jac = m.get_ngmix_jacobian(i, j)
            mon.true('jacobian', jac.row0 == c['cat']['cutout_row'][i, j] and jac.col0 == c['cat']['cutout_col'][i, j], 'after a psf was read')
        else:
            if kind == 'weight' and rng.randint(2):
                ol = mon.returns('order and number', m.get_obslist, i)
            else:
                ol = mon.returns('order and number', m.get_obslist, i, kind)
            nread += check_list(mon, c, kind, i, ol)
            # what was handed out is the caller's to change
            s = snap.snap(list(ol))
            for o in ol:
                with o.writeable():
                    o.image[...] = -5
                    o.weight[...] = 3
                    o.jacobian.set_cen(row=1000.0, col=-3.0)
                o.meta['id'] = 'changed'
            ol2 = m.get_obslist(i, weight_type=kind)
            mon.same('repeat', snap.snap(list(ol2)), s, 'object %d read again' % i)
    mon.same('file-kept', frozen(c), before, 'contents of the file')
    if not nread:
        mon.trivial()


def w_bands(mon, rng, idx):
    nobj = int(rng.randint(1, 5))
    nband = int(rng.randint(1, 5) if rng.randint(5) else rng.randint(5, 8))
    u = [0]
    cs = [contents(rng, nobj, u) for _ in range(nband)]
    mon.describe(ncut=[c['cat']['ncutout'].tolist() for c in cs])
    mm = MultiBandNGMixMEDS([NGMixMEDS(c) for c in cs])
    mon.true('bands', mm.nband == nband and mm.size == nobj)

    def check(mb, i, kind):
        mon.true('bands', isinstance(mb, ngmix.MultiBandObsList) and len(mb) == nband, 'object %d: %d bands' % (i, len(mb)))
        for c, ol in zip(cs, mb):
            check_list(mon, c, kind, i, ol)
    for i in rng.permutation(nobj)[:2]:
        kind = gen.pick(rng, list(KINDS))
        check(mon.returns('bands', mm.get_mbobs, int(i), weight_type=kind), int(i), kind)
    kind = gen.pick(rng, list(KINDS))
    lst = mon.returns('indices', mm.get_mbobs_list, weight_type=kind)
    mon.true('indices', len(lst) == nobj)
    for i, mb in enumerate(lst):
        check(mb, i, kind)
    ind = rng.randint(0, nobj, size=int(rng.randint(0, 5)))
    if rng.randint(2):
        ind = [int(i) for i in ind]
    kind = gen.pick(rng, list(KINDS))
    lst = mon.returns('indices', mm.get_mbobs_list, ind, kind) if rng.randint(2) else mon.returns('indices', mm.get_mbobs_list, indices=ind, weight_type=kind)
    mon.true('indices', len(lst) == len(ind), 'asked for %s, got %d' % (ind, len(lst)))
    for i, mb in zip(ind, lst):
        check(mb, int(i), kind)
    if not sum(c['cat']['ncutout'].sum() for c in cs):
        mon.trivial()


def w_bad(mon, rng, idx):
    c = contents(rng, 2, [0])
    c['cat']['ncutout'][0] = max(1, c['cat']['ncutout'][0])
    m = NGMixMEDS(c)
    bad = gen.pick(rng, ['blah', 'Weight', 'cseg_canonical', '', None, 'seg'])
    mon.describe(bad=bad, n=c['cat']['ncutout'].tolist(), planes=sorted(c['planes']))
    if (0, 0) in c['planes']['image']:
        mon.raises('refused', ValueError, m.get_obs, 0, 0, weight_type=bad)
        mon.raises('refused', ValueError, m.get_obslist, 0, weight_type=bad)
        mon.raises('refused', ValueError, MultiBandNGMixMEDS([m]).get_mbobs, 0, weight_type=bad)
    for i, j in ((0, int(c['cat']['ncutout'][0])), (2, 0), (-1, 0), (0, -1)):
        mon.raises('refused', (ValueError, IndexError), m.get_obs, i, j)
    # the planes every file has are not optional
    if (0, 0) in c['planes']['image'] and usable(c, 'weight', 0, 0):
        which = gen.pick(rng, ['image', 'weight'] + (['psf'] if 'psf' in c['planes'] else []))
        del c['planes'][which][0, 0]
        mon.raises('refused', (ValueError, OSError), m.get_obs, 0, 0)


WORKLOADS = [
    Workload('reads', w_reads, quick=1200, thorough=30000),
    Workload('bands', w_bands, quick=500, thorough=12000),
    Workload('bad', w_bad, quick=100, thorough=2000),
]
