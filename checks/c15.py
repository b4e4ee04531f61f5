"""Pan-sharpened image lies on the pan grid over the shared valid area."""
import random
import warnings

import numpy as np

from vlib import pan

ID = 'C15'
RULE = (
    'Random pan / multispectral pairs with all kinds of relative extents, grid offsets, CRSs, holes (nodata, mask, NaN) and missing geo-referencing, and invalid configurations; output grid, bounds and validity '
    'are compared with those derived from the inputs. Non-trivial when an output grid and mask was compared or a configuration was refused.'
)
ASSUME = ['pixels within the interpolation kernel of an invalid multispectral pixel may be valid or not']
NEED = ['grids', 'single_band_holes', 'masks', 'refused', 'no_georef', 'other_crs']
TIMEOUT = 240
KERNEL = dict(nearest=0, average=1, bilinear=1, cubic=2, lanczos=3)
OTHER = ['EPSG:32734', '+proj=tmerc +lat_0=-33 +lon_0=26.5 +k=1 +datum=WGS84 +units=m +no_defs', 'EPSG:3857', '+proj=laea +lat_0=-33.4 +lon_0=25.9 +datum=WGS84 +units=m +no_defs']


def cases(rng, tier):
    n = 600 if tier == 'quick' else 3000
    out = []
    for k in range(n):
        kind = rng.choice(['grid', 'grid', 'grid', 'crs', 'noref', 'error'])
        s = pan.pan_spec(rng, bands=rng.choice([1, 2, 3, 4]))
        c = dict(kind=kind, s=s, interp=rng.choice(list(KERNEL)), how=rng.choice(['nodata', 'mask', 'nan']), seed=rng.randrange(1 << 30), holes=[], dtype=rng.choice([None, None, 'float32']))
        if kind in ('grid', 'crs'):
            if rng.random() < 0.7:
                s['off'] = [round(rng.uniform(-0.5, 0.5), 3), round(rng.uniform(-0.5, 0.5), 3)]
            s['grow'] = [rng.choice([0, 0, 1, 4, -3, -8, 10]) for _ in range(4)]
        if kind == 'crs':
            c['crs'] = rng.choice(OTHER)
        if kind == 'noref':
            c['which'] = rng.choice(['ms', 'pan', 'both'])
            # non-integer ratio of sizes
            c['frac'] = rng.choice([0, 0, 1, 2])
        if kind == 'error':
            c['err'] = rng.choice(['apart', 'coarse', 'coarse_x', 'coarse_y', 'pan_index', 'ms_index', 'weights_len', 'weights_neg', 'weights_zero', 'noref_coarse'])
        else:
            w, h = s['ms']
            # a subset of the bands, and holes in single bands
            c['idx'] = None if rng.random() < 0.5 else rng.sample(range(1, s['bands'] + 1), rng.randrange(1, s['bands'] + 1))
            c['bholes'] = []
            if rng.random() < 0.4:
                # (GDAL takes a nodata value in some of the bands as a value)
                s['dtype'], c['how'] = rng.choice(['float32', 'float64']), 'nan'
                for _ in range(rng.choice([1, 2])):
                    r0, c0 = rng.randrange(0, h), rng.randrange(0, w)
                    c['bholes'].append([rng.randrange(s['bands']), r0, r0 + rng.choice([3, 8]), c0, c0 + rng.choice([3, 8])])
            # representation of invalid output pixels
            c['wm'] = True
            if rng.random() < 0.4:
                c['wm'], c['dtype'] = False, rng.choice(['float32', 'float64'])
            for _ in range(rng.choice([0, 1, 2, 3]) + (kind == 'noref')):
                which = rng.choice(['ms', 'pan'])
                f = 1 if which == 'ms' else s['ratio']
                r0, c0 = rng.randrange(0, h * f), rng.randrange(0, w * f)
                hh, ww = rng.choice([1, 4, 9]) * f, rng.choice([2, 6, 12]) * f
                c['holes'].append([which, r0, r0 + hh, c0, c0 + ww])
        out.append(c)
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def grow(m, n):
    """Dilate a boolean array by ``n`` pixels, treating the outside as False."""
    for _ in range(n):
        p = np.pad(m, 1)
        m = np.zeros_like(m)
        for i in range(3):
            for j in range(3):
                m |= p[i : i + m.shape[0], j : j + m.shape[1]]
    return m


def _run(case, mon):
    import rasterio as rio
    from orthority.errors import OrthorityError, OrthorityWarning
    from orthority.pan_sharp import PanSharpen
    from rasterio.crs import CRS
    from rasterio.warp import transform, transform_bounds

    s = case['s']
    rng = random.Random(case['seed'])
    if case['kind'] == 'error':
        return errors(case, mon, rng)
    pr = pan.Pair(s)
    for which, r0, r1, c0, c1 in case['holes']:
        pr.hide(which, np.s_[r0:r1, c0:c1])
    for b, r0, r1, c0, c1 in case['bholes']:
        pr.band_valid[b, r0:r1, c0:c1] = False
    pcrs = mcrs = CRS.from_string(pan.CRS)
    if case['kind'] == 'crs':
        # the same ground area for pan in another CRS
        mcrs_ = mcrs
        pcrs = CRS.from_string(case['crs'])
        ms_b = pan.bounds_of(pr.ms_tr, pr.ms.shape[1:])
        b = transform_bounds(mcrs_, pcrs, *ms_b)
        g = s['grow']
        mres = s['res'] * s['ratio']
        k = 1.35 if case['crs'] == 'EPSG:3857' else 1.0
        b = (b[0] - g[0] * mres, b[1] - g[3] * mres, b[2] + g[2] * mres, b[3] + g[1] * mres)
        w, h = int((b[2] - b[0]) / s['res']), int((b[3] - b[1]) / s['res'])
        if min(w, h) < 8:
            mon.trivial = 'tiny'
            return
        pr.pan_tr = rio.Affine(s['res'], 0, b[0] + 0.37 * s['res'], 0, -s['res'], b[3] - 0.21 * s['res'])
        rs = np.random.RandomState(case['seed'])
        lo, hi = pan.RANGE[s['dtype']]
        z = pan.smooth(rs, None)(*np.meshgrid(np.linspace(0, 1, w), np.linspace(0, 1, h)))
        pr.pan = pr._cast(lo + (hi - lo) * (0.2 + 0.6 * z), s['dtype'])[None]
        pv = np.ones((h, w), bool)
        pv[: min(h, pr.pan_valid.shape[0]), : min(w, pr.pan_valid.shape[1])] = pr.pan_valid[:h, :w]
        pr.pan_valid = pv
    how = case['how']
    if case['kind'] == 'noref':
        if case['frac'] and s['ratio'] > 2:
            # the pan image is not a whole multiple of the multispectral size
            a, b = (1, 1) if case['frac'] == 1 else (int(rng.uniform(0.05, 0.35) * v) for v in pr.pan.shape[1:])
            pr.pan, pr.pan_valid = pr.pan[:, :-a, :-b], pr.pan_valid[:-a, :-b]
        w_ = case['which']
        ident = rio.Affine.identity()
        pkw = dict(crs=None, transform=None) if w_ in ('pan', 'both') else {}
        mkw = dict(crs=None, transform=None) if w_ in ('ms', 'both') else {}
        p_, m_ = pr.write(mon.tmp, how, pan_kw=pkw, ms_kw=mkw)
        psh, msh = pr.pan.shape[1:], pr.ms.shape[1:]
        f = (msh[1] / psh[1], msh[0] / psh[0])
        if w_ == 'both':
            pr.pan_tr = ident
        elif w_ == 'pan':
            pr.pan_tr = pr.ms_tr * rio.Affine.scale(*f)
        if w_ != 'pan':
            pr.ms_tr = pr.pan_tr * rio.Affine.scale(1 / f[0], 1 / f[1])
    else:
        p_, m_ = pr.write(mon.tmp, how, pan_kw=dict(crs=pcrs), ms_kw=dict(crs=mcrs))
    idx = case['idx'] or list(range(1, s['bands'] + 1))
    mon.count('single_band_holes', not pr.band_valid.all())
    pr.ms_valid = pr.ms_valid & pr.band_valid[[k - 1 for k in idx]].all(axis=0)
    if (pr.pan_valid.sum() < 60) or pr.ms_valid.sum() < 30:
        mon.trivial = 'few valid pixels'
        return
    opts = dict(interp=case['interp'], write_mask=case['wm'], build_ovw=False, compress='deflate', weights=[1] * len(idx))
    if case['idx']:
        opts['ms_indexes'] = case['idx']
    if case['dtype']:
        opts['dtype'] = case['dtype']
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        PanSharpen(p_, m_).process(mon.tmp / 'o.tif', **opts)
    if case['kind'] == 'noref':
        mon.check(any(issubclass(w.category, OrthorityWarning) and 'georef' in str(w.message) for w in ws), 'no warning that an image is not geo-referenced')
    with rio.open(mon.tmp / 'o.tif') as im:
        valid, tr, crs, shape = im.dataset_mask() > 0, im.transform, im.crs, im.shape
        with rio.open(p_) as pim:
            if case['kind'] != 'noref' or case['which'] == 'ms':
                mon.check(crs == pim.crs, 'output CRS is not the pan CRS', got=str(crs), want=str(pim.crs))
        mon.check(im.count == len(idx), 'band count', got=im.count, want=len(idx))
        if not case['wm']:
            # (marked in every band)
            for b in range(1, im.count + 1):
                mon.check(np.array_equal(im.read_masks(b) > 0, valid), 'bands are not valid in the same places', band=b)
    pt = pr.pan_tr
    # grid
    mon.check(abs(tr.a / pt.a - 1) < 1e-9 and abs(tr.e / pt.e - 1) < 1e-9 and tr.b == 0 == tr.d, 'output pixel size is not that of pan', got=str(tr), want=str(pt))
    j0, i0 = ~pt * (tr.c, tr.f)
    mon.check(abs(j0 - round(j0)) < 1e-3 and abs(i0 - round(i0)) < 1e-3, 'output is not on the pan grid', offset=[j0, i0])
    mb = pan.bounds_of(pr.ms_tr, pr.ms.shape[1:])
    if case['kind'] == 'crs':
        mb = transform_bounds(mcrs, pcrs, *mb, densify_pts=51)
    pb = pan.bounds_of(pt, pr.pan.shape[1:])
    want = (max(pb[0], mb[0]), max(pb[1], mb[1]), min(pb[2], mb[2]), min(pb[3], mb[3]))
    got = pan.bounds_of(tr, shape)
    tol = 1.01 * abs(pt.a) + (0.2 * s['res'] if case['kind'] == 'crs' else 0)
    mon.check(all(abs(a - b) <= tol for a, b in zip(got, want)), 'output bounds are not the intersection of the pan and multispectral bounds', got=got, want=want, px=pt.a)
    mon.count('grids')
    if case['kind'] == 'noref':
        mon.check(shape == pr.pan.shape[1:], 'output shape of un-georeferenced images', got=shape, want=pr.pan.shape[1:])
        mon.count('no_georef')
    if case['kind'] == 'crs':
        mon.count('other_crs')
    # validity at output pixel centres
    jj, ii = np.meshgrid(np.arange(shape[1]) + 0.5, np.arange(shape[0]) + 0.5)
    x, y = tr * (jj, ii)
    pj, pi = ~pt * (x, y)
    pj, pi = np.floor(pj + 1e-9).astype(int), np.floor(pi + 1e-9).astype(int)
    ph, pw = pr.pan_valid.shape
    pin = (pj >= 0) & (pj < pw) & (pi >= 0) & (pi < ph)
    pv = pin & pr.pan_valid[pi.clip(0, ph - 1), pj.clip(0, pw - 1)]
    mx, my = x, y
    if case['kind'] == 'crs':
        mx, my = transform(pcrs, mcrs, x.ravel(), y.ravel())
        mx, my = np.array(mx).reshape(x.shape), np.array(my).reshape(x.shape)
    mj, mi = ~pr.ms_tr * (mx, my)
    mh, mw = pr.ms_valid.shape
    k = KERNEL[case['interp']] + 1
    may = grow(pr.ms_valid, k)
    must = ~grow(~np.pad(pr.ms_valid, 0), k)
    # the image border does not invalidate pixels inside the image
    fj, fi = np.floor(mj).astype(int), np.floor(mi).astype(int)
    m = 0.3 if case['kind'] == 'crs' else 0.02
    inn = (mj >= m) & (mj <= mw - m) & (mi >= m) & (mi <= mh - m)
    outr = (mj < -k) | (mj > mw + k) | (mi < -k) | (mi > mh + k)
    sure = inn & must[fi.clip(0, mh - 1), fj.clip(0, mw - 1)] & pv
    maybe = pv & ~outr & may[fi.clip(0, mh - 1), fj.clip(0, mw - 1)]
    if case['interp'] == 'nearest' and case['kind'] != 'crs':
        fr = np.maximum(np.abs(mj - np.round(mj)), np.abs(mi - np.round(mi)))
        edge = np.minimum(np.abs(mj - np.round(mj)), np.abs(mi - np.round(mi))) < 0.02
        exact = inn & ~edge
        want = pv & pr.ms_valid[fi.clip(0, mh - 1), fj.clip(0, mw - 1)]
        d = (valid != want) & exact
        mon.check(not d.any(), 'valid pixels are not those valid in pan and multispectral', n=int(d.sum()), missing=int((d & want).sum()))
    d = sure & ~valid
    mon.check(not d.any(), 'pixels valid in both images are masked', n=int(d.sum()), of=int(sure.sum()))
    d = valid & ~maybe
    mon.check(not d.any(), 'pixels invalid in pan or multispectral are valid', n=int(d.sum()), of=int((~maybe).sum()))
    mon.count('masks', int(sure.sum()) + int((~maybe).sum()))
    mon.state(case['kind'], s['ratio'], case['interp'], how, tuple(s['grow']), case.get('crs'), case.get('which'))


def errors(case, mon, rng):
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.pan_sharp import PanSharpen

    s, e = case['s'], case['err']
    pr = pan.Pair(s)
    nb = s['bands']
    opts = dict(build_ovw=False)
    pkw, mkw = {}, {}
    if e == 'apart':
        d = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1)])
        g = rng.choice([1.01, 1.5, 40])
        W, H = s['ms'][0] * s['res'] * s['ratio'], s['ms'][1] * s['res'] * s['ratio']
        pr.pan_tr = rio.Affine.translation(d[0] * W * g, d[1] * H * g) * pr.pan_tr
    elif e in ('coarse', 'coarse_x', 'coarse_y'):
        f = s['ratio'] * rng.choice([1.02, 1.5, 4])
        pr.pan_tr = pr.pan_tr * rio.Affine.scale(f if e != 'coarse_y' else 1, f if e != 'coarse_x' else 1)
    elif e == 'noref_coarse':
        pr.pan, pr.ms = pr.ms[:1], np.concatenate([pr.pan] * nb).astype(s['dtype'])
        pr.pan_valid, pr.ms_valid = pr.ms_valid, pr.pan_valid
        pkw = mkw = dict(crs=None, transform=None)
    elif e == 'pan_index':
        opts['pan_index'] = rng.choice([0, -1, 2, 5])
    elif e == 'ms_index':
        idx = list(range(1, nb + 1))
        idx[rng.randrange(nb)] = rng.choice([0, -1, nb + 1, 99])
        opts['ms_indexes'] = idx
    elif e == 'weights_len':
        opts['weights'] = [1.0] * rng.choice([nb + 1, nb + 2] + ([nb - 1] if nb > 1 else []))
    elif e == 'weights_neg':
        w = [rng.uniform(0.1, 1) for _ in range(nb)]
        w[rng.randrange(nb)] = rng.choice([-0.001, -1, -5])
        opts['weights'] = w
    elif e == 'weights_zero':
        opts['weights'] = [0] * nb
    p_, m_ = pr.write(mon.tmp, None, pan_kw=pkw, ms_kw=mkw)
    ok = False
    try:
        PanSharpen(p_, m_).process(mon.tmp / 'o.tif', **opts)
    except OrthorityError:
        ok = True
    mon.check(ok, 'invalid pan-sharpening configuration is accepted', err=e, opts=str(opts))
    mon.check(e == 'weights_zero' or not (mon.tmp / 'o.tif').exists(), 'a refused configuration leaves an output file', err=e)
    mon.count('refused')
    mon.state(e, nb)
