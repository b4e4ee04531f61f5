"""Pan-sharpened values equal the Gram-Schmidt method on the valid pixels."""
import warnings

import numpy as np

from vlib import pan

ID = 'C13'
RULE = (
    'Random pan / multispectral pairs (ratio, grid offset, partial overlap, nodata / mask holes, data types, band selections, weights, interpolation, image sizes around the tile sizes); '
    'every output pixel is compared with a whole-image float64 reference of the published equations. Non-trivial when weights are unambiguous and more than 100 pixels were compared.'
)
ASSUME = ["GDAL's whole-image warp is right", 'estimated weights are compared when re-estimation over the positive bands is the non-negative least squares solution']
NEED = ['pixels_compared', 'estimated_weights', 'given_weights', 'holes', 'clipped', 'multi_stats_tiles', 'band_holes', 'lone_pixel']
TIMEOUT = 300
INTERP = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']


def cases(rng, tier):
    n = 420 if tier == 'quick' else 2600
    out = []
    for k in range(n):
        s = pan.pan_spec(rng)
        nb = s['bands']
        if rng.random() < 0.5:
            s['off'] = [round(rng.uniform(-0.5, 0.5), 3), round(rng.uniform(-0.5, 0.5), 3)]
        if rng.random() < 0.5:
            s['grow'] = [rng.choice([0, 1, 3, -2, -5]) for _ in range(4)]
        if rng.random() < 0.3:
            s['pan_dtype'] = rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
        if rng.random() < 0.08 or k in (0, 1):
            s['ms'] = rng.choice([[1030, 60], [40, 1100], [1100, 1040], [1024, 33]])
            s['ratio'], s['bands'] = 2, min(nb, 3)
            nb = s['bands']
        c = dict(s=s, interp=INTERP[k % 5], how=rng.choice([None, 'nodata', 'mask', 'nan']), holes=[], idx=None, weights=None, pan_index=1, dtype=None, wm=rng.random() < 0.6, blk=rng.choice([None, 16, 32, 64]))
        if c['how']:
            w, h = s['ms']
            for _ in range(rng.choice([1, 2, 4])):
                which = rng.choice(['ms', 'pan'])
                f = 1 if which == 'ms' else s['ratio']
                r0, c0 = rng.randrange(0, h), rng.randrange(0, w)
                hh, ww = rng.choice([1, 2, 5, 9]), rng.choice([1, 3, 6, 11])
                c['holes'].append([which, r0 * f, (r0 + hh) * f, c0 * f, (c0 + ww) * f])
        if rng.random() < 0.4:
            m = rng.randrange(1, nb + 1)
            c['idx'] = rng.sample(range(1, nb + 1), m)
            if rng.random() < 0.2:
                c['idx'].append(rng.choice(c['idx']))
        m = len(c['idx'] or range(nb))
        q = rng.random()
        if q < 0.35:
            c['weights'] = [round(rng.uniform(0.05, 3), 3) for _ in range(m)]
        elif q < 0.6:
            c['weights'] = [rng.choice([0, 0, 1, 0.4, 2]) for _ in range(m)]
            if not any(c['weights']):
                c['weights'][rng.randrange(m)] = 1
        if rng.random() < 0.25:
            c['pan_index'] = 2
        if rng.random() < 0.5:
            c['dtype'] = rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
        # ranges that overflow integer data types, or are as small as reflectance
        q = rng.random()
        if q < 0.25 and s['dtype'].startswith('float'):
            s['range'] = rng.choice([[0.001, 0.4], [0.0, 1e-3], [2000.0, 2000.5]])
        elif q < 0.35:
            s['range'] = dict(uint8=[2, 255], uint16=[1, 65535], int16=[-32700, 32767], float32=[-1e4, 1e5], float64=[0, 1e6])[s['dtype']]
            c['dtype'] = None
        if c['how'] == 'nan' and s['dtype'].startswith('float') and rng.random() < 0.7:
            # NaN in one of the bands (rasterio takes a nodata value in only some of the bands as valid)
            w, h = s['ms']
            r0, c0 = rng.randrange(0, h), rng.randrange(0, w)
            c['bhole'] = [rng.randrange(nb), r0, r0 + rng.choice([3, 8]), c0, c0 + rng.choice([3, 9])]
        if k % 40 == 5:
            # one valid and extreme pixel in the last statistics tile
            s.update(ms=rng.choice([[1030, 20], [18, 1033]]), ratio=2, bands=min(nb, 2), dtype='float64', pan_dtype=None, off=[0.0, 0.0], grow=[0, 0, 0, 0], range=[1.0, 50.0])
            c.update(lone=True, how=rng.choice(['mask', 'nan']), holes=[], bhole=None, idx=None, weights=None if rng.random() < 0.5 else [1.0] * s['bands'], pan_index=1, dtype=None)
        c['neg'] = rng.random() < 0.15
        c['open'] = rng.random() < 0.2
        out.append(c)
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def make(case):
    s = case['s']
    pr = pan.Pair(s)
    for which, r0, r1, c0, c1 in case['holes']:
        if which == 'pan':
            # multispectral pixel blocks, so that partial pan coverage of a block is covered too
            r1, c1 = r1 - (r0 // 7) % 2, c1 - (c0 // 5) % 2
        pr.hide(which, np.s_[r0:r1, c0:c1])
    if case.get('bhole'):
        b, r0, r1, c0, c1 = case['bhole']
        pr.band_valid[b, r0:r1, c0:c1] = False
    if case.get('lone'):
        w, h = s['ms']
        pr.ms_valid[1024:] = False
        pr.ms_valid[:, 1024:] = False
        i, j = (h // 2, w - 3) if w > h else (h - 3, w // 2)
        pr.ms_valid[i, j] = True
        pr.ms[:, i, j] = (9e3 + np.arange(len(pr.ms)) * 1e3).astype(pr.ms.dtype)
        pr.pan[:, 2 * i : 2 * i + 2, 2 * j : 2 * j + 2] = 8e3
    if case['neg'] and len(pr.ms) > 1:
        lo, hi = pr.ms[0].min(), pr.ms[0].max()
        pr.ms[0] = (hi - pr.ms[0] + lo).astype(pr.ms.dtype)  # a negatively correlated band
    if case['pan_index'] == 2:
        rs = np.random.RandomState(s['seed'] ^ 5)
        p = pr.pan[0]
        other = rs.uniform(float(p.min()), float(p.max()), p.shape).astype(p.dtype)
        pr.pan = np.stack([other, p])
    return pr


def _run(case, mon):
    import rasterio as rio
    from orthority.pan_sharp import PanSharpen

    s = case['s']
    pr = make(case)
    if not pr.ms_valid.any() or not pr.pan_valid.any():
        mon.trivial = 'nothing valid'
        return
    p_, m_ = pr.write(mon.tmp, case['how'])
    ref = pan.reference(pr, case['idx'], case['pan_index'], case['weights'], case['interp'])
    if ref['n'] < 30:
        mon.trivial = 'few valid pixels'
        return
    if ref['ambiguous']:
        mon.trivial = 'weight estimate depends on the method'
        return
    opts = dict(interp=case['interp'], write_mask=case['wm'], build_ovw=False)
    for k, o in (('idx', 'ms_indexes'), ('weights', 'weights'), ('dtype', 'dtype')):
        if case[k] is not None:
            opts[o] = case[k]
    if case['pan_index'] != 1:
        opts['pan_index'] = case['pan_index']
    if case['blk']:
        opts['creation_options'] = dict(tiled=True, blockxsize=case['blk'], blockysize=case['blk'])
    else:
        opts['compress'] = 'deflate'
    if case['open']:
        with rio.open(p_) as a, rio.open(m_) as b:
            PanSharpen(a, b).process(mon.tmp / 'o.tif', **opts)
            mon.check(not a.closed and not b.closed, 'datasets passed open were closed')
    else:
        PanSharpen(p_, m_).process(mon.tmp / 'o.tif', **opts)
    dtype = case['dtype'] or s['dtype']
    with rio.open(mon.tmp / 'o.tif') as im:
        out, valid, tr, nd = im.read(), im.dataset_mask() > 0, im.transform, im.nodata
        bm = im.read_masks() > 0
    r = ref['out']
    # align with the reference grid
    j, i = ~tr * (ref['transform'].c, ref['transform'].f)
    mon.check(abs(j - round(j)) < 1e-3 and abs(i - round(i)) < 1e-3, 'output is not on the pan grid', offset=[j, i])
    j, i = round(j), round(i)
    full = np.full((len(r), *out.shape[1:]), np.nan)
    h, w = r.shape[1:]
    r0, c0 = max(i, 0), max(j, 0)
    hh, ww = min(h, out.shape[1] - r0), min(w, out.shape[2] - c0)
    full[:, r0 : r0 + hh, c0 : c0 + ww] = r[:, r0 - i : r0 - i + hh, c0 - j : c0 - j + ww]
    mon.check(len(out) == len(full), 'number of bands', got=len(out), want=len(full))
    want = pan.cast(full, dtype)
    ok = np.isfinite(full).all(axis=0)
    if not case['wm'] and nd is not None and nd == nd:
        # values equal to nodata are ambiguous without a mask
        vb = bm & ok
    else:
        vb = np.broadcast_to(valid & ok, out.shape)
    spread = max(1.0, np.nanmax(np.abs(full[:, ok]), initial=1.0)) if ok.any() else 1.0
    if np.dtype(dtype).kind in 'iu':
        d = np.abs(out.astype('f8') - np.clip(full, np.iinfo(dtype).min, np.iinfo(dtype).max))
        tol = 0.5 + 1e-5 * min(spread, 1e5)
        mon.count('clipped', int(((full < np.iinfo(dtype).min) | (full > np.iinfo(dtype).max))[vb].sum()))
    else:
        d = np.abs(out.astype('f8') - full)
        tol = spread * (1e-5 if dtype == 'float32' else 2e-7)
    bad = ~(d <= tol) & vb
    if bad.any():
        k = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(d, nan=1e30), -1)), d.shape)
        mon.fail('pan-sharpened value differs from the Gram-Schmidt method', n=int(bad.sum()), of=int(vb.sum()), at=[int(v) for v in k], got=out[k], want=want[k], tol=tol, weights=ref['weights'], dtype=dtype)
    mon.count('oracle_evaluations', 1)
    mon.count('pixels_compared', int(vb.sum()))
    # the reference and the output agree on which pixels are valid, to within the nodata clash
    near = bool(case.get('bhole')) and case['interp'] != 'nearest'
    if case['wm'] and not near:
        mon.check((valid == ok).all(), 'valid pixels differ from those valid in both images', n=int((valid != ok).sum()), missing=int((ok & ~valid).sum()), extra=int((valid & ~ok).sum()))
    mon.count('given_weights' if case['weights'] else 'estimated_weights')
    if case['holes']:
        mon.count('holes')
    if case.get('bhole') and not (pr.band_valid.all(axis=0) == pr.band_valid.any(axis=0)).all():
        mon.count('band_holes')
    if case.get('lone'):
        mon.count('lone_pixel')
    if max(s['ms']) > 1024:
        mon.count('multi_stats_tiles')
    if vb.sum() < 100:
        mon.trivial = 'few pixels'
    mon.state(s['ratio'], len(full), dtype, case['interp'], case['how'], case['weights'] is None, bool(case['idx']))
