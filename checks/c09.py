"""The ortho covers exactly the part of the scene that image and DEM both cover."""
import math
import warnings

import numpy as np

from vlib import gen, ref, scene

ID = 'C09'
RULE = (
    'Random scenes (frame models, RPC; planes and smooth hills; relief, below sea level, feet) with DEMs that cover all, part or none of the footprint or have nodata holes; '
    'ground points on a grid over twice the footprint are classified by the reference camera and compared with the written mask. Non-trivial when points of both classes are compared.'
)
ASSUME = ['points within a band of interpolation kernels (ortho, source and DEM pixels) of a border are not judged']
NEED = ['points_in', 'points_out', 'warned', 'refused', 'warned_small', 'auto_res']
TIMEOUT = 300
INTERP = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']
KINDS = ['full', 'full', 'partial', 'hole', 'holes', 'outside', 'nodata', 'corner', 'strip', 'full', 'coarse', 'low', 'relief', 'tilt', 'bump', 'small', 'sliver', 'tilt', 'bump', 'ripple']


def cases(rng, tier):
    n = 900 if tier == 'quick' else 8000
    out = []
    for k in range(n):
        kind = KINDS[k % len(KINDS)]
        s = scene.ortho_spec(rng, slope=rng.choice([0.05, 0.12, 0.25]) if kind != 'coarse' else 0.0, oblique=rng.choice([0.1, 0.25, 0.35]), bands=rng.choice([1, 2]))
        if kind == 'low':
            s = scene.ortho_spec(rng, kind='frame', slope=0.03)
            dz = -rng.uniform(150, 370) - s['z0']
            s['z0'] += dz
            s['p']['xyz'][2] += dz
        if kind in ('tilt', 'bump'):
            # strong relief: ground that rises towards an oblique camera; a hill below a nadir camera
            s = scene.ortho_spec(rng, kind='frame', size=rng.choice([(120, 160), (160, 120), (150, 150)]), slope=0.35 if kind == 'tilt' else 0.02, oblique=0.8 if kind == 'tilt' else 0.06, bands=1)
            s['dem_res'] = [s['gsd'] * rng.uniform(1.0, 2.0)] * 2
        if kind == 'ripple':
            # hills that are short compared with the image sides, seen with a wide angle
            for _ in range(50):
                s = scene.ortho_spec(rng, kind='frame', size=rng.choice([(420, 320), (320, 420)]), slope=0.02, oblique=0.05, bands=1, distort=True)
                if max(ref.focal_px(s['p'])) < 1.05 * 420:
                    break
            s['dem_res'] = [s['gsd'] * rng.uniform(0.9, 1.1)] * 2
        if kind in ('small', 'sliver'):
            s = scene.ortho_spec(rng, size=rng.choice([(120, 160), (160, 120), (150, 150)]), slope=0.1, bands=1)
            s['dem_res'] = [s['gsd'] * rng.uniform(0.7, 1.1)] * 2
        if kind in ('hole', 'holes'):
            s['dem_res'] = [s['gsd'] * rng.uniform(0.8, 1.8)] * 2
        if kind == 'coarse':
            s['dem_res'] = [s['gsd'] * rng.choice([12, 25])] * 2
        res = [s['gsd']] * 2 if kind == 'ripple' else None if rng.random() < 0.4 else [s['gsd'] * rng.choice([0.5, 0.9, 1.0, 1.6, 2.4]) for _ in range(2)]
        if rng.random() < 0.1:
            res = list(s['dem_res'])
        elif rng.random() < 0.15:
            # all but the DEM resolution (GDAL's lanczos drops rows where pixel centres coincide at
            # an odd / odd ratio such as 7 / 5)
            res = [v * rng.choice([1.0, 1.005, 0.993, 1.37]) for v in s['dem_res']]
        out.append(dict(s=s, kind=kind, res=res, interp=rng.choice(INTERP), dem_interp=rng.choice(['cubic', 'bilinear', 'nearest', 'lanczos', 'average']),
                        seed=rng.randrange(1 << 30), nd=rng.choice(['nan', 'val', 'mask']), mask=rng.random() < 0.5, block=rng.choice([None, [16, 16], [64, 48]]), per_band=rng.random() < 0.3))
    return out


def run(case, mon):
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho

    s = case['s']
    rs = np.random.RandomState(case['seed'])
    sc = scene.Scene(s, mon.tmp)
    if sc.foot[2].min() < -420 or sc.foot[2].max() > 8000 or np.ptp(sc.foot[2]) > 0.6 * (s.get('p', {}).get('xyz', [0, 0, 1e9])[2] - s['z0']):
        mon.trivial = 'heights not found on Earth, or a grazing view'
        return
    src = sc.write_src()
    zf = sc.z
    ext = np.ptp(sc.foot[0]) + np.ptp(sc.foot[1])
    kind = case['kind']
    if kind == 'relief':
        # smooth hills, kept below the steepness of any view ray
        wl = ext * rs.uniform(0.4, 1.0)
        amp = 0.12 * wl / (2 * np.pi)
        ph = rs.rand(2) * 6.28
        zf = lambda x, y: sc.z(x, y) + amp * np.sin(2 * np.pi * (np.asarray(x) - sc.xc) / wl + ph[0]) * np.cos(2 * np.pi * (np.asarray(y) - sc.yc) / wl + ph[1])
    elif kind == 'ripple':
        wl = max(np.ptp(sc.foot[0]), np.ptp(sc.foot[1])) * rs.uniform(0.4, 0.8)
        amp = 0.45 * wl / (2 * np.pi)
        ph = rs.rand(2) * 6.28
        zf = lambda x, y: sc.z(x, y) + amp * np.sin(2 * np.pi * (np.asarray(x) - sc.xc) / wl + ph[0]) * np.cos(2 * np.pi * (np.asarray(y) - sc.yc) / wl + ph[1])
    elif kind == 'bump':
        agl = s['p']['xyz'][2] - s['z0']
        rad = 0.38 * min(np.ptp(sc.foot[0]), np.ptp(sc.foot[1]))
        amp = min(0.3 * agl, 0.7 * rad)

        def zf(x, y):
            r = np.minimum(np.hypot(np.asarray(x) - sc.xc, np.asarray(y) - sc.yc) / rad, 1.0)
            return sc.z(x, y) + amp * np.cos(r * np.pi / 2) ** 2

    # DEM extents
    rx, ry = s['dem_res']
    f = sc.foot
    b = [f[0].min(), f[1].min(), f[0].max(), f[1].max()]
    w, h = b[2] - b[0], b[3] - b[1]
    m = 4.0
    big = [b[0] - m * rx - 0.4 * w, b[1] - m * ry - 0.4 * h, b[2] + m * rx + 0.4 * w, b[3] + m * ry + 0.4 * h]
    db = list(big)
    if kind == 'partial':
        c = rs.randint(4)
        d = rs.uniform(0.25, 0.7)
        db[c] = [b[0] + d * w, b[1] + d * h, b[2] - d * w, b[3] - d * h][c]
    elif kind == 'sliver':
        c = rs.randint(4)
        d = rs.uniform(8, 14) * s['gsd']
        db[c] = [b[0] + d, b[1] + d, b[2] - d, b[3] - d][c]
    elif kind == 'corner':
        db = [b[0] + 0.4 * w, b[1] + 0.35 * h, big[2], big[3]]
    elif kind == 'strip':
        db = [b[0] + 0.3 * w, big[1], b[0] + 0.7 * w, big[3]]
    elif kind == 'outside':
        c = rs.randint(4)
        off = [1.9 * w + 40 * rx, 1.9 * h + 40 * ry]
        db = [[big[0] + off[0] * 2, big[1], big[2] + off[0] * 2, big[3]], [big[0] - off[0] * 2, big[1], big[2] - off[0] * 2, big[3]],
              [big[0], big[1] + off[1] * 2, big[2], big[3] + off[1] * 2], [big[0], big[1] - off[1] * 2, big[2], big[3] - off[1] * 2]][c]
    tr, shape = sc.dem_grid(bounds=db)
    z = sc.dem_array(tr, shape, zf)
    hole = np.zeros(z.shape, bool)
    if kind in ('hole', 'holes', 'nodata'):
        jc, ic = ~tr * (f[0].mean(), f[1].mean())
        for _ in range(1 if kind != 'holes' else 3):
            sj, si = max(4, 0.18 * w / rx), max(4, 0.18 * h / ry)
            j0, i0 = jc + rs.uniform(-0.35, 0.35) * w / rx, ic + rs.uniform(-0.35, 0.35) * h / ry
            if kind == 'nodata':
                sj, si, j0, i0 = 1.5 * w / rx + 10, 1.5 * h / ry + 10, jc, ic
            hole[max(0, int(i0 - si)) : max(0, int(i0 + si)), max(0, int(j0 - sj)) : max(0, int(j0 + sj))] = True
        if kind == 'nodata':
            hole[:] = True
    if kind == 'small':
        # less than 5 % of the area
        jc, ic = (int(v) for v in ~tr * (f[0].mean(), f[1].mean()))
        jc, ic = jc + rs.randint(-9, 10), ic + rs.randint(-9, 10)
        hole[ic - 10 : ic + 11, jc - 10 : jc + 11] = True
    kw = {}
    if case['nd'] == 'nan':
        z[hole] = np.nan
        kw['nodata'] = float('nan')
    elif case['nd'] == 'val':
        z[hole] = -9999.0
        kw['nodata'] = -9999.0
    else:
        z[hole] = 0
        kw['mask'] = np.where(hole, 0, 255).astype('uint8')
    dem = scene.write_tif(mon.tmp / 'dem.tif', z.astype('float32'), crs=sc.crs, transform=tr, **kw)
    opts = dict(interp=case['interp'], dem_interp=case['dem_interp'], compress='deflate', write_mask=case['mask'], build_ovw=False, per_band=case['per_band'])
    if case['res']:
        opts['resolution'] = tuple(case['res'])
    if case['block']:
        opts.pop('compress')
        opts['creation_options'] = dict(tiled=True, blockxsize=case['block'][0], blockysize=case['block'][1], compress='deflate')
    err, warned = None, False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            Ortho(src, dem, sc.camera(), crs=sc.crs).process(mon.tmp / 'o.tif', **opts)
        except OrthorityError as ex:
            err = str(ex)
        except ValueError as ex:
            # all NaN DEM window
            err = repr(ex) if kind == 'nodata' else None
            if err is None:
                raise
    warned = any('not fully covered' in str(x.message) for x in ws)
    if kind in ('outside', 'nodata'):
        mon.check(err is not None, 'a DEM that covers none of the image gives no error', kind=kind)
        mon.check('outside' in err or kind == 'nodata', 'unexpected error for a DEM that covers none of the image', err=err)
        mon.count('refused')
        return
    mon.check(err is None, f'orthorectification refused: {err}', kind=kind)
    arr, valid, X, Y, prof = scene.read_ortho(mon.tmp / 'o.tif')
    T = prof['transform']
    res = (T.a, -T.e)
    import rasterio as rio

    mon.check(prof['crs'] == rio.CRS.from_string(sc.crs) and T.b == 0 and T.d == 0, 'ortho CRS / orientation', crs=str(prof['crs']))
    if case['res']:
        mon.check(np.allclose(res, case['res'], rtol=1e-9), 'ortho resolution is not the requested one', res=res, want=case['res'])
    else:
        mon.check(abs(res[0] - res[1]) < 1e-9 * res[0], 'default ortho pixels are not square', res=res)
    covered = kind in ('full', 'coarse', 'low', 'relief', 'tilt', 'bump', 'ripple')
    if covered:
        # (a spurious warning is possible: the DEM window is cropped to the footprint and its
        # reprojected bounds may be rounded inwards)
        mon.count('warned_but_covered', warned)

    # ground sampling
    gx, gy = np.meshgrid(np.linspace(b[0] - 0.35 * w, b[2] + 0.35 * w, 90), np.linspace(b[1] - 0.35 * h, b[3] + 0.35 * h, 90))
    gx = gx + rs.uniform(-0.5, 0.5, gx.shape) * w / 60
    gy = gy + rs.uniform(-0.5, 0.5, gy.shape) * h / 60
    gz = zf(gx, gy)
    pos = sc.project(gx, gy, gz)
    undist = sc.kind == 'frame' and not s['distort'] and s['p']['model'] != 'pinhole'
    lin = sc.project_lin(gx, gy, gz) if sc.kind == 'frame' and not s['distort'] else pos
    # source pixels per ortho / DEM pixel
    eps = min(res) * 0.5
    px = max(np.abs(sc.project(gx, gy + eps, zf(gx, gy + eps)) - pos).max(), np.abs(sc.project(gx + eps, gy, zf(gx + eps, gy)) - pos).max()) / eps
    lm = scene.LIN_M[case['interp']]
    band = 1.0 + 2.2 * px * max(res)
    # coarse DEM: height error at the DEM edges
    slope = math.hypot(s['sx'], s['sy']) + (0.12 if kind == 'relief' else 0.45 if kind == 'ripple' else amp * np.pi / 2 / rad if kind == 'bump' else 0)
    hz = slope * max(rx, ry) * (1.6 if case['dem_interp'] in ('nearest', 'average') else 0.7)
    sens = np.abs(sc.project(gx, gy, gz + hz) - pos).max() if hz else 0
    band += sens
    inb = band + (lm + 1 + 3.2 * px * max(res) + 5 if undist else 0)
    isin = scene.inside(pos, sc.size, inb) & scene.inside(lin, sc.size, inb if undist else band)
    isout = ~scene.inside(pos, sc.size, -band - (1.5 + lm if undist else 0))
    if sc.kind == 'frame' and not s['distort']:
        isout |= ~scene.inside(lin, sc.size, -band - 1)
    # points behind a fold of the distortion model, or seen through the back, are not judged
    ok = _front(sc, gx, gy, gz, pos)
    isin &= ok
    isout &= ok
    # DEM validity, eroded / dilated by the interpolation kernel
    km = dict(nearest=1.0, bilinear=2.2, average=2.2, cubic=3.2, lanczos=4.4)[case['dem_interp']]
    K = int(math.ceil(km)) + int(math.ceil(2.2 * max(res[0] / rx, res[1] / ry)))
    dj, di = ~tr * (gx, gy)
    okv = np.pad(~hole, 60, constant_values=False)
    dil, ero = _dilate(okv, K), ~_dilate(~okv, K)
    jj, ii = np.clip(np.floor(dj).astype(int) + 60, 0, okv.shape[1] - 1), np.clip(np.floor(di).astype(int) + 60, 0, okv.shape[0] - 1)
    dem_in, dem_out = ero[ii, jj], ~dil[ii, jj]
    if undist:
        # mask dilation with distort=False also applies at DEM borders
        Kd = K + int(math.ceil((5 * s['gsd'] * 1.6 + 3 * max(res)) / min(rx, ry)))
        dem_in = (~_dilate(~okv, Kd))[ii, jj]
    if not covered and (isin & dem_out).any():
        mon.check(warned, 'imaged ground without a DEM height gives no warning', kind=kind, n=int((isin & dem_out).sum()))
        mon.count('warned')
        mon.count('warned_small', kind in ('small', 'sliver'))
    want_in = isin & dem_in
    want_out = isout | dem_out
    # what the ortho says
    oj, oi = ~T * (gx, gy)
    oj, oi = np.floor(oj).astype(int), np.floor(oi).astype(int)
    H, W = valid.shape
    inside = (oj >= 0) & (oj < W) & (oi >= 0) & (oi < H)
    got = np.zeros(gx.shape, bool)
    got[inside] = valid[oi[inside], oj[inside]]
    bad = want_in & ~inside
    mon.check(not bad.any(), 'imaged ground with a DEM height lies outside the ortho', n=int(bad.sum()), of=int(want_in.sum()), at=pos[:, bad][:, :2], kind=kind)
    bad = want_in & ~got
    mon.check(not bad.any(), 'imaged ground with a DEM height is masked in the ortho', n=int(bad.sum()), of=int(want_in.sum()), at=pos[:, bad][:, :2], kind=kind)
    bad = want_out & got
    mon.check(not bad.any(), 'ground that is not imaged, or has no DEM height, is valid in the ortho', n=int(bad.sum()), of=int(want_out.sum()), at=pos[:, bad][:, :2], kind=kind, dem=int((bad & dem_out).sum()))
    mon.count('points_in', want_in.sum())
    mon.count('points_out', want_out.sum())
    # extent is not larger than the footprint
    pad = 3 * max(res) + 2.5 * max(rx, ry) + 6 * s['gsd'] + sens / px
    # (much of the far side of an oblique footprint can be its frame)
    mon.check(kind == 'tilt' or T.c >= b[0] - 2 * pad - 0.12 * w and T.f <= b[3] + 2 * pad + 0.12 * h and T.c + W * res[0] <= b[2] + 2 * pad + 0.12 * w and T.f - H * res[1] >= b[1] - 2 * pad - 0.12 * h, 'ortho extent is larger than the footprint', T=str(T), b=b)
    if covered and not case['res']:
        # as many valid ortho pixels as (valid) source pixels
        n = valid.sum()
        want = (sc.size[0] - 1) * (sc.size[1] - 1)
        lo, hi = 0.72, 1.3
        if undist:
            lo, hi = 0.4, 1.45
        if kind == 'tilt':
            lo, hi = 0.4, 2.2
        mon.check(lo * want <= n <= hi * want, 'default resolution does not give about as many valid ortho as source pixels', ratio=n / want)
        mon.count('auto_res')
    if not want_in.any() or not want_out.any():
        mon.trivial = 'one class only'
    mon.state(kind, s['kind'], s.get('p', {}).get('model'), s.get('distort'), case['interp'], case['dem_interp'], case['nd'])


def _front(sc, x, y, z, pos):
    """Points in front of the camera whose projection is consistent with the inverse model."""
    if sc.kind == 'rpc':
        return np.isfinite(pos).all(axis=0)
    p = sc.s['p']
    c = np.array(p['xyz'])
    v = np.array([np.ravel(x) - c[0], np.ravel(y) - c[1], np.ravel(z) - c[2]])
    ctr = ref.pinhole_ray(p, np.array([[(sc.size[0] - 1) / 2], [(sc.size[1] - 1) / 2]])).ravel()
    ang = (ctr @ v) / np.linalg.norm(ctr) / np.linalg.norm(v, axis=0)
    # half diagonal field of view, with room for distortion
    fx, fy = ref.focal_px(p)
    half = math.atan(math.hypot(sc.size[0] / fx, sc.size[1] / fy) / 2 * 1.5)
    half = min(half + 0.1, math.radians(80))
    return (ang > math.cos(half)).reshape(np.shape(x))


def _dilate(m, k):
    out = m.copy()
    for _ in range(k):
        o = out.copy()
        o[1:] |= out[:-1]
        o[:-1] |= out[1:]
        o2 = o.copy()
        o2[:, 1:] |= o[:, :-1]
        o2[:, :-1] |= o[:, 1:]
        out = o2
    return out
