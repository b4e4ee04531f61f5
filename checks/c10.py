"""DEM coordinates, vertical datum, units, band and nodata are honoured."""
import math
import warnings

import numpy as np

from vlib import gen, ref, scene

ID = 'C10'
RULE = (
    'The same inclined plane is supplied as DEMs in different horizontal CRSs, vertical datums and units, data types, bands, resolutions and nodata representations; '
    'the geometry decoded from the ortho must be that of the plane in the world CRS. Non-trivial when at least half of the footprint is decoded.'
)
ASSUME = ['rasterio / PROJ coordinate transforms are right (EGM96 grid only, as no other grid is installed)']
NEED = ['ortho_pixels', 'other_band_nodata', 'holes', 'bad_band', 'shifted', 'auto_res']
TIMEOUT = 300

UTM = '+proj=utm +zone=35 +south +datum=WGS84'
WORLD = {
    '2d': 'EPSG:32735', 'ell': UTM + ' +units=m +vunits=m', 'egm': 'EPSG:32735+5773', 'egmp': UTM + ' +units=m +geoidgrids=egm96_15.gtx +vunits=m',
    'usft': UTM + ' +units=us-ft +vunits=us-ft', 'tm2d': '+proj=tmerc +lat_0=0 +lon_0=27 +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m',
}
# geographic world CRSs, for RPC cameras
GEO = {'g4326': 'EPSG:4326', 'g4979': 'EPSG:4979'}
DEM = {
    'same': None, '2d': 'EPSG:32735', 'ell': UTM + ' +units=m +vunits=m', 'egm': 'EPSG:32735+5773', 'egmp': UTM + ' +units=m +geoidgrids=egm96_15.gtx +vunits=m',
    'ellft': UTM + ' +units=m +vunits=us-ft', 'egmft': UTM + ' +units=m +geoidgrids=egm96_15.gtx +vunits=us-ft', 'g4979': 'EPSG:4979', 'g4326': 'EPSG:4326',
    'gegm': 'EPSG:4326+5773', 'gft': '+proj=longlat +datum=WGS84 +vunits=us-ft', 'tm': '+proj=tmerc +lat_0=0 +lon_0=27 +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m +vunits=m',
    'wm': 'EPSG:3857', 'wmegm': 'EPSG:3857+5773', 'utm34': 'EPSG:32734', 'utm34egm': 'EPSG:32734+5773', 'usft': UTM + ' +units=us-ft +vunits=us-ft',
}
TWO_D = {'2d', 'tm2d', 'g4326', 'wm', 'utm34'}
EGM = {'egm', 'egmp', 'egmft', 'gegm', 'wmegm', 'utm34egm'}
FT = {'ellft', 'egmft', 'gft', 'usft'}


def pairs():
    out = []
    for w in WORLD:
        for d in DEM:
            if d != 'same' and (w in TWO_D) != (d in TWO_D):
                # heights of one CRS are undefined: taken to be those of the other, so only metres
                if w in FT or d in FT:
                    continue
            out.append((w, d))
    return out


def cases(rng, tier):
    reps = 3 if tier == 'quick' else 12
    out = []
    for rep in range(reps):
        for k, (w, d) in enumerate(pairs()):
            out.append(_case(rng, w, d))
        for _ in range(40):  # nodata, dtype and band variety with less CRS variety
            out.append(_case(rng, rng.choice(['2d', 'egm']), rng.choice(['same', 'same', 'egm', 'g4326', 'gegm']), more=True))
        for _ in range(16):
            out.append(_case(rng, *rng.choice([q for q in pairs() if q[0] in ('2d', 'ell')]), rpc=True))
        for w in GEO:
            for d in ('same', 'egm', '2d', 'g4326', 'g4979', 'gegm', 'utm34egm', 'ellft'):
                if d in FT and w in TWO_D:
                    continue
                out.append(_case(rng, w, d, rpc=True))
        for d in ('egm', 'egmft', 'g4979', '2d', 'ell', 'same'):
            if d != '2d':
                out.append(_case(rng, 'usft', d, high=True))
                out.append(_case(rng, 'usft', d, high=True))
        for _ in range(6):
            out.append(dict(bad_band=True, count=rng.choice([1, 2, 3]), band=rng.choice([0, -1, 1, 5]), seed=rng.randrange(1 << 30)))
    return out


def _case(rng, w, d, more=False, rpc=False, high=False):
    size = rng.choice([(200, 150), (150, 200), (180, 180)])
    dt = 'float32'
    if rpc:
        s = scene.ortho_spec(rng, kind='rpc', size=size, dtype=dt, bands=2, slope=0.08)
    else:
        s = scene.ortho_spec(rng, kind='frame', size=size, dtype=dt, bands=2, oblique=0.45, slope=0.08, distort=True)
        if high:
            s['z0'] = gen.r6(rng.uniform(4000, 9000))
        # low altitude: sensitive to height
        agl = rng.uniform(80, 140) * (3.28 if w == 'usft' else 1)
        s['p']['xyz'][2] = s['z0'] + agl
        s['gsd'] = agl / min(ref.focal_px(s['p']))
        if w == 'usft':
            s['p']['xyz'][0] *= 3.2808333333
            s['p']['xyz'][1] *= 3.2808333333
        elif w == 'tm2d':
            s['p']['xyz'][0] -= 5e5
            s['p']['xyz'][1] -= 1e7
    r = rng.uniform(1.5, 4.0) * s['gsd']
    s['dem_res'] = [r, r]
    s['crs'] = WORLD[w] if w in WORLD else GEO[w]
    if w in GEO:
        m = 111320.0
        s['gsd'] /= m
        s['dem_res'] = [r / m] * 2
        s['sx'] *= m
        s['sy'] *= m
    c = dict(s=s, w=w, d=d, f=rng.choice([0.7, 1.0, 1.8]), dem_interp=rng.choice(['cubic', 'bilinear', 'cubic', 'lanczos']), interp=rng.choice(['bilinear', 'cubic']),
             dtype='float32', band=1, count=1, nd=None, seed=rng.randrange(1 << 30), form=rng.randrange(3))
    if more or rng.random() < 0.3:
        c['count'] = rng.choice([1, 2, 3])
        c['band'] = rng.randrange(c['count']) + 1
        c['dtype'] = rng.choice(['float32', 'float64', 'int16', 'int32', 'uint16'])
        c['nd'] = rng.choice([None, 'nan', 'val', 'mask', 'val', 'nannone', 'sentinel'])
    if more and rng.random() < 0.25:
        c['f'] = None  # DEM resolution
    elif rng.random() < 0.25 and w not in GEO:
        c['f'] = 'auto'
    return c


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def _run(case, mon):
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho
    from rasterio.warp import transform

    rs = np.random.RandomState(case['seed'])
    if case.get('bad_band'):
        import random

        s = scene.ortho_spec(random.Random(case['seed']), kind='frame')
        sc = scene.Scene(s, mon.tmp)
        tr, shape = sc.dem_grid()
        z = sc.dem_array(tr, shape)
        dem = scene.write_tif(mon.tmp / 'dem.tif', np.stack([z] * case['count']).astype('float32'), crs=sc.crs, transform=tr)
        band = case['band']
        ok = 1 <= band <= case['count']
        err = None
        try:
            Ortho(sc.write_src(), dem, sc.camera(), crs=sc.crs, dem_band=band)
        except OrthorityError as ex:
            err = ex
        mon.check(ok == (err is None), 'a DEM band that does not exist is accepted / an existing one refused', band=band, count=case['count'])
        mon.count('bad_band', not ok)
        return
    s = case['s']
    sc = scene.Scene(s, mon.tmp)
    src = sc.write_src()
    w, d = case['w'], case['d']
    wcrs = s['crs']
    dcrs = DEM[d] or wcrs
    if d == w:
        dcrs = wcrs
    # GeoTIFF cannot hold every proj4 definition: use the CRS as it is stored
    probe = scene.write_tif(mon.tmp / 'probe.tif', np.zeros((1, 2, 2), 'uint8'), crs=dcrs, transform=rio.Affine(1, 0, 3, 0, -1, 4))
    with rio.open(probe) as im:
        stored = im.crs
    # DEM grid in its own CRS
    f = np.hstack([sc.foot, sc.foot0])
    m = 5 * s['dem_res'][0]
    bx = np.array([f[0].min() - m, f[0].max() + m])
    by = np.array([f[1].min() - m, f[1].max() + m])
    t = np.linspace(0, 1, 21)
    ex = np.r_[bx[0] + t * np.ptp(bx), bx[0] + t * np.ptp(bx), bx[0] + 0 * t, bx[1] + 0 * t]
    ey = np.r_[by[0] + 0 * t, by[1] + 0 * t, by[0] + t * np.ptp(by), by[0] + t * np.ptp(by)]
    same = stored == rio.CRS.from_string(wcrs)
    dcrs = stored
    dx, dy = (ex, ey) if same else [np.array(a) for a in transform(wcrs, dcrs, ex, ey)[:2]]
    # local scale
    rx = s['dem_res'][0] * np.ptp(dx) / np.ptp(bx)
    ry = s['dem_res'][1] * np.ptp(dy) / np.ptp(by)
    if case['f'] is None and same:
        rx = ry = s['dem_res'][0]
    l, top = dx.min() - rs.rand() * rx, dy.max() + rs.rand() * ry
    nx, ny = int(math.ceil((dx.max() - l) / rx)) + 1, int(math.ceil((top - dy.min()) / ry)) + 1
    tr = rio.Affine(rx, 0, l, 0, -ry, top)
    j, i = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    X, Y = tr * (j, i)
    if same:
        x, y, a, b = X, Y, 1.0, 0.0
    else:
        w0 = transform(dcrs, wcrs, X.ravel(), Y.ravel(), np.zeros(X.size))
        w1 = transform(dcrs, wcrs, X.ravel(), Y.ravel(), np.full(X.size, 100.0))
        x, y = np.array(w0[0]).reshape(X.shape), np.array(w0[1]).reshape(X.shape)
        b = np.array(w0[2]).reshape(X.shape)
        a = (np.array(w1[2]) - w0[2]).reshape(X.shape) / 100
        if w in TWO_D or d in TWO_D:
            mon.check(np.abs(b).max() < 1e-3 and np.abs(a - 1).max() < 1e-6, 'harness: 2D pair with a shift') if not (w == 'usft' or d in FT) else None
        if np.abs(b).max() > 5 or np.abs(a - 1).max() > 0.5:
            mon.count('shifted')
    zd = (sc.z(x, y) - b) / a
    dtype = case['dtype']
    kind = np.dtype(dtype).kind
    if kind == 'u' and zd.min() < 2:
        dtype, kind = 'int16', 'i'
    quant = 0.5 * np.abs(a).max() if kind in 'iu' else 0.0
    hole = np.zeros(zd.shape, bool)
    nd, kw = case['nd'], {}
    if nd:
        # hole in the middle of the footprint
        cx, cy = (float(f[0].mean()), float(f[1].mean()))
        r = 0.16 * min(np.ptp(sc.foot[0]), np.ptp(sc.foot[1]))
        r = max(r, 4 * s['dem_res'][0])
        hole = (np.abs(x - cx) < r) & (np.abs(y - cy) < r)
    if nd in ('nan', 'nannone') and kind != 'f':
        nd = 'val'
    fillv = dict(nan=np.nan, nannone=np.nan, val=-32768 if kind != 'u' else 65535, mask=zd.max() + 400, sentinel=0 if kind == 'u' else -9999.0).get(nd)
    if nd in ('nan',):
        kw['nodata'] = float('nan')
    elif nd in ('val', 'sentinel'):
        kw['nodata'] = fillv
    elif nd == 'mask':
        kw['mask'] = np.where(hole, 0, 255).astype('uint8')
    zq = np.round(zd) if kind in 'iu' else zd
    arrs = []
    for k in range(1, case['count'] + 1):
        a_ = zq + (0 if k == case['band'] else 60 * (k - case['band']) + 35)
        # nodata of the other bands is their own, unless there is a mask for all of them
        bh = hole
        if k != case['band'] and nd and nd != 'mask' and case['seed'] % 2:
            bh = np.zeros_like(hole)
            bh[: hole.shape[0] // 2 + (case['seed'] // 2 % 2) * hole.shape[0]] = case['seed'] // 4 % 2
        if bh.any():
            a_ = np.where(bh, fillv, a_)
        if kind == 'u':
            a_ = np.clip(a_, 1 if fillv == 0 else 0, 65535) if not bh.any() else np.where(bh, fillv, np.clip(a_, 1, 65000))
        mon.count('other_band_nodata', bool((bh != hole).any()))
        arrs.append(a_.astype(dtype))
    dem = scene.write_tif(mon.tmp / 'dem.tif', np.stack(arrs), crs=dcrs, transform=tr, **kw)
    auto = case['f'] == 'auto'
    res = None if auto else s['dem_res'] if case['f'] is None else [s['gsd'] * case['f']] * 2
    args = dict(crs=wcrs if case['form'] else rio.CRS.from_string(wcrs), dem_band=case['band'])
    if case['form'] == 2:
        with rio.open(dem) as di:
            o = Ortho(src, di, sc.camera(), **args)
    else:
        o = Ortho(src, dem, sc.camera(), **args)
    o.process(mon.tmp / 'o.tif', resolution=None if auto else tuple(res), interp=case['interp'], dem_interp=case['dem_interp'], compress='deflate', build_ovw=False)
    arr, valid, ox, oy, prof = scene.read_ortho(mon.tmp / 'o.tif')
    if auto:
        res = [prof['transform'].a, -prof['transform'].e]
        if not hole.any():
            ratio = valid.sum() / ((sc.size[0] - 1) * (sc.size[1] - 1))
            mon.check(0.66 < ratio < 1.5, 'default resolution does not give about as many valid ortho as source pixels', ratio=ratio, w=w, d=d)
            mon.count('auto_res')
    probe = scene.write_tif(mon.tmp / 'probe.tif', np.zeros((1, 2, 2), 'uint8'), crs=wcrs, transform=rio.Affine(1, 0, 3, 0, -1, 4))
    with rio.open(probe) as im:
        mon.check(prof['crs'] == im.crs, 'ortho CRS is not the world CRS', crs=str(prof['crs']))
    slope = math.hypot(s['sx'], s['sy'])
    near = 2.0 * slope * s['dem_res'][0] + quant
    dz = 0.02 + 1.35 * quant + 0.35 * slope * s['dem_res'][0] + 2e-5 * abs(s['z0'])
    mon.count('holes', bool(hole.any()))
    # hole: masked at its centre; elsewhere within a kernel of its border heights are looser
    if hole.any():
        core = (np.abs(ox - cx) < r - 3.2 * s['dem_res'][0]) & (np.abs(oy - cy) < r - 3.2 * s['dem_res'][0])
        mon.check(not (valid & core).any(), 'DEM nodata is treated as height', n=int((valid & core).sum()), of=int(core.sum()), nd=nd, dtype=dtype)
        ring = (np.abs(ox - cx) < r + 4.5 * s['dem_res'][0]) & (np.abs(oy - cy) < r + 4.5 * s['dem_res'][0])
        n2 = scene.check_ortho_geometry(sc, arr, valid & ring, ox, oy, case['interp'], 'float32', mon, dz=dz + near * 2, what='near DEM nodata: ')
        mon.count('near_hole', n2)
        valid = valid & ~ring
    n = scene.check_ortho_geometry(sc, arr, valid, ox, oy, case['interp'], 'float32', mon, dz=dz, near_dz=near, what=f'DEM in {d}, world in {w}: ')
    mon.count('ortho_pixels', n)
    want = np.ptp(sc.foot[0]) * np.ptp(sc.foot[1]) / (res[0] * res[1]) * 0.3
    mon.check(hole.any() or valid.sum() > want, 'most of the ortho is masked', n=int(valid.sum()), want=want)
    mon.state(w, d, dtype, nd, case['dem_interp'])
