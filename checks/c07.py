"""Ortho pixels show the source at their projected ground position."""
import warnings

import numpy as np

from vlib import ref, scene

ID = 'C07'
RULE = (
    'Random scenes (frame models with / without distortion, RPC; inclined plane DEMs) orthorectified with random resolution, '
    'interpolation, data type, tiling, per-band, driver and source / DEM file forms; source pixel values encode their own position, '
    'which is decoded from every valid ortho pixel. Non-trivial when valid pixels are compared.'
)
ASSUME = ['on an inclined plane every DEM interpolation method (nearest: to half a DEM pixel) gives the plane height away from DEM edges']
NEED = ['ortho_pixels', 'tiles_gt_1', 'terrain_pixels', 'texture_pixels']
TIMEOUT = 300

INTERP = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']


def cases(rng, tier):
    n = 1000 if tier == 'quick' else 14000
    out = []
    for k in range(n):
        s = scene.ortho_spec(rng, model=['pinhole', 'brown', 'opencv', 'fisheye'][k % 4])
        res = None
        if rng.random() < 0.65:
            f = rng.choice([0.3, 0.6, 0.9, 1.0, 1.7, 3.0])
            res = [s['gsd'] * f, s['gsd'] * f * rng.choice([1.0, 1.0, 0.8, 1.3])]
        if rng.random() < 0.1:
            res = list(s['dem_res'])  # DEM resolution: no resampling
        blk = rng.choice([None, None, [16, 16], [32, 16], [64, 48], 'strip', [128, 128]])
        drv = 'cog' if blk in (None, [128, 128]) and rng.random() < 0.15 else 'gtiff'
        out.append(
            dict(
                s=s, res=res, interp=INTERP[k % 5], dem_interp=rng.choice(['cubic', 'cubic', 'bilinear', 'nearest', 'lanczos', 'average']),
                per_band=rng.random() < 0.3, block=blk, driver=drv, write_mask=rng.choice([None, True, False]), seed=rng.randrange(1 << 30),
                out_dtype=rng.choice([None, None, 'same', 'float32', 'float64']), ovw=rng.random() < 0.3, form=rng.randrange(4),
                srccrs=rng.random() < 0.2, dem_dtype=rng.choice(['float32', 'float64']), mode=['plane', 'terrain', 'texture', 'terrain'][k // 4 % 4],
            )
        )
        c = out[-1]
        if c['mode'] == 'terrain' and res and (res[0] > 0.98 * s['dem_res'][0] or res[1] > 0.98 * s['dem_res'][1]) and res != list(s['dem_res']):
            # GDAL scales kernels with the size of the part of the DEM it is given
            c['dem_interp'] = rng.choice(['nearest', 'average'])
    # a few larger orthos with the default tiling
    for k in range(4 if tier == 'quick' else 30):
        s = scene.ortho_spec(rng, size=rng.choice([(300, 200), (200, 300)]), bands=2, dtype=rng.choice(['uint16', 'float32']))
        out.append(dict(s=s, res=[s['gsd'] / 4] * 2, interp='bilinear', dem_interp='cubic', per_band=False, block=None, driver='gtiff', write_mask=None,
                        seed=rng.randrange(1 << 30), out_dtype=None, ovw=True, form=0, srccrs=False, dem_dtype='float32'))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def _run(case, mon):
    import fsspec
    import rasterio as rio
    from orthority.ortho import Ortho

    s = case['s']
    sc = scene.Scene(s, mon.tmp)
    mode = case.get('mode', 'plane')
    arr = None
    if mode == 'texture':
        rs = np.random.RandomState(case['seed'])
        arr = rs.uniform(40, 200, (s['bands'], sc.size[1], sc.size[0])).astype(s['dtype'])
        case['dem_interp'] = 'cubic'
    src = sc.write_src(arr=arr, **(dict(crs=sc.crs, transform=rio.Affine(1, 0, 5, 0, -1, 9)) if case['srccrs'] else {}))
    dem = sc.write_dem(dtype=case['dem_dtype']) if mode != 'terrain' else terrain(sc, case)
    cam = sc.camera()
    crs = [sc.crs, rio.CRS.from_string(sc.crs)][case['seed'] % 2]
    if case['srccrs']:
        crs = None
    opts = {}
    dt = case['out_dtype']
    dtype = s['dtype']
    if dt == 'same':
        opts['dtype'] = dtype
    elif dt:
        opts['dtype'] = dtype = dt
    if case['res']:
        opts['resolution'] = tuple(case['res'])
    if case['block'] == 'strip':
        opts['creation_options'] = dict(compress='deflate')
    elif case['block']:
        b = case['block']
        if case['driver'] == 'cog':
            opts['creation_options'] = dict(compress='deflate', blocksize=b[0])
        else:
            opts['creation_options'] = dict(tiled=True, blockxsize=b[0], blockysize=b[1], compress='lzw')
    else:
        opts['compress'] = 'deflate'
    if case['write_mask'] is not None:
        opts['write_mask'] = case['write_mask']
    opts.update(interp=case['interp'], dem_interp=case['dem_interp'], per_band=case['per_band'], driver=case['driver'], build_ovw=case['ovw'])
    out = mon.tmp / 'ortho.tif'
    form = case['form']
    if form == 0:
        Ortho(src, dem, cam, crs=crs).process(str(out), **opts)
    elif form == 1:
        Ortho(fsspec.open(src, 'rb'), fsspec.open(dem, 'rb'), cam, crs=crs).process(fsspec.open(str(out), 'wb'), **opts)
    else:
        with rio.open(src) as si, rio.open(dem) as di:
            o = Ortho(si, di, cam, crs=crs)
            if form == 3:  # a second use of the same object
                o.process(mon.tmp / 'first.tif', **dict(opts, resolution=(s['gsd'] * 2,) * 2))
            o.process(out, **opts)
    arr, valid, x, y, prof = scene.read_ortho(out)
    if mode == 'texture':
        return texture(sc, case, arr, valid, x, y, dtype, mon)
    slope = abs(s['sx']) * s['dem_res'][0] + abs(s['sy']) * s['dem_res'][1]
    res = case['res'] or [abs(prof['transform'].a), abs(prof['transform'].e)]
    dz = 2e-4 * max(1, abs(s['z0']) / 1000)
    if case['dem_interp'] in ('nearest', 'average'):
        dz += 0.75 * slope + 0.6 * (abs(s['sx']) * res[0] + abs(s['sy']) * res[1])
    if mode == 'terrain':
        zz, ok, dz, near = resampled(sc, case, x, y, prof)
        mon.count('terrain_pixels', (valid & ok).sum())
        n = scene.check_ortho_geometry(sc, arr, valid & ok, x, y, case['interp'], dtype, mon, dz=dz, near_dz=near, z=lambda *_: zz)
    else:
        n = scene.check_ortho_geometry(sc, arr, valid, x, y, case['interp'], dtype, mon, dz=dz, near_dz=1.5 * slope)
    mon.count('ortho_pixels', n)
    tw = case['block'] if isinstance(case['block'], list) else [512, 512]
    if arr.shape[1] > tw[1] or arr.shape[2] > tw[0] or case['block'] == 'strip':
        mon.count('tiles_gt_1')
    if n == 0:
        mon.trivial = 'no interior pixels'
    mon.state(s['kind'], s.get('p', {}).get('model'), s.get('distort'), case['interp'], case['dem_interp'], dtype, str(case['block']), case['driver'])


def terrain(sc, case):
    """A DEM with relief at the scale of its pixels."""
    rs = np.random.RandomState(case['seed'] + 1)
    rx, ry = sc.s['dem_res']
    amp = rs.choice([0.3, 1.0, 2.0]) * max(rx, ry)
    tr, shape = sc.dem_grid(margin=5.0 + 3 * amp / min(rx, ry))
    z = sc.dem_array(tr, shape)
    j, i = np.meshgrid(np.arange(shape[1]), np.arange(shape[0]))
    z = z + amp * 0.5 * np.sin(j / 3.1 + 1) * np.cos(i / 2.3) + amp * 0.5 * rs.uniform(-1, 1, shape)
    sc.relief = float(np.ptp(z - sc.dem_array(tr, shape)))
    sc.zarr, sc.dem_transform = z.astype(case['dem_dtype']), tr
    return scene.write_tif(sc.tmp / 'dem.tif', sc.zarr, crs=sc.crs, transform=tr)


def resampled(sc, case, x, y, prof):
    """Heights of the ortho pixels, by resampling the whole DEM with rasterio."""
    import rasterio as rio
    from rasterio.warp import Resampling, reproject

    zz = np.full(x.shape, np.nan)
    reproject(
        sc.zarr.astype('float64'), zz, src_crs=sc.crs, src_transform=sc.dem_transform, dst_crs=sc.crs, dst_transform=prof['transform'],
        resampling=Resampling[case['dem_interp']], src_nodata=float('nan'), dst_nodata=float('nan'), init_dest_nodata=True,
    )  # fmt: skip
    ok = ~np.isnan(zz)
    j, i = ~sc.dem_transform * (x, y)
    if case['dem_interp'] in ('nearest', 'average'):
        # ties, and pixels that only touch a DEM pixel
        res = [abs(prof['transform'].a) / sc.s['dem_res'][0] / 2, abs(prof['transform'].e) / sc.s['dem_res'][1] / 2]
        for c, r in zip((j, i), res):
            for q in (c,) if case['dem_interp'] == 'nearest' else (c - r, c + r):
                ok &= np.abs(q - np.round(q)) > 2e-3
    # kernels (extended for a coarser ortho) that reach beyond the part of the DEM around the ortho
    rad = 1.2 + dict(nearest=1, average=1, bilinear=1, cubic=2, lanczos=3)[case['dem_interp']]
    for c, r, d in ((x, abs(prof['transform'].a), sc.s['dem_res'][0]), (y, abs(prof['transform'].e), sc.s['dem_res'][1])):
        ok &= (c - c.min() > rad * max(r, d)) & (c.max() - c > rad * max(r, d))
    zz = np.where(np.isnan(zz), sc.s['z0'], zz)
    return zz, ok, 1e-3 * max(1, abs(sc.s['z0']) / 1000, sc.relief / 10), None


FLAGS = dict(nearest=0, bilinear=1, average=1, cubic=2, lanczos=4)


def texture(sc, case, arr, valid, x, y, dtype, mon):
    """The source is interpolated with the requested method."""
    import cv2

    s = sc.s
    z = sc.z(x, y)
    pos = sc.project(x, y, z)
    near = 3.6 * max(s['dem_res'])
    ok = valid & scene.inside(pos, sc.size, 9) & (x - x.min() > near) & (x.max() - x > near) & (y - y.min() > near) & (y.max() - y > near)
    undist = sc.kind == 'frame' and not s['distort'] and s['p']['model'] != 'pinhole'
    src = sc.arr.astype(dtype)
    if undist:
        lin = sc.project_lin(x, y, z)
        ok &= scene.inside(lin, sc.size, 9)
        w, h = sc.size
        K = sc.K
        j, i = np.meshgrid(np.arange(w, dtype=float), np.arange(h, dtype=float))
        m = ref.norm_to_pixel(s['p'], *ref.distort(s['p']['model'], s['p'], ((j - K[2]) / K[0]).ravel(), ((i - K[3]) / K[1]).ravel())).reshape(2, h, w)
        pos = lin
    if ok.sum() < 300:
        mon.trivial = 'few interior pixels'
        return
    wants = {}
    for name in ('nearest', 'bilinear', 'cubic', 'lanczos'):
        w_ = []
        for im in src:
            if undist:
                im = cv2.remap(im, m[0].astype('float32'), m[1].astype('float32'), FLAGS[name], borderMode=cv2.BORDER_REFLECT_101)
            w_.append(cv2.remap(im, pos[0].astype('float32'), pos[1].astype('float32'), FLAGS[name], borderMode=cv2.BORDER_REFLECT_101)[ok].astype(float))
        wants[name] = np.array(w_)
    mon.count('texture_pixels', ok.sum() * src.shape[0])
    me = 'bilinear' if case['interp'] == 'average' else case['interp']
    apart = min(np.abs(v - wants[me]).mean() for k, v in wants.items() if k != me)
    if apart < 1:
        return
    err = {k: np.abs(arr[:, ok].astype(float) - v).mean(axis=1).max() for k, v in wants.items()}
    mon.check(err[me] < 0.4 * apart, 'source values are not interpolated with the requested method', interp=case['interp'], mean_errors=err, undist=undist, dtype=dtype)
    mon.state('texture', s['kind'], s.get('p', {}).get('model'), s.get('distort'), case['interp'], dtype)
