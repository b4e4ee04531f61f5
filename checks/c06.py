"""Reading, undistorting and remapping images."""
import warnings

import numpy as np

from vlib import gen, ref, scene

ID = 'C06'
RULE = (
    'Random frame / RPC cameras x data types x band selections x file forms x nodata x interpolation; coordinate coded images '
    '(pixel value = its column / row) and textured images; every returned pixel is compared with the reference position. '
    'Non-trivial when pixels are compared.'
)
ASSUME = ['cv2.remap() interpolates as documented at the coordinates it is given (1/32 pixel)']
NEED = ['read_pixels', 'undistorted_pixels', 'remapped_pixels', 'masked_pixels', 'nan_pixels', 'texture_pixels', 'partial_nodata', 'undistort_nodata', 'undistort_texture', 'converted_reads']

NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
INTERP = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']


def cases(rng, tier):
    n = 2000 if tier == 'quick' else 30000
    out = []
    for k in range(n):
        c = dict(seed=rng.randrange(1 << 30), dtype=rng.choice(list(NODATA)), bands=rng.choice([1, 2, 3, 4, 6]), interp=INTERP[k % 5])
        if k % 10 == 9:
            c.update(kind='rpc', rp=gen.rpc_param(rng), crs=rng.random() < 0.7)
        else:
            c.update(kind='frame', p=gen.frame_param(rng, model=ref.MODELS[(k // 2) % 4], oblique=rng.choice([0.1, 0.4])), distort=k % 2 == 0, alpha=rng.choice([0.0, 0.4, 1.0]))
        out.append(c)
    return out


def eq(a, v):
    return np.isnan(a) if v != v else a == v


def check_read(cam, case, mon, rs, arr, raw):
    """Band selection, order, dtype and file forms; ``raw``: bands are returned unchanged."""
    import fsspec
    import rasterio as rio
    from pathlib import Path

    kw = {}
    if arr.shape[0] >= 3 and rs.rand() < 0.3:
        kw = dict(photometric='RGB')
    if rs.rand() < 0.5 and min(arr.shape[1:]) >= 16:
        kw.update(tiled=True, blockxsize=16, blockysize=16)
    if rs.rand() < 0.3:
        kw.update(interleave='band')
    path = scene.write_tif(mon.tmp / 'src.tif', arr, **kw)
    for form in rs.permutation(4)[:2]:
        n = arr.shape[0]
        idx = [None, int(rs.randint(1, n + 1)), [int(v) for v in rs.permutation(n)[: rs.randint(1, n + 1)] + 1], tuple(range(1, n + 1))][rs.randint(4)]
        dt = None
        if rs.rand() < 0.5:
            dt = str(rs.choice(['float32', 'float64']))
            if case['dtype'] == 'uint8' and rs.rand() < 0.5:
                dt = str(rs.choice(['uint16', 'int16']))
        args = dict(indexes=idx) if idx is not None else {}
        if dt:
            args['dtype'] = dt
        if form == 0:
            got = cam.read(path, **args)
        elif form == 1:
            got = cam.read(Path(path), **args)
        elif form == 2:
            got = cam.read(fsspec.open(path, 'rb'), **args)
        else:
            with rio.open(path) as ds:
                got = cam.read(ds, **args)
                mon.check(not ds.closed, 'read() closed a dataset that was passed in open')
        sel = list(range(n)) if idx is None else ([idx - 1] if isinstance(idx, int) else [i - 1 for i in idx])
        mon.check(got.ndim == 3 and got.shape == (len(sel), *arr.shape[1:]), 'shape of the image read', shape=got.shape, idx=idx)
        mon.check(str(got.dtype) == (dt or case['dtype']), 'data type of the image read', got=str(got.dtype), want=dt or case['dtype'])
        if raw:
            mon.count('read_pixels', got.size)
            mon.check(np.array_equal(got, arr[sel].astype(dt or case['dtype'])), 'bands are not read unchanged', idx=idx, dtype=dt, form=int(form))
    if raw:
        # conversion to a smaller data type rounds and clips
        a = np.round(rs.uniform(-400, 70000, (2, *arr.shape[1:]))) + rs.choice([0.3, -0.3, 0.0], (2, *arr.shape[1:]))
        if case['dtype'] in ('float32', 'float64', 'int16'):
            a = np.clip(a, -30000, 32000).round() if case['dtype'] == 'int16' else a
            f = scene.write_tif(mon.tmp / 'wide.tif', a.astype(case['dtype']))
            for dt in ('uint8', 'uint16', 'int16'):
                lim = np.iinfo(dt)
                got = cam.read(f, dtype=dt)
                want = np.clip(np.round(a), lim.min, lim.max)
                mon.check(str(got.dtype) == dt and np.array_equal(got, want.astype(dt)), 'values are not rounded and clipped to the requested data type', src=case['dtype'], dst=dt)
                mon.count('converted_reads')
    return path


def read_texture(cam, pos, size, interp, dtype, mon, rs):
    """The undistorted image is interpolated with the requested method."""
    import cv2

    w, h = size
    t = rs.uniform(40, 200, (2, h, w)).astype(dtype)
    f = scene.write_tif(mon.tmp / 'tex.tif', t)
    got = cam.read(f, interp=interp)
    ok = inside(pos, w, h, 6)
    if ok.sum() < 300:
        return
    wants = {}
    for name, flag in dict(nearest=0, bilinear=1, cubic=2, lanczos=4).items():
        wants[name] = np.stack([cv2.remap(b, pos[0].astype('float32'), pos[1].astype('float32'), flag, borderMode=cv2.BORDER_REFLECT_101)[ok].astype(float) for b in t])
    me = 'bilinear' if interp == 'average' else interp
    apart = min(np.abs(v - wants[me]).mean() for k, v in wants.items() if k != me)
    if apart < 1:
        return  # (almost) no distortion
    err = {k: np.abs(got[:, ok].astype(float) - v).mean() for k, v in wants.items()}
    mon.count('undistort_texture', ok.sum())
    mon.check(err[me] < 0.4 * apart, 'the undistorted image is not interpolated with the requested method', interp=interp, mean_errors=err)


def undistort_expect(cam, p):
    """Source position of every pixel of the undistorted image."""
    w, h = p['im_size']
    K, _ = ref.fit_lin_K(cam, p)
    j, i = np.meshgrid(np.arange(w, dtype=float), np.arange(h, dtype=float))
    x, y = (j - K[2]) / K[0], (i - K[3]) / K[1]
    s = ref.norm_to_pixel(p, *ref.distort(p['model'], p, x.ravel(), y.ravel())).reshape(2, h, w)
    return s, K


def inside(pos, w, h, m):
    return (pos[0] >= m) & (pos[0] <= w - 1 - m) & (pos[1] >= m) & (pos[1] <= h - 1 - m)


def check_coded(got, pos, code, inn, interp, dtype, mon, extra, what, passes=1, **ctx):
    tol = scene.interp_tol(interp, dtype, code, passes) + extra
    dec = scene.decode(got, code)
    for b, (ax, s, o) in enumerate(code):
        e = np.abs(dec[b] - pos[ax])[inn]
        if e.size:
            mon.check(np.all(e <= tol), what, band=b, err=float(np.nanmax(np.nan_to_num(e, nan=9e9))), tol=tol, interp=interp, dtype=dtype, **ctx)


def run_frame(case, mon, rs):
    from orthority.enums import Interp

    p, dtype, interp, distort = case['p'], case['dtype'], case['interp'], case['distort']
    w, h = p['im_size']
    model = p['model']
    cam = gen.make_camera(p, distort=distort, alpha=case['alpha'])
    arr, code = scene.coded((w, h), dtype, case['bands'])
    raw = distort or model == 'pinhole'
    path = check_read(cam, case, mon, rs, arr, raw)
    nodata = NODATA[dtype]
    explicit = rs.rand() < 0.4
    if explicit:
        nodata = {'uint8': 255, 'uint16': 65535, 'int16': -9999, 'float32': -9999.0, 'float64': -5.0}[dtype]
        if dtype == 'uint8':
            arr = np.minimum(arr, 254)
        elif raw and rs.rand() < 0.3 and np.dtype(dtype).kind != 'u':
            nodata = 0
            arr = np.where(arr == 0, 1, arr).astype(dtype)
    ia = interp if rs.rand() < 0.5 else Interp(interp)
    lin_m = dict(nearest=0.6, average=1.1, bilinear=1.1, cubic=2.1, lanczos=4.1)[interp]
    im = arr
    K = None
    if not distort:
        im = cam.read(path, interp=ia, **(dict(nodata=nodata) if explicit else {}))
        if dtype == 'uint8' and explicit:
            arr = None
        pos, K = undistort_expect(cam, p)
        if model == 'pinhole':
            pass
        else:
            inn = inside(pos, w, h, lin_m)
            check_coded(im, pos, code, inn, interp, dtype, mon, 0.01, 'undistorted pixel does not hold the source value at its distorted position', model=model)
            mon.count('undistorted_pixels', inn.sum() * im.shape[0])
            read_texture(cam, pos, (w, h), interp, dtype, mon, rs)
            outer = ~inside(pos, w, h, -1.05)
            mon.count('undistort_nodata', outer.sum())
            mon.check(np.all(eq(im[:, outer], nodata)), 'undistorted pixels outside the source are not nodata', nodata=nodata, dtype=dtype)
            nv = inside(pos, w, h, 0.05)
            mon.check(not np.any(np.all(eq(im, nodata), axis=0) & nv) or (explicit and dtype == 'uint8'), 'valid undistorted pixels are nodata')

    # world grid around the footprint
    alt = p['xyz'][2]
    z0 = alt - 0.7 * abs(alt) if alt > 0 else alt - 100
    b = cam.world_boundary(float(z0))
    W, H = np.ptp(b[0]), np.ptp(b[1])
    n, m = int(rs.randint(30, 60)), int(rs.randint(30, 60))
    x, y = np.meshgrid(np.linspace(b[0].min() - 0.15 * W, b[0].max() + 0.15 * W, n), np.linspace(b[1].max() + 0.15 * H, b[1].min() - 0.15 * H, m))
    z = z0 + 0.03 * abs(alt - z0) * np.sin(x / W * 5) * np.cos(y / H * 4)
    zt = str(rs.choice(['float64', 'float32']))
    z = z.astype(zt)
    nan = rs.rand(m, n) < 0.05
    which = rs.randint(0, 3, (m, n))
    x, y = np.where(nan & (which == 0), np.nan, x), np.where(nan & (which == 1), np.nan, y)
    z = np.where(nan & (which == 2), np.nan, z).astype(zt)
    xyz = np.array([x.ravel(), y.ravel(), z.ravel().astype('float64')])
    nan = np.isnan(xyz).any(axis=0).reshape(m, n)
    safe = np.where(np.isnan(xyz), 0, xyz)
    if distort:
        pos = ref.world_to_pixel(model, p, safe).reshape(2, m, n)
        spos = pos
    else:
        pos = ref.world_to_pixel_lin(p, K, safe).reshape(2, m, n)
        xx, yy = (pos[0] - K[2]) / K[0], (pos[1] - K[3]) / K[1]
        spos = ref.norm_to_pixel(p, *ref.distort(model, p, xx.ravel(), yy.ravel())).reshape(2, m, n)
    front = ref.below(p, safe).reshape(m, n)
    ks = tuple(int(v) for v in rs.choice([1, 3, 5, 7], 2)) if rs.rand() < 0.4 else None
    args = dict(interp=ia)
    if explicit:
        args['nodata'] = nodata
    if ks:
        args['kernel_size'] = ks
    got, mask = cam.remap(im, x, y, z, **args)
    mon.check(got.shape == (im.shape[0], m, n) and mask.shape == (m, n), 'shape of the remapped image', got=got.shape)
    mon.check(got.dtype == im.dtype and mask.dtype == bool, 'data type of the remapped image')
    dil = not distort and interp != 'nearest' and nodata == nodata and model != 'pinhole'
    k = (ks or (3, 3)) if dil else (1, 1)
    mg = lin_m if distort else 2 * lin_m + 1
    iin = inside(pos, w, h, lin_m) & inside(spos, w, h, mg) & ~nan & front
    # folded distortion outside the field of view is not part of the property
    outp = ~inside(pos, w, h, -1.05) | nan
    if not distort:
        outp |= ~inside(spos, w, h, -2.05 - 2 * lin_m)
    if distort and model != 'pinhole':
        # points beyond the field of view may fold back into the image for a polynomial model
        xn, yn = ref.world_to_norm(p, safe)
        r = np.hypot(xn, yn).reshape(m, n)
        bx, by = ref.undistort(model, p, *ref.pixel_to_norm(p, ref.border(w, h, 9)))
        outp &= (r < 1.3 * np.hypot(bx, by).max()) | nan
    border = ~(iin | outp)
    # erode valid by the dilation kernel
    valid = erode(iin, k)
    check_coded(got, spos, code, valid, interp, dtype, mon, (0.15 if not distort else 0.01) + (0.55 if interp == 'nearest' and not distort else 0), 'remapped pixel is not the source value at its projected position', passes=1 if distort else 2, model=model, distort=distort)
    mon.count('remapped_pixels', valid.sum() * got.shape[0])
    if not (explicit and dtype == 'uint8'):
        mon.check(not mask[valid].any(), 'valid remapped pixels are masked', n=int(mask[valid].sum()), distort=distort, interp=interp, k=k)
    mon.check(mask[outp].all(), 'pixels that project outside the image (or have NaN coordinates) are not masked', n=int((~mask[outp]).sum()), nan=int((~mask[nan]).sum()))
    dl = ~erode(~outp, k)
    # (interpolated floating point nodata can be off by a rounding error)
    mon.check(mask[dl].all() or np.dtype(dtype).kind == 'f', 'mask is not dilated by the kernel', k=k, n=int((~mask[dl]).sum()))
    mon.check(np.all(eq(got[:, mask], nodata)), 'masked pixels are not nodata', nodata=nodata)
    mon.check(np.all(np.all(eq(got, nodata), axis=0) == mask), 'mask is not where all bands are nodata')
    mon.count('masked_pixels', mask.sum())
    mon.count('nan_pixels', nan.sum())
    if raw:
        partial(cam, (w, h), x, y, z, pos, inside(pos, w, h, 0.6) & ~nan & front, dtype, mon, rs)
    if distort:
        texture(cam, (w, h), x, y, z, pos, inside(pos, w, h, 0.1) & ~nan & front, interp, dtype, mon, rs)
    mon.state(model, distort, dtype, interp, explicit, zt)


def partial(cam, size, x, y, z, pos, ok, dtype, mon, rs):
    """Mask of an image with bands that hold the nodata value in different places."""
    w, h = size
    nodata = NODATA[dtype]
    t = rs.uniform(60, 180, (3, h, w)).astype(dtype)
    i, j = np.mgrid[:h, :w]
    for b in range(3):
        t[b][(((j * 6 // w + i * 5 // h) % 7) & (1 << b)) > 0] = nodata
    got, mask = cam.remap(t, x, y, z, interp='nearest')
    frac = np.abs(pos - np.round(pos)).max(axis=0)
    ok = ok & (frac < 0.45)
    jj, ii = np.clip(np.round(pos[0]), 0, w - 1).astype(int), np.clip(np.round(pos[1]), 0, h - 1).astype(int)
    want = t[:, ii, jj]
    mon.check(np.all((got == want) | ((got != got) & (want != want)) | ~ok), 'remapped value is not the nearest source value')
    wm = eq(want, nodata).all(axis=0)
    mon.check(np.all((mask == wm) | ~ok), 'mask is not where all bands are nodata', n=int(((mask != wm) & ok).sum()))
    mon.count('partial_nodata', (eq(want, nodata).any(axis=0) & ~wm & ok).sum())


def erode(a, k):
    kw, kh = k
    q = np.pad(a, ((kh // 2, kh // 2), (kw // 2, kw // 2)), constant_values=True)
    out = np.ones_like(a)
    for r in range(kh):
        for c in range(kw):
            out &= q[r : r + a.shape[0], c : c + a.shape[1]]
    return out


def texture(cam, size, x, y, z, pos, ok, interp, dtype, mon, rs):
    """Interpolation method: compare with cv2.remap() at the reference coordinates."""
    import cv2

    w, h = size
    t = rs.uniform(60, 180, (2, h, w))
    t = (t + np.roll(t, 1, 2)) / 2
    t = t.astype(dtype)
    flag = dict(nearest=cv2.INTER_NEAREST, average=cv2.INTER_AREA, bilinear=cv2.INTER_LINEAR, cubic=cv2.INTER_CUBIC, lanczos=cv2.INTER_LANCZOS4)[interp]
    got, mask = cam.remap(t, x, y, z, interp=interp)
    if not ok.any():
        return
    for b in range(2):
        want = cv2.remap(t[b], pos[0].astype('float32'), pos[1].astype('float32'), flag, borderMode=cv2.BORDER_REFLECT_101)
        e = np.abs(got[b].astype(float) - want.astype(float))[ok]
        mon.count('texture_pixels', e.size)
        lim = 0.25 if interp != 'nearest' else 0.1
        mon.check(np.mean(e > lim + (1 if np.dtype(dtype).kind in 'iu' else 0)) < 0.03, 'remapped values are not interpolated with the requested method', interp=interp, frac=float(np.mean(e > lim)), worst=e.max())
        if interp != 'nearest':
            mon.check(e.max() < 16, 'remapped value is far from the interpolated source value', worst=e.max(), interp=interp)


def run_rpc(case, mon, rs):
    from orthority.camera import RpcCamera

    rp, dtype, interp = case['rp'], case['dtype'], case['interp']
    r = rp['rpc']
    w, h = rp['im_size']
    crs = gen.utm_epsg(r['long_off'], r['lat_off']) if case['crs'] else None
    cam = RpcCamera((w, h), r, crs=crs)
    arr, code = scene.coded((w, h), dtype, case['bands'])
    check_read(cam, case, mon, rs, arr, True)
    z0 = r['height_off']
    b = cam.world_boundary(z0)
    W, H = np.ptp(b[0]), np.ptp(b[1])
    n, m = 37, 41
    x, y = np.meshgrid(np.linspace(b[0].min() - 0.1 * W, b[0].max() + 0.1 * W, n), np.linspace(b[1].max() + 0.1 * H, b[1].min() - 0.1 * H, m))
    z = z0 + 0.2 * r['height_scale'] * np.sin((x - x.min()) / W * 5)
    z[rs.rand(m, n) < 0.05] = np.nan
    x[rs.rand(m, n) < 0.02] = np.nan
    xyz = np.array([x.ravel(), y.ravel(), z.ravel()])
    nan = np.isnan(xyz).any(axis=0)
    pos = np.full((2, m * n), -99.0)
    g = gen.rpc_to_lonlat(crs, xyz[:, ~nan])
    pos[:, ~nan] = ref.rpc_project(r, *g)
    pos, nan = pos.reshape(2, m, n), nan.reshape(m, n)
    nodata = NODATA[dtype]
    got, mask = cam.remap(arr, x, y, z, interp=interp)
    lin_m = dict(nearest=0.6, average=1.1, bilinear=1.1, cubic=2.1, lanczos=4.1)[interp]
    valid = inside(pos, w, h, lin_m)
    outp = ~inside(pos, w, h, -1.05) | nan
    check_coded(got, pos, code, valid, interp, dtype, mon, 0.01, 'remapped pixel is not the source value at its projected position', model='rpc')
    mon.count('remapped_pixels', valid.sum() * got.shape[0])
    mon.check(not mask[inside(pos, w, h, 0.05)].any(), 'valid remapped pixels are masked')
    mon.check(mask[outp].all(), 'pixels that project outside the image (or have NaN coordinates) are not masked')
    mon.check(np.all(eq(got[:, mask], nodata)), 'masked pixels are not nodata')
    mon.count('masked_pixels', mask.sum())
    mon.count('nan_pixels', nan.sum())
    texture(cam, (w, h), x, y, z, pos, inside(pos, w, h, 0.1) & ~nan, interp, dtype, mon, rs)
    partial(cam, (w, h), x, y, z, pos, inside(pos, w, h, 0.6) & ~nan, dtype, mon, rs)
    mon.state('rpc', dtype, interp)


def run(case, mon):
    rs = np.random.RandomState(case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, mon, rs)
