"""Images, DEMs and scenes with a known answer."""
from __future__ import annotations

import math
import warnings

import numpy as np

from vlib import gen, ref

CRS_OF = {(0.0, 0.0): 'EPSG:32735'}


def write_tif(path, arr, crs=None, transform=None, nodata=None, **kw):
    """Write a 3D (or 2D) array."""
    import rasterio as rio

    arr = np.asarray(arr)
    if arr.ndim == 2:
        arr = arr[None]
    mask = kw.pop('mask', None)
    desc = kw.pop('colorinterp', None)
    prof = dict(driver='GTiff', width=arr.shape[2], height=arr.shape[1], count=arr.shape[0], dtype=str(arr.dtype))
    prof.update(crs=crs, nodata=nodata, **kw)
    if transform is not None:
        prof['transform'] = transform
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.Env(GDAL_TIFF_INTERNAL_MASK=True), rio.open(str(path), 'w', **prof) as im:
            if desc:
                im.colorinterp = desc
            im.write(arr)
            if mask is not None:
                im.write_mask(mask)
    return str(path)


def band_code(dtype, n, size):
    """[(axis, scale, offset)] per band: value = offset + scale * coordinate.  Never zero."""
    m = max(size)
    out = []
    for b in range(n):
        ax = b % 2
        if dtype == 'uint8':
            s = int(230 // m) or 230 / m
            o = 4 + 2 * (b // 2)
            if b % 4 >= 2:
                s, o = -s, 250 - 2 * (b // 2)
        elif dtype == 'uint16':
            s, o = min(200, 55000 // m), 1000 + 700 * b
        elif dtype == 'int16':
            s, o = min(100, 45000 // m), -24000 + 900 * b
        else:
            s, o = (1.0 if b % 4 < 2 else -1.0), 50.0 + 1000.0 * b
        out.append((ax, s, o))
    return out


def coded(size, dtype, n):
    """Image whose pixel values encode their column / row."""
    w, h = size
    j, i = np.meshgrid(np.arange(w), np.arange(h))
    code = band_code(dtype, n, size)
    arr = np.stack([o + s * (j, i)[ax] for ax, s, o in code])
    arr = (np.round(arr) if np.dtype(dtype).kind in 'iu' else arr).astype(dtype)
    return arr, code


def decode(arr, code):
    """Column or row coordinates encoded by pixel values of each band."""
    return np.stack([(a.astype('float64') - o) / s for a, (ax, s, o) in zip(arr, code)])


def interp_tol(interp, dtype, code, passes=1):
    """Tolerance (pixels) of a value interpolated from a coded image: kernel error on a ramp, 1/32
    pixel coordinate quantisation of cv2.remap(), and rounding of integer data types."""
    base = dict(nearest=0.55, average=0.06, bilinear=0.06, cubic=0.11, lanczos=0.11)[interp]
    rnd = max(0.5 / abs(s) for _, s, _ in code) if np.dtype(dtype).kind in 'iu' else 0.0
    if rnd > 0.5:  # fractional scale: the source itself is rounded
        rnd *= 2
    if passes > 1 and interp in ('cubic', 'lanczos'):
        passes += 1  # negative kernel weights amplify the rounding of the first pass
    return base + passes * rnd


# -------------------------------------------------------------------------------- ortho scenes
ZONE = 35
UTM = 'EPSG:32735'


def ortho_spec(rng, kind=None, model=None, size=None, dtype=None, bands=None, slope=0.12, oblique=0.25, distort=None, **kw):
    """A JSON-able scene: camera over an inclined plane with a DEM of it, in UTM 35S."""
    kind = kind or ('rpc' if rng.random() < 0.15 else 'frame')
    size = size or rng.choice([(60, 40), (40, 60), (101, 77), (120, 160), (160, 120), (90, 90)])
    s = dict(kind=kind)
    r6 = gen.r6
    if kind == 'rpc':
        s['rp'] = gen.rpc_param(rng, size=size, loc=(27.0 + rng.uniform(-1.5, 1.5), -33.5), gsd=rng.choice([1.0, 5.0, 20.0]), scene=True)
        s['z0'] = r6(s['rp']['rpc']['height_off'] + rng.uniform(-20, 20))
        gsd = s['rp']['gsd']
    else:
        org = (r6(rng.uniform(3e5, 7e5)), r6(rng.uniform(6.15e6, 6.4e6)))
        s['z0'] = r6(rng.choice([0.0, 35.0, 300.0, 1400.0]) + rng.uniform(-20, 20))
        agl = rng.choice([90.0, 300.0, 1500.0]) * rng.uniform(0.8, 1.2)
        s['p'] = gen.frame_param(rng, model=model, size=size, oblique=oblique, origin=org, alt=s['z0'] + agl)
        s['distort'] = (rng.random() < 0.65) if distort is None else distort
        s['alpha'] = rng.choice([1.0, 1.0, 0.5, 0.0])
        gsd = agl / min(ref.focal_px(s['p']))
    s['sx'], s['sy'] = (r6(rng.uniform(-slope, slope)), r6(rng.uniform(-slope, slope))) if rng.random() < 0.85 else (0.0, 0.0)
    s['dem_res'] = [r6(gsd * rng.uniform(1.2, 7.0))] * 2
    if rng.random() < 0.3:
        s['dem_res'][1] = r6(s['dem_res'][0] * rng.uniform(0.7, 1.4))
    s['gsd'] = gsd
    s['dtype'] = dtype or rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
    s['bands'] = bands or rng.choice([1, 2, 3, 4])
    s['dem_seed'] = rng.randrange(1 << 30)
    s.update(kw)
    return s


class Scene:
    """The files, camera and reference geometry of an :func:`ortho_spec`."""

    def __init__(self, spec, tmp):
        self.s = spec
        self.tmp = tmp
        self.kind = spec['kind']
        self.size = tuple((spec['rp'] if self.kind == 'rpc' else spec['p'])['im_size'])
        self.crs = spec.get('crs', UTM)
        self.K = None
        cam = self.camera()
        b = cam.world_boundary(float(spec['z0']))
        self.foot0 = b
        self.xc, self.yc = float(np.mean(b[0])), float(np.mean(b[1]))
        # footprint on the plane, found by fixed point iteration on the height of border rays
        self.foot = self.plane_footprint(ref.border(*self.size, 40))

    # -- geometry
    def camera(self, **kw):
        if self.kind == 'rpc':
            from orthority.camera import RpcCamera

            return RpcCamera(self.size, self.s['rp']['rpc'], crs=self.crs, **kw)
        kw = dict(dict(distort=self.s['distort'], alpha=self.s['alpha']), **kw)
        cam = gen.make_camera(self.s['p'], **kw)
        if not kw['distort']:
            self.K, _ = ref.fit_lin_K(cam, self.s['p'])
        return cam

    def z(self, x, y):
        return self.s['z0'] + self.s['sx'] * (np.asarray(x) - self.xc) + self.s['sy'] * (np.asarray(y) - self.yc)

    def ray(self, ji, z):
        """World points of source pixels at heights ``z`` (reference)."""
        if self.kind == 'rpc':
            return rpc_ray(self.s['rp']['rpc'], self.crs, ji, z)
        p = self.s['p']
        x, y = ref.undistort(p['model'], p, *ref.pixel_to_norm(p, ji))
        return ref.norm_to_world(p, x, y, z)

    def plane_footprint(self, ji):
        z = np.full(ji.shape[1], float(self.s['z0']))
        if self.kind == 'frame':
            # exact: rays and plane are linear
            a, b = self.ray(ji, z), self.ray(ji, z - 10.0)
            da, db = z - self.z(a[0], a[1]), z - 10.0 - self.z(b[0], b[1])
            return self.ray(ji, z - 10.0 * da / (da - db))
        for _ in range(60):
            w = self.ray(ji, z)
            zn = self.z(w[0], w[1])
            if np.abs(zn - z).max() < 1e-9:
                break
            z = zn
        return self.ray(ji, z)

    def project(self, x, y, z):
        """Source pixel positions of world points."""
        xyz = np.array([np.ravel(x), np.ravel(y), np.ravel(z)], dtype='float64')
        if self.kind == 'rpc':
            out = ref.rpc_project(self.s['rp']['rpc'], *gen.rpc_to_lonlat(self.crs, xyz))
        else:
            out = ref.world_to_pixel(self.s['p']['model'], self.s['p'], xyz)
        return out.reshape(2, *np.shape(x))

    def project_lin(self, x, y, z):
        """Pixel positions in the undistorted image."""
        xyz = np.array([np.ravel(x), np.ravel(y), np.ravel(z)], dtype='float64')
        return ref.world_to_pixel_lin(self.s['p'], self.K, xyz).reshape(2, *np.shape(x))

    # -- files
    def write_src(self, name='src.tif', arr=None, **kw):
        code = None
        if arr is None:
            arr, code = coded(self.size, self.s['dtype'], self.s['bands'])
        self.arr, self.code = arr, code
        return write_tif(self.tmp / name, arr, **kw)

    def dem_grid(self, bounds=None, margin=4.0, res=None):
        """DEM transform and shape that cover the footprint (or ``bounds``)."""
        import rasterio as rio

        rx, ry = res or self.s['dem_res']
        if bounds is None:
            f = np.hstack([self.foot, self.foot0])
            bounds = [f[0].min() - margin * rx, f[1].min() - margin * ry, f[0].max() + margin * rx, f[1].max() + margin * ry]
        rs = np.random.RandomState(self.s['dem_seed'])
        l, t = bounds[0] - rs.rand() * rx, bounds[3] + rs.rand() * ry
        nx, ny = int(math.ceil((bounds[2] - l) / rx)) + 1, int(math.ceil((t - bounds[1]) / ry)) + 1
        tr = rio.Affine(rx, 0, l, 0, -ry, t)
        return tr, (ny, nx)

    def dem_array(self, tr, shape, z=None):
        j, i = np.meshgrid(np.arange(shape[1]) + 0.5, np.arange(shape[0]) + 0.5)
        x, y = tr * (j, i)
        return (z or self.z)(x, y)

    def write_dem(self, name='dem.tif', dtype='float32', **kw):
        tr, shape = self.dem_grid()
        self.dem_transform, self.dem_shape = tr, shape
        return write_tif(self.tmp / name, self.dem_array(tr, shape).astype(dtype), crs=self.crs, transform=tr, **kw)


def rpc_ray(r, crs, ji, z):
    """Newton inverse of the reference RPC."""
    z = np.asarray(z, float)
    n = max(ji.shape[1], z.size)
    j, i = np.broadcast_to(ji[0], (n,)), np.broadcast_to(ji[1], (n,))
    lon, lat = np.full(n, r['long_off']), np.full(n, r['lat_off'])
    zz = np.broadcast_to(z, (n,))
    dl, dp = r['long_scale'] * 1e-5, r['lat_scale'] * 1e-5
    for _ in range(12):
        f = ref.rpc_project(r, lon, lat, zz)
        a = (ref.rpc_project(r, lon + dl, lat, zz) - f) / dl
        b = (ref.rpc_project(r, lon, lat + dp, zz) - f) / dp
        e0, e1 = f[0] - j, f[1] - i
        det = a[0] * b[1] - b[0] * a[1]
        lon = lon - (b[1] * e0 - b[0] * e1) / det
        lat = lat - (a[0] * e1 - a[1] * e0) / det
    return gen.lonlat_to_crs(crs, lon, lat, zz)


def read_ortho(path):
    """(array, valid mask, x, y, profile) of an image file."""
    import rasterio as rio

    with rio.open(str(path)) as im:
        arr = im.read()
        m = im.dataset_mask().astype(bool)
        # NaN nodata: dataset_mask covers any band
        j, i = np.meshgrid(np.arange(im.width) + 0.5, np.arange(im.height) + 0.5)
        x, y = im.transform * (j, i)
        return arr, m, x, y, dict(im.profile, tags=im.tags())


def inside(pos, size, m):
    w, h = size
    return (pos[0] >= m) & (pos[0] <= w - 1 - m) & (pos[1] >= m) & (pos[1] <= h - 1 - m)


LIN_M = dict(nearest=0.6, average=1.1, bilinear=1.1, cubic=2.1, lanczos=4.1)


def check_ortho_geometry(sc, arr, valid, x, y, interp, dtype, mon, dz=None, near_dz=None, z=None, what='', extra=0.0):
    """Every valid ortho pixel holds the source value at its projected position.

    ``dz``: height uncertainty everywhere; ``near_dz``: within the DEM interpolation kernel of the
    ortho border.
    """
    if not valid.any():
        return 0
    s = sc.s
    zz = (z or sc.z)(x, y)
    pos = sc.project(x, y, zz)
    tolz = np.zeros(x.shape) + (dz or 0.0)
    if near_dz:
        rx, ry = s['dem_res']
        near = (x - x.min() < 3.6 * rx) | (x.max() - x < 3.6 * rx) | (y - y.min() < 3.6 * ry) | (y.max() - y < 3.6 * ry)
        tolz[near] += near_dz
    sens = np.zeros(x.shape)
    if tolz.any():
        sens = np.abs(sc.project(x, y, zz + tolz) - pos).max(axis=0)
    undist = sc.kind == 'frame' and not s['distort'] and s['p']['model'] != 'pinhole'
    lm = LIN_M[interp]
    cls_in = inside(pos, sc.size, lm + (lm + 1 if undist else 0)) & valid
    if undist:
        lin = sc.project_lin(x, y, zz)
        cls_in &= inside(lin, sc.size, lm)
        if np.dtype(dtype).kind in 'iu':
            # values blended with nodata can round to nodata in some of the bands near the border
            # of the undistorted image: bands processed one by one are then masked differently
            nd = -32768 if dtype == 'int16' else 0
            some = (arr == nd).any(axis=0)
            far = inside(pos, sc.size, lm + 9) & inside(lin, sc.size, lm + 9)
            cls_in &= ~some | far
            valid = valid & (~some | far)
    out = valid & ~inside(pos, sc.size, -1.05 - (3.1 * lm if undist else 0))
    out &= ~inside(pos, sc.size, -1.05 - sens.max() - (3.1 * lm if undist else 0))
    mon.check(not out.any(), f'{what}valid ortho pixels project outside the source image', n=int(out.sum()), at=pos[:, out][:, :2])
    tol = interp_tol(interp, dtype, sc.code, 2 if undist else 1) + (0.2 if undist else 0.01) + (0.55 if undist and interp == 'nearest' else 0) + extra
    dec = decode(arr, sc.code)
    for b, (ax, sc_, o) in enumerate(sc.code):
        e = np.abs(dec[b] - pos[ax])
        bad = (e > tol + sens) & cls_in
        if np.dtype(dtype).kind == 'f':
            bad |= np.isnan(dec[b]) & cls_in
        k = np.unravel_index(np.argmax(np.where(cls_in, np.nan_to_num(e - sens, nan=1e9), -1)), e.shape)
        mon.check(not bad.any(), f'{what}ortho pixel does not show the source at its projected ground position', band=b, err=e[k], tol=tol + sens[k], at=[int(v) for v in k[::-1]], n=int(bad.sum()), of=int(cls_in.sum()), interp=interp, dtype=dtype)
        # looser along the image border (kernel cut off)
        bz = valid & ~cls_in
        bad = bz & (np.nan_to_num(e, nan=1e9) > tol + sens + (2.0 if not undist else 60.0))
        mon.check(not bad.any(), f'{what}ortho pixel at the image border is far from the source at its projected position', band=b, n=int(bad.sum()), err=float(e[bad].max()) if bad.any() else 0)
    return int(cls_in.sum()) * len(sc.code)
