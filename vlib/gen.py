"""Random generation of JSON-able camera parameters and scenes."""
from __future__ import annotations

import math

import numpy as np

from vlib import ref


def r6(v):
    return float(f'{v:.6g}')


def frame_param(rng, model=None, size=None, oblique=0.3, scale=1.0, origin=None, alt=None):
    """A frame camera whose image lies wholly below the horizon.  ``model`` is stored as 'model'."""
    model = model or rng.choice(ref.MODELS)
    if size is None:
        w, h = rng.choice(
            [(60, 40), (40, 60), (101, 77), (77, 101), (200, 150), (64, 64), (33, 90), (300, 220), (151, 50)]
        )
    else:
        w, h = size
    p = dict(model=model, im_size=[w, h])
    fnorm = rng.uniform(0.75, 2.2)
    kind = rng.choice(['none', 'none2', 'mm', 'mm', 'mm2', 'nonsq', 'px'])
    m = max(w, h)
    if kind == 'none':
        p['focal_len'] = r6(fnorm)
    elif kind == 'none2':
        p['focal_len'] = [r6(fnorm), r6(fnorm * rng.uniform(0.95, 1.05))]
    elif kind == 'mm':
        mm = rng.uniform(5, 36)
        p['focal_len'] = r6(fnorm * mm)
        p['sensor_size'] = [r6(mm * w / m), r6(mm * h / m)]
    elif kind == 'mm2':
        mm = rng.uniform(5, 36)
        p['focal_len'] = [r6(fnorm * mm), r6(fnorm * mm * rng.uniform(0.93, 1.07))]
        p['sensor_size'] = [r6(mm * w / m), r6(mm * h / m)]
    elif kind == 'nonsq':
        mm = rng.uniform(5, 36)
        p['focal_len'] = r6(fnorm * mm)
        p['sensor_size'] = [r6(mm * w / m * rng.uniform(0.85, 1.15)), r6(mm * h / m)]
    else:
        p['focal_len'] = [r6(fnorm * m), r6(fnorm * m)]
        p['sensor_size'] = [float(w), float(h)]
    if rng.random() < 0.7:
        p['cx'], p['cy'] = r6(rng.uniform(-0.04, 0.04)), r6(rng.uniform(-0.04, 0.04))
    dist_param(rng, p)
    # position and orientation
    x0, y0 = origin or rng.choice([(0.0, 0.0), (5e5, 4e6), (2.3e5, 6.2e6), (-5e4, -3.7e6)])
    alt = alt if alt is not None else rng.choice([120.0, 500.0, 2500.0]) * rng.uniform(0.8, 1.2)
    p['xyz'] = [x0 + r6(rng.uniform(-50, 50)), y0 + r6(rng.uniform(-50, 50)), r6(alt)]
    for _ in range(50):
        o, f = rng.uniform(-oblique, oblique), rng.uniform(-oblique, oblique)
        k = rng.choice([0.0, rng.uniform(-math.pi, math.pi), math.pi / 2, -math.pi])
        if rng.random() < 0.15:
            o, f = 0.0, 0.0
        p['opk'] = [r6(o), r6(f), r6(k)]
        if max_nadir_angle(p) < math.radians(68):
            return p
    p['opk'] = [0.01, -0.02, r6(k)]
    return p


DIST_KEYS = 'k1 k2 k3 k4 k5 k6 p1 p2 s1 s2 s3 s4 tx ty'.split()


def dist_param(rng, p):
    """Add moderate distortion coefficients for which the model is invertible over the image."""
    model = p['model']
    u = lambda a: r6(rng.uniform(-a, a))
    fx, fy = ref.focal_px(p)
    w, h = p['im_size']
    r = math.hypot(w / 2 / fx, h / 2 / fy)  # corner radius
    r = max(r, 0.2)
    a = 0.035 / r**2
    if model == 'brown':
        p.update(k1=u(a), k2=u(a / 3), p1=u(0.002), p2=u(0.002), k3=u(a / 10))
        if rng.random() < 0.3:
            p.pop('k3')
    elif model == 'opencv':
        p.update(k1=u(a), k2=u(a / 3), p1=u(0.002), p2=u(0.002), k3=u(a / 10))
        n = rng.choice([4, 5, 8, 12, 14])
        if n < 5:
            p.pop('k3')
        if n >= 8:
            p.update(k4=u(a / 2), k5=u(a / 5), k6=u(a / 10))
        if n >= 12:
            p.update(s1=u(0.002), s2=u(0.001), s3=u(0.002), s4=u(0.001))
        if n >= 14:
            p.update(tx=u(0.01), ty=u(0.01))
    elif model == 'fisheye':
        p.update(k1=u(0.04), k2=u(0.02))
        if rng.random() < 0.5:
            p.update(k3=u(0.008), k4=u(0.004))
    # any subset of the coefficients may be zero or absent
    if rng.random() < 0.35:
        for k in [k for k in p if k in DIST_KEYS]:
            if rng.random() < 0.5:
                if rng.random() < 0.5:
                    p.pop(k)
                else:
                    p[k] = 0.0


def max_nadir_angle(p):
    """Largest angle between an (undistorted) image boundary ray and nadir."""
    w, h = p['im_size']
    j = np.array([0, w - 1, w - 1, 0, (w - 1) / 2, w - 1, (w - 1) / 2, 0.0])
    i = np.array([0, 0, h - 1, h - 1, 0, (h - 1) / 2, h - 1, (h - 1) / 2.0])
    g = 1.15
    cx, cy = (w - 1) / 2, (h - 1) / 2
    v = ref.pinhole_ray(p, np.array([cx + (j - cx) * g, cy + (i - cy) * g]))
    v = v / np.linalg.norm(v, axis=0)
    return float(np.arccos(np.clip(-v[2], -1, 1)).max())


INT_KEYS = (
    'im_size focal_len sensor_size cx cy k1 k2 k3 k4 k5 k6 p1 p2 s1 s2 s3 s4 tx ty'
).split()


def int_kwargs(p):
    d = {k: p[k] for k in INT_KEYS if k in p}
    for k in ('im_size', 'sensor_size', 'focal_len'):
        if isinstance(d.get(k), list):
            d[k] = tuple(d[k])
    return d


def make_camera(p, **kwargs):
    """The real camera object for generated parameters."""
    import warnings

    from orthority.camera import create_camera

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return create_camera(
            p['model'], **int_kwargs(p), xyz=tuple(p['xyz']), opk=tuple(p['opk']), **kwargs
        )


# ------------------------------------------------------------------------------------------- RPC
RPC_CRS = [None, 'EPSG:4326', 'EPSG:4979', 'EPSG:3857', 'utm', '+proj=utm {zone} +datum=WGS84 +units=m +no_defs']


def utm_epsg(lon, lat):
    zone = int((lon + 180) // 6) + 1
    return f'EPSG:{(32600 if lat >= 0 else 32700) + zone}'


def rpc_param(rng, size=None, gsd=None, loc=None, scene=False):
    """A synthetic RPC model (dictionary as for ``RpcCamera(rpc=...)``) with mild nonlinear terms."""
    w, h = size or rng.choice([(80, 60), (60, 80), (200, 120), (150, 150)])
    lon, lat = loc or rng.choice([(24.5, -33.6), (-70.2, 18.3), (8.1, 47.2), (150.4, -34.1), (-3.2, 55.9)])
    lon, lat = r6(lon + rng.uniform(-0.3, 0.3)), r6(lat + rng.uniform(-0.3, 0.3))
    gsd = gsd or rng.choice([2.0, 10.0, 30.0])
    hoff, hscale = r6(rng.uniform(-20, 900)), r6(rng.uniform(300, 600))
    ls, ss = h / 2 * rng.uniform(0.95, 1.2), w / 2 * rng.uniform(0.95, 1.2)
    u = lambda a: r6(rng.uniform(-a, a))
    par = rng.uniform(0.0, 0.6) * hscale / gsd  # parallax over height_scale in pixels
    if scene:
        # normalised coordinates span a full satellite scene, so that the model extrapolates to any
        # terrain height as real ones do
        grow = max(1.0, par * 20 / 1.5 / min(ls, ss))
        ls, ss = ls * grow, ss * grow
    lats = ls * gsd / 111000.0
    lons = ss * gsd / (111000.0 * math.cos(math.radians(lat)))

    def coeff(main, other, npix):
        num = [0.0] * 20
        num[0] = u(0.01)
        num[main[0]] = r6(main[1] * rng.uniform(0.97, 1.0))
        num[other] = u(0.08)
        num[3] = r6(rng.choice([-1, 1]) * par / npix * rng.uniform(0.3, 1.0))
        a = 3e-3
        # power of H in each term: kept small so that the model is well behaved at any terrain height
        hp = [0, 0, 0, 1, 0, 1, 1, 0, 0, 2, 1, 0, 0, 2, 0, 0, 2, 1, 1, 3]
        s = [a] * 10 + [a / 10] * 10
        for k in range(4, 20):
            num[k] = r6(u(s[k]) / 25.0 ** hp[k])
        den = [1.0] + [r6(u(s[k] / (1 if k < 4 else 5)) / 25.0 ** hp[k]) for k in range(1, 20)]
        return num, den

    ln, ld = coeff((2, -1.0), 1, ls)
    sn, sd = coeff((1, 1.0), 2, ss)
    return dict(
        im_size=[w, h],
        rpc=dict(
            height_off=hoff, height_scale=hscale, lat_off=lat, lat_scale=lats,
            line_den_coeff=ld, line_num_coeff=ln, line_off=r6((h - 1) / 2 + rng.uniform(-2, 2)), line_scale=ls,
            long_off=lon, long_scale=lons,
            samp_den_coeff=sd, samp_num_coeff=sn, samp_off=r6((w - 1) / 2 + rng.uniform(-2, 2)), samp_scale=ss,
            err_bias=None, err_rand=None,
        ),
        gsd=gsd,
    )  # fmt: skip


def rpc_crs(rng, rp):
    r = rp['rpc']
    c = rng.choice(RPC_CRS)
    if c == 'utm':
        return utm_epsg(r['long_off'], r['lat_off'])
    if c and '{zone}' in c:
        e = utm_epsg(r['long_off'], r['lat_off'])
        z = f'+zone={int(e[-2:])}' + (' +south' if e[5:8] == '327' else '')
        return c.format(zone=z)
    return c


def rpc_to_lonlat(crs, xyz):
    """World coordinates in ``crs`` (or lon, lat when None) to lon, lat, height."""
    from rasterio.crs import CRS
    from rasterio.warp import transform

    if crs is None:
        return np.array(xyz, dtype=float)
    return np.array(transform(CRS.from_string(crs), CRS.from_epsg(4979), *[list(v) for v in xyz]))


def lonlat_to_crs(crs, lon, lat, z):
    from rasterio.crs import CRS
    from rasterio.warp import transform

    if crs is None:
        return np.array([lon, lat, z], dtype=float)
    out = np.array(transform(CRS.from_epsg(4979), CRS.from_string(crs), list(lon), list(lat), list(z)))
    return out
