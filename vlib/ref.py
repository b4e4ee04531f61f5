"""Reference models, written from the published camera model equations rather than from the code.

- Collinearity equations with the textbook (omega, phi, kappa) elements (PATB / Pix4D convention).
- OpenCV general, Brown-Conrady, OpenSfM / OpenCV fisheye distortion.
- RPC00B rational polynomials (http://geotiff.maptools.org/rpc_prop.html).
"""
from __future__ import annotations

import math

import numpy as np

MODELS = ('pinhole', 'brown', 'opencv', 'fisheye')


def collinearity_matrix(opk):
    """World to image rotation elements (Wolf & Dewitt), image x->right, y->up, z->backwards."""
    o, p, k = (float(a) for a in opk)
    so, co, sp, cp, sk, ck = math.sin(o), math.cos(o), math.sin(p), math.cos(p), math.sin(k), math.cos(k)
    return np.array(
        [
            [cp * ck, so * sp * ck + co * sk, -co * sp * ck + so * sk],
            [-cp * sk, -so * sp * sk + co * ck, co * sp * sk + so * ck],
            [sp, -so * cp, co * cp],
        ]
    )


def focal_px(p):
    """Focal lengths in pixels (fx, fy)."""
    w, h = p['im_size']
    f = p['focal_len']
    fx, fy = (f, f) if np.isscalar(f) else ((f[0], f[1]) if len(f) == 2 else (f[0], f[0]))
    ss = p.get('sensor_size')
    if ss is None:
        m = max(w, h)
        return fx * m, fy * m
    return fx * w / ss[0], fy * h / ss[1]


def principal_px(p):
    w, h = p['im_size']
    m = max(w, h)
    return (w - 1) / 2 + m * p.get('cx', 0.0), (h - 1) / 2 + m * p.get('cy', 0.0)


def world_to_norm(p, xyz):
    """Normalised image coordinates, x->right, y->down, at unit distance along the view axis."""
    M = collinearity_matrix(p['opk'])
    d = np.asarray(xyz, dtype='float64') - np.array(p['xyz'], dtype='float64').reshape(3, 1)
    q = M @ d
    return -q[0] / q[2], q[1] / q[2]


def distort(model, p, x, y):
    g = lambda n: float(p.get(n, 0.0))
    if model == 'pinhole':
        return x, y
    r2 = x * x + y * y
    if model in ('brown', 'opencv'):
        num = 1 + g('k1') * r2 + g('k2') * r2**2 + g('k3') * r2**3
        den = 1.0
        if model == 'opencv':
            den = 1 + g('k4') * r2 + g('k5') * r2**2 + g('k6') * r2**3
        xd = x * num / den + 2 * g('p1') * x * y + g('p2') * (r2 + 2 * x * x)
        yd = y * num / den + g('p1') * (r2 + 2 * y * y) + 2 * g('p2') * x * y
        if model == 'opencv':
            xd = xd + g('s1') * r2 + g('s2') * r2**2
            yd = yd + g('s3') * r2 + g('s4') * r2**2
            tx, ty = g('tx'), g('ty')
            if tx or ty:
                rx = np.array(
                    [
                        [1, 0, 0],
                        [0, math.cos(tx), math.sin(tx)],
                        [0, -math.sin(tx), math.cos(tx)],
                    ]
                )
                ry = np.array(
                    [
                        [math.cos(ty), 0, -math.sin(ty)],
                        [0, 1, 0],
                        [math.sin(ty), 0, math.cos(ty)],
                    ]
                )
                R = ry @ rx
                P = np.array([[R[2, 2], 0, -R[0, 2]], [0, R[2, 2], -R[1, 2]], [0, 0, 1]])
                v = P @ R @ np.array([xd, yd, np.ones_like(xd)])
                xd, yd = v[0] / v[2], v[1] / v[2]
        return xd, yd
    if model == 'fisheye':
        r = np.sqrt(r2)
        th = np.arctan(r)
        thd = th * (1 + g('k1') * th**2 + g('k2') * th**4 + g('k3') * th**6 + g('k4') * th**8)
        with np.errstate(invalid='ignore', divide='ignore'):
            s = np.where(r > 1e-12, thd / np.where(r > 1e-12, r, 1), 1.0)
        return x * s, y * s
    raise ValueError(model)


def norm_to_pixel(p, x, y):
    fx, fy = focal_px(p)
    cx, cy = principal_px(p)
    return np.array([fx * x + cx, fy * y + cy])


def world_to_pixel(model, p, xyz):
    """Reference projection of the full (distorted) camera model."""
    x, y = world_to_norm(p, xyz)
    x, y = distort(model, p, x, y)
    return norm_to_pixel(p, x, y)


def world_to_pixel_lin(p, K, xyz):
    """Pinhole projection with intrinsic tuple K = (fx, fy, cx, cy)."""
    x, y = world_to_norm(p, xyz)
    return np.array([K[0] * x + K[2], K[1] * y + K[3]])


def below(p, xyz):
    """Whether points are in front of the camera."""
    M = collinearity_matrix(p['opk'])
    d = np.asarray(xyz, dtype='float64') - np.array(p['xyz'], dtype='float64').reshape(3, 1)
    return (M @ d)[2] < 0


def pinhole_ray(p, ji):
    """World direction of pinhole rays for pixel coordinates (no distortion)."""
    fx, fy = focal_px(p)
    cx, cy = principal_px(p)
    v = np.array([(ji[0] - cx) / fx, -(ji[1] - cy) / fy, -np.ones_like(ji[0], dtype=float)])
    return collinearity_matrix(p['opk']).T @ v


# ---------------------------------------------------------------------------------------- RPC
def rpc_terms(P, L, H):
    """RPC00B term order for P = norm. latitude, L = norm. longitude, H = norm. height."""
    one = np.ones_like(P)
    return [
        one, L, P, H, L * P, L * H, P * H, L**2, P**2, H**2,
        P * L * H, L**3, L * P**2, L * H**2, L**2 * P, P**3, P * H**2, L**2 * H, P**2 * H, H**3,
    ]  # fmt: skip


def rpc_project(rpc, lon, lat, h):
    """(sample, line) of geographic coordinates."""
    L = (lon - rpc['long_off']) / rpc['long_scale']
    P = (lat - rpc['lat_off']) / rpc['lat_scale']
    H = (h - rpc['height_off']) / rpc['height_scale']
    t = rpc_terms(P, L, H)
    f = lambda k: sum(c * v for c, v in zip(rpc[k], t))
    line = f('line_num_coeff') / f('line_den_coeff') * rpc['line_scale'] + rpc['line_off']
    samp = f('samp_num_coeff') / f('samp_den_coeff') * rpc['samp_scale'] + rpc['samp_off']
    return np.array([samp, line])


# ------------------------------------------------------------------- inverse of the frame models
def undistort(model, p, xd, yd, iters=30):
    """Newton inverse of :func:`distort` (starts from the distorted coordinates)."""
    xd, yd = np.asarray(xd, dtype=float), np.asarray(yd, dtype=float)
    if model == 'pinhole':
        return xd.copy(), yd.copy()
    if model == 'fisheye':
        # invert theta_d(theta) by bisection / Newton on a scalar function
        g = lambda n: float(p.get(n, 0.0))
        rd = np.hypot(xd, yd)
        th = rd.copy()
        for _ in range(iters):
            t2 = th * th
            f = th * (1 + t2 * (g('k1') + t2 * (g('k2') + t2 * (g('k3') + t2 * g('k4'))))) - rd
            d = 1 + t2 * (3 * g('k1') + t2 * (5 * g('k2') + t2 * (7 * g('k3') + t2 * 9 * g('k4'))))
            th = th - f / d
        s = np.where(rd > 1e-14, np.tan(th) / np.where(rd > 1e-14, rd, 1), 1.0)
        return xd * s, yd * s
    x, y = xd.copy(), yd.copy()
    h = 1e-6
    for _ in range(iters):
        fx, fy = distort(model, p, x, y)
        ax, ay = distort(model, p, x + h, y)
        bx, by = distort(model, p, x, y + h)
        a, c = (ax - fx) / h, (ay - fy) / h
        b, d = (bx - fx) / h, (by - fy) / h
        rx, ry = fx - xd, fy - yd
        det = a * d - b * c
        x = x - (d * rx - b * ry) / det
        y = y - (a * ry - c * rx) / det
    return x, y


def pixel_to_norm(p, ji):
    fx, fy = focal_px(p)
    cx, cy = principal_px(p)
    return (np.asarray(ji[0], float) - cx) / fx, (np.asarray(ji[1], float) - cy) / fy


def norm_to_world(p, x, y, z):
    """World points at height ``z`` on the rays of normalised coordinates (x right, y down)."""
    v = collinearity_matrix(p['opk']).T @ np.array([x, -y, -np.ones_like(x)])
    s = (z - p['xyz'][2]) / v[2]
    return v * s + np.array(p['xyz'], dtype=float).reshape(3, 1)


def pixel_to_world(model, p, ji, z):
    x, y = undistort(model, p, *pixel_to_norm(p, ji))
    return norm_to_world(p, x, y, z)


def border(w, h, n=25):
    """Border pixel centres of a w x h image."""
    j, i = np.linspace(0, w - 1, n), np.linspace(0, h - 1, n)
    z, o = np.zeros(n), np.ones(n)
    return np.array(
        [np.concatenate([j, j, z, o * (w - 1)]), np.concatenate([z, o * (h - 1), i, i])]
    )


def fit_lin_K(cam, p):
    """Linear intrinsics (fx, fy, cx, cy) of a camera whose distortion is excluded, found from its
    own projections of three known rays, and the worst departure from linearity on others."""
    x = np.array([0.0, 0.2, 0.0, -0.15, 0.1, 0.33, -0.3])
    y = np.array([0.0, 0.0, 0.2, 0.12, -0.25, 0.21, -0.17])
    v = collinearity_matrix(p['opk']).T @ np.array([x, -y, -np.ones_like(x)])
    xyz = v * 100.0 + np.array(p['xyz'], dtype=float).reshape(3, 1)
    ji = cam.world_to_pixel(xyz)
    K = (
        (ji[0, 1] - ji[0, 0]) / 0.2,
        (ji[1, 2] - ji[1, 0]) / 0.2,
        ji[0, 0],
        ji[1, 0],
    )
    pred = np.array([K[0] * x + K[2], K[1] * y + K[3]])
    return K, float(np.abs(pred - ji).max())
