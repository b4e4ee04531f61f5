"""Independent orientation and position references for CSV, EXIF and OpenSfM inputs."""
import math

import numpy as np


def body_axes_ned(roll, pitch, yaw):
    """Front, right and down axes of a body, in north / east / down coordinates: the body first
    points north and level, turns clockwise by yaw, nose up by pitch, right side down by roll."""
    cr, sr, cp, sp, cy, sy = math.cos(roll), math.sin(roll), math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw)
    front = np.array([cp * cy, cp * sy, -sp])
    right = np.array([-sy * cr + cy * sp * sr, cy * cr + sy * sp * sr, cp * sr])
    down = np.array([sy * sr + cy * sp * cr, -cy * sr + sy * sp * cr, cp * cr])
    return front, right, down


def project(src, dst, x, y, z):
    from rasterio.crs import CRS
    from rasterio.warp import transform

    c = lambda v: CRS.from_string(v) if isinstance(v, str) else v
    return np.array(transform(c(src), c(dst), list(np.atleast_1d(x)), list(np.atleast_1d(y)), list(np.atleast_1d(z))))


def north_in(crs, lla_crs, lat, lon, alt, d=1e-5):
    """Unit vector of true north at a point in the horizontal plane of ``crs``."""
    p = project(lla_crs, crs, [lon, lon], [lat + d, lat - d], [alt, alt])
    v = p[:2, 0] - p[:2, 1]
    v = v / np.linalg.norm(v)
    return np.array([v[0], v[1], 0.0])


def rpy_camera_axes(rpy, lat, lon, alt, crs, lla_crs):
    """Camera to world rotation: columns are image right, image up and backwards axes."""
    n = north_in(crs, lla_crs, lat, lon, alt)
    e = np.array([n[1], -n[0], 0.0])
    dn = np.array([0, 0, -1.0])
    w = lambda v: v[0] * n + v[1] * e + v[2] * dn
    f, r, d = (w(v) for v in body_axes_ned(*rpy))
    return np.stack([r, f, -d], axis=1)


def rot(opk):
    """Camera to world rotation of (omega, phi, kappa)."""
    from vlib import ref

    return ref.collinearity_matrix(opk).T


def utm(lat, lon):
    z = int(math.floor((lon + 180) / 6)) % 60 + 1
    return f'EPSG:{(32600 if lat >= 0 else 32700) + z}'
