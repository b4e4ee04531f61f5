"""Random parameter dictionaries (interior, exterior, RPC, GCP) in orthority's format."""
from __future__ import annotations

import copy
import hashlib
import math
import os

import numpy as np

from vlib import gen, ref

NAMES = ['cam', 'DJI FC6310 abc', 'ümlaut-é', '123', 'yes', 'null', '1.5', "it's", 'a: b', '# x', '- y', 'v2 x', '{z}', 'тест', '"q"', 'with,comma', 'back\\slash', '2001-01-01', '0x1F', '~', 'on', '!tag', '%p', '@at', '&a', '*b', '1e5']
PROJ = [
    'EPSG:32735', 'EPSG:32633', 'EPSG:32719', 'EPSG:3857', 'EPSG:2193',
    '+proj=tmerc +lat_0=0 +lon_0=25 +k=1 +x_0=0 +y_0=0 +axis=enu +ellps=WGS84 +units=m +no_defs',
    '+proj=utm +zone=35 +south +datum=WGS84 +units=m +no_defs',
    '+proj=laea +lat_0=10 +lon_0=20 +datum=WGS84 +units=m +no_defs',
]  # fmt: skip
# x, y near the area of use of each CRS
AREA = {
    'EPSG:32735': (5e5, 6.3e6), 'EPSG:32633': (4.5e5, 5.2e6), 'EPSG:32719': (3e5, 6.3e6), 'EPSG:3857': (2.7e6, -3.9e6), 'EPSG:2193': (1.6e6, 5.4e6),
    PROJ[5]: (-5.5e4, -3.73e6), PROJ[6]: (5e5, 6.3e6), PROJ[7]: (1e5, -2e5),
}  # fmt: skip


def full(v):
    """A float with all its digits."""
    return float(v)


def int_param(rng, model=None, size=None):
    """(orthority interior parameter dict, generator parameters)."""
    p = gen.frame_param(rng, model=model, size=size)
    d = gen.int_kwargs(p)
    # full precision values
    for k in list(d):
        if k in ('im_size',):
            continue
        if isinstance(d[k], tuple):
            if k == 'sensor_size' and d[k] == tuple(float(v) for v in p['im_size']):
                continue
            d[k] = tuple(full(v * (1 + rng.uniform(-1e-9, 1e-9))) for v in d[k])
        else:
            d[k] = full(d[k] * (1 + rng.uniform(-1e-9, 1e-9)))
        p[k] = list(d[k]) if isinstance(d[k], tuple) else d[k]
    return d, p


def int_dict(rng, n, models=None):
    from orthority.enums import CameraType

    ids = rng.sample(NAMES, n)
    out, ps = {}, {}
    for i in ids:
        d, p = int_param(rng, rng.choice(models) if models else None)
        dd = dict(cam_type=CameraType(p['model']))
        dd.update(d)
        out[i], ps[i] = dd, p
    return out, ps


def filenames(rng, n, suffix=None):
    out = []
    stems = ['img_0001', '3324c_2015_1004_05_0182_RGB', 'a b', 'ümlaut', 'IMG.1', 'x', '100_0005_0018', 'q"q', "o'n", 'a,b', 'тест', '2020', 'yes', '-d', '0001', '1e5']
    for k in range(n):
        s = stems[k % len(stems)] + ('' if k < len(stems) else f'_{k}')
        out.append(s + (rng.choice(['.tif', '.JPG', '.tif', '']) if suffix is None else suffix))
    rng.shuffle(out)
    return out


def ext_dict(rng, n, ids, crs='EPSG:32735', suffix=None):
    x0, y0 = AREA[crs]
    out = {}
    for f in filenames(rng, n, suffix):
        out[f] = dict(
            xyz=(x0 + rng.uniform(-9e3, 9e3), y0 + rng.uniform(-9e3, 9e3), rng.choice([rng.uniform(50, 5000), float(rng.randrange(100, 900)), 0.1])),
            opk=(rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5), rng.choice([rng.uniform(-math.pi, math.pi), 0.0, math.pi])),
            camera=rng.choice(ids) if ids else None,
        )
    return out


def rpc_dict(rng, n, suffix=None):
    from orthority.enums import CameraType

    out = {}
    for f in filenames(rng, n, suffix):
        rp = gen.rpc_param(rng)
        rpc = dict(rp['rpc'])
        if rng.random() < 0.5:
            rpc['err_bias'], rpc['err_rand'] = rng.uniform(0, 5), rng.uniform(0, 2)
        for k in rpc:
            if isinstance(rpc[k], list):
                rpc[k] = [v * (1 + rng.uniform(-1e-9, 1e-9)) if v not in (0.0, 1.0) else v for v in rpc[k]]
        out[f] = dict(cam_type=CameraType.rpc, im_size=tuple(rp['im_size']), rpc=rpc)
    return out


def gcp_list(rng, lonlat, n, size=(100, 80), d=0.01):
    return [
        dict(ji=(rng.uniform(0, size[0]), rng.uniform(0, size[1])) if rng.random() < 0.8 else (rng.randrange(size[0]), rng.randrange(size[1])),
             xyz=(lonlat[0] + rng.uniform(-d, d), lonlat[1] + rng.uniform(-d, d), rng.choice([rng.uniform(-10, 900), 0.0])),
             id=rng.choice([None, f'g{k}', 'ü "x"', str(k), '']), info=rng.choice([None, 'note', 'a,b']))
        for k in range(n)
    ]


def gcp_dict(rng, files):
    return {f: gcp_list(rng, (rng.uniform(-170, 170), rng.uniform(-70, 70)), rng.choice([1, 2, 5])) for f in files}


def same(a, b, tol=0.0):
    """Deep equality of values and types (tuples vs lists and int vs float matter)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b))
    return a == b


def snapshot(root):
    """{relative path: sha1 of content} of all files under ``root``."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = hashlib.sha1(fh.read()).hexdigest()
    return out
