"""Pan / multispectral image pairs and an independent Gram-Schmidt reference."""
from __future__ import annotations

import math

import numpy as np

from vlib import scene

CRS = 'EPSG:32735'


def smooth(rs, shape, n=6):
    """A random smooth field in about [0, 1] on the unit square, as a function of (u, v)."""
    f = [(rs.uniform(0.5, 4), rs.uniform(0.5, 4), rs.uniform(0, 6.3), rs.uniform(0.3, 1)) for _ in range(n)]

    def fn(u, v):
        z = sum(a * np.sin(2 * np.pi * (fx * u + fy * v) + p) for fx, fy, p, a in f)
        return 0.5 + 0.5 * z / sum(a for *_, a in f)

    return fn


def pan_spec(rng, **kw):
    r = rng.choice([2, 3, 4, 4, 5])
    s = dict(
        ratio=r, ms=[rng.choice([24, 37, 50, 64]), rng.choice([24, 33, 48, 70])], bands=rng.choice([1, 2, 3, 4, 5]), dtype=rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64']),
        pan_dtype=None, seed=rng.randrange(1 << 30), off=[0.0, 0.0], grow=[0, 0, 0, 0], mask=None, res=rng.choice([0.5, 2.0, 10.0]),
    )
    s.update(kw)
    return s


RANGE = dict(uint8=(30, 220), uint16=(200, 9000), int16=(-3000, 9000), int32=(-3000, 9000), float32=(0.1, 60.0), float64=(-1.0, 500.0))


class Pair:
    """Arrays and files of a :func:`pan_spec`.

    ``grow``: pan extents beyond the multispectral (left, top, right, bottom) in multispectral
    pixels (negative: smaller); ``off``: grid offset in multispectral pixels.
    """

    def __init__(self, s):
        import rasterio as rio

        self.s = s
        rs = np.random.RandomState(s['seed'])
        w, h = s['ms']
        R = s['ratio']
        mres = s['res'] * R
        x0, y0 = 4e5 + 17.0, 6.3e6 - 33.0
        self.ms_tr = rio.Affine(mres, 0, x0, 0, -mres, y0)
        g = s['grow']
        pw, ph = int(round((w + g[0] + g[2]) * R)), int(round((h + g[1] + g[3]) * R))
        px0 = x0 - g[0] * mres + s['off'][0] * mres
        py0 = y0 + g[1] * mres - s['off'][1] * mres
        self.pan_tr = rio.Affine(s['res'], 0, px0, 0, -s['res'], py0)
        self.fields = [smooth(rs, None) for _ in range(s['bands'] + 1)]
        lo, hi = s.get('range') or RANGE[s['dtype']]
        self.gains = [(lo + (hi - lo) * rs.uniform(0.0, 0.25), (hi - lo) * rs.uniform(0.45, 0.75)) for _ in range(s['bands'])]
        wt = rs.dirichlet(np.ones(s['bands']))
        self.w_true = wt

        def uv(tr, n):
            j, i = np.meshgrid(np.arange(n[0]) + 0.5, np.arange(n[1]) + 0.5)
            x, y = tr * (j, i)
            return (x - x0) / (w * mres), (y0 - y) / (h * mres)

        u, v = uv(self.ms_tr, (w, h))
        ms = np.stack([a + b * (0.75 * f(u, v) + 0.25 * self.fields[-1](3 * u, 3 * v)) for f, (a, b) in zip(self.fields, self.gains)])
        ms = ms + rs.normal(0, 0.02 * (hi - lo), ms.shape)
        u, v = uv(self.pan_tr, (pw, ph))
        pan = sum(wk * (a + b * (0.75 * f(u, v) + 0.25 * self.fields[-1](3 * u, 3 * v))) for wk, f, (a, b) in zip(wt, self.fields, self.gains))
        pan = pan + rs.normal(0, 0.015 * (hi - lo), pan.shape)
        pd = s['pan_dtype'] or s['dtype']
        plo, phi = (s.get('range') if pd == s['dtype'] else None) or RANGE[pd]
        pan = plo + (pan - lo) / (hi - lo) * (phi - plo)
        self.ms = self._cast(np.clip(ms, lo, hi), s['dtype'])
        self.pan = self._cast(np.clip(pan, plo, phi), pd)[None]
        self.ms_valid, self.pan_valid = np.ones((h, w), bool), np.ones((ph, pw), bool)
        self.band_valid = np.ones(self.ms.shape, bool)

    @staticmethod
    def _cast(a, dtype):
        return (np.round(a) if np.dtype(dtype).kind in 'iu' else a).astype(dtype)

    def trend(self):
        """Scale values down along the image, so that parts of it have different statistics."""
        for name in ('ms', 'pan'):
            a = getattr(self, name)
            h, w = a.shape[1:]
            t = np.linspace(0, 1, w)[None, :] if w > h else np.linspace(0, 1, h)[:, None]
            m = float(a.min())
            f = 0.35 + 0.65 * (np.sin(9 * t) * 0.5 + 0.5)
            for k in range(len(a)):
                a[k] = self._cast(m + (a[k] - m) * (f if k % 2 == 0 else f[::-1, ::-1]), a.dtype)

    def hide(self, which, sl):
        m = self.ms_valid if which == 'ms' else self.pan_valid
        m[sl] = False

    def write(self, tmp, how=None, ms_kw=None, pan_kw=None, crs=CRS):
        """``how``: representation of invalid pixels: None, 'nodata', 'mask', 'nan'."""
        out = []
        for name, arr, valid, tr, kw in (('pan', self.pan, self.pan_valid, self.pan_tr, pan_kw), ('ms', self.ms, self.ms_valid, self.ms_tr, ms_kw)):
            kw = dict(kw or {})
            arr = arr.copy()
            if how and not (valid.all() and (name == 'pan' or self.band_valid.all())) or how == 'mask':
                h = how
                if h == 'nan' and arr.dtype.kind != 'f':
                    h = 'nodata'
                if h == 'mask':
                    kw['mask'] = np.where(valid, 255, 0).astype('uint8')
                    arr[:, ~valid] = 7
                else:
                    nd = float('nan') if h == 'nan' else {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(str(arr.dtype), -9999)
                    kw['nodata'] = nd
                    arr[:, ~valid] = nd
                    if name == 'ms':
                        arr[~self.band_valid] = nd
            kw.setdefault('crs', crs)
            kw.setdefault('photometric', 'minisblack')
            kw.setdefault('alpha', 'no')
            kw.setdefault('transform', tr)
            out.append(scene.write_tif(tmp / f'{name}.tif', arr, **kw))
        return out


# ---------------------------------------------------------------------------- reference method
def nnls(A, b, pan_var=None):
    """Non-negative least squares for normal equations ``A w = b`` by enumeration of active sets."""
    n = len(b)
    best, bw = math.inf, np.zeros(n)
    for m in range(1, 1 << n):
        k = [i for i in range(n) if m >> i & 1]
        w = np.zeros(n)
        w[k] = np.linalg.lstsq(A[np.ix_(k, k)], b[k], rcond=None)[0]
        if (w < 0).any():
            continue
        c = w @ A @ w - 2 * w @ b
        if c < best - 1e-13 * abs(best if best < math.inf else 1):
            best, bw = c, w
    return bw


def ls_positive(A, b):
    """Least squares weights, re-estimated for the positive bands if there are negatives."""
    w = np.linalg.lstsq(A, b, rcond=None)[0]
    if (w < 0).any():
        k = np.where(w > 0)[0]
        w2 = np.linalg.lstsq(A[np.ix_(k, k)], b[k], rcond=None)[0]
        w = w.clip(0, None)
        if (w2 >= 0).all():
            w[k] = w2
    return w


def grid_window(tr, shape, bounds):
    """Smallest whole-pixel window (l, t, r, b) of a north-up grid that contains the intersection
    with ``bounds``."""
    l = max((bounds[0] - tr.c) / tr.a, 0)
    r = min((bounds[2] - tr.c) / tr.a, shape[1])
    t = max((bounds[3] - tr.f) / tr.e, 0)
    b = min((bounds[1] - tr.f) / tr.e, shape[0])
    e = 1e-6
    return math.floor(l + e), math.floor(t + e), math.ceil(r - e), math.ceil(b - e)


def bounds_of(tr, shape):
    return tr.c, tr.f + tr.e * shape[0], tr.c + tr.a * shape[1], tr.f


def warp(arr, valid, src_tr, src_crs, dst_tr, dst_crs, shape, interp):
    """Whole-array warp in float64 with NaN for invalid pixels."""
    from rasterio.enums import Resampling
    from rasterio.warp import reproject

    a = np.where(valid, arr.astype('f8'), np.nan)
    out = np.full((len(a), *shape), np.nan)
    for k in range(len(a)):
        reproject(a[k], out[k], src_transform=src_tr, src_crs=src_crs, src_nodata=np.nan, dst_transform=dst_tr, dst_crs=dst_crs, dst_nodata=np.nan,
                  resampling=Resampling[interp], init_dest_nodata=True, num_threads=1)
    return out


def shift(tr, j, i):
    import rasterio as rio

    return tr * rio.Affine.translation(j, i)


def reference(pr, ms_indexes=None, pan_index=1, weights=None, interp='cubic', crs=CRS):
    """Gram-Schmidt reference for a :class:`Pair`: dict with 'out' (float64, NaN where invalid),
    'transform', 'weights' (normalised), 'ambiguous' (weight estimate is method dependent)."""
    idx = [k - 1 for k in (ms_indexes or range(1, len(pr.ms) + 1))]
    ms, pan = pr.ms[idx], pr.pan[[pan_index - 1]]
    msv = pr.ms_valid & pr.band_valid[idx]
    pb, mb = bounds_of(pr.pan_tr, pan.shape[1:]), bounds_of(pr.ms_tr, ms.shape[1:])
    pw = grid_window(pr.pan_tr, pan.shape[1:], mb)
    mw = grid_window(pr.ms_tr, ms.shape[1:], pb)
    ptr, psh = shift(pr.pan_tr, pw[0], pw[1]), (pw[3] - pw[1], pw[2] - pw[0])
    mtr, msh = shift(pr.ms_tr, mw[0], mw[1]), (mw[3] - mw[1], mw[2] - mw[0])
    # statistics at multispectral resolution
    pd = warp(pan, pr.pan_valid, pr.pan_tr, crs, mtr, crs, msh, 'average')[0]
    m = np.where(msv, ms.astype('f8'), np.nan)[:, mw[1] : mw[3], mw[0] : mw[2]]
    ok = np.isfinite(pd) & np.isfinite(m).all(axis=0)
    X = np.vstack([pd[ok][None], m[:, ok]])
    mean, C = X.mean(axis=1), np.cov(X)
    c = C[1:, 1:]
    amb = False
    if weights is None:
        w1, w2 = ls_positive(c, C[0, 1:]), nnls(c, C[0, 1:])
        w = w1
        amb = np.abs(w1 - w2).max() > 1e-9 * max(1e-12, np.abs(w2).max()) or np.linalg.cond(c) > 1e9
        if (w <= 0).all():
            amb = True
    else:
        w = np.array(weights, float)
    w = w / w.sum() if w.sum() > 0 else w
    sv = w @ c @ w
    phi = c @ w / sv
    gain = math.sqrt(sv / C[0, 0])
    bias = w @ mean[1:] - gain * mean[0]
    up = warp(ms, msv, pr.ms_tr, crs, ptr, crs, psh, interp)
    p = np.where(pr.pan_valid, pan.astype('f8'), np.nan)[0, pw[1] : pw[3], pw[0] : pw[2]]
    out = up + phi[:, None, None] * (gain * p + bias - np.tensordot(w, up, 1))
    out[:, ~(np.isfinite(p) & np.isfinite(up).all(axis=0))] = np.nan
    return dict(out=out, transform=ptr, weights=w, ambiguous=bool(amb), phi=phi, gain=gain, bias=bias, n=int(ok.sum()), up=up, mean=mean, cov=C)


def cast(a, dtype):
    """Round and clip to an integer data type."""
    if np.dtype(dtype).kind in 'iu':
        i = np.iinfo(dtype)
        return np.clip(np.round(a), i.min, i.max)
    return a
