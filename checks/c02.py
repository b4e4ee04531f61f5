"""Frame camera model equations."""
import math

import numpy as np

from vlib import gen, ref

ID = 'C02'
RULE = (
    'Random frame cameras; world points drawn inside the field of view at random depths, projected by the code and by an '
    'independent reference; distort=False cameras at alpha 0 / 1 / between. Non-trivial when points are compared.'
)
ASSUME = ['reference equations (vlib/ref.py), written from the published models']
NEED = ['reference_points', 'alpha_one', 'alpha_zero', 'axis_points']


def cases(rng, tier):
    n = 2500 if tier == 'quick' else 40000
    out = []
    for k in range(n):
        p = gen.frame_param(rng, model=ref.MODELS[k % 4], oblique=rng.choice([0.05, 0.3, 0.9]))
        if rng.random() < 0.25:
            # any orientation: the projection is defined for points in front of the camera
            p['opk'] = [gen.r6(rng.uniform(-math.pi, math.pi)), gen.r6(rng.uniform(-1.4, 1.4)), gen.r6(rng.uniform(-math.pi, math.pi))]
        out.append(dict(p=p, alpha=rng.choice([0.0, 1.0, 0.25, 0.5, 0.8]), seed=rng.randrange(1 << 30)))
    return out


def run(case, mon):
    p, model = case['p'], case['p']['model']
    rs = np.random.RandomState(case['seed'])
    w, h = p['im_size']
    cam = gen.make_camera(p)
    mon.check(tuple(cam.im_size) == (w, h), 'im_size', got=cam.im_size)
    mon.check(np.allclose(cam.pos, p['xyz']), 'camera position', got=cam.pos)
    R = ref.collinearity_matrix(p['opk'])
    pos = np.array(p['xyz']).reshape(3, 1)

    def world(x, y, d):
        return R.T @ (np.array([x, -y, -np.ones_like(x)]) * d) + pos

    # field of view in normalised coordinates
    bx, by = ref.undistort(model, p, *ref.pixel_to_norm(p, ref.border(w, h, 9)))
    n = 60
    x = np.concatenate([rs.uniform(bx.min(), bx.max(), n), bx, [0.0, 1e-9, 0.05]])
    y = np.concatenate([rs.uniform(by.min(), by.max(), n), by, [0.0, 0.0, 0.0]])
    d = rs.uniform(2, 3000, x.size)
    xyz = world(x, y, d)
    ji = cam.world_to_pixel(xyz)
    want = ref.norm_to_pixel(p, *ref.distort(model, p, x, y))
    err = np.abs(ji - want)
    mon.count('reference_points', x.size)
    mon.count('axis_points', 1)
    tol = 1e-6 + 1e-13 * np.abs(pos).max() / d * max(ref.focal_px(p)) * 50
    mon.check(
        np.all(err < tol), 'projection differs from the documented model',
        model=model, err=np.nanmax(err), got=ji[:, int(np.argmax(np.nan_to_num(err, nan=1e9).max(axis=0)))],
        want=want[:, int(np.argmax(np.nan_to_num(err, nan=1e9).max(axis=0)))],
    )

    # distortion excluded
    for alpha in sorted({0.0, 1.0, case['alpha']}):
        c = gen.make_camera(p, distort=False, alpha=alpha)
        K, lin = ref.fit_lin_K(c, p)
        mon.check(lin < 1e-6 * max(w, h), 'projection without distortion is not a pinhole projection', err=lin)
        if model == 'pinhole':
            fx, fy = ref.focal_px(p)
            cx, cy = ref.principal_px(p)
            mon.check(np.allclose(K, (fx, fy, cx, cy), rtol=1e-9, atol=1e-6), 'pinhole intrinsics', K=K)
        jl = c.world_to_pixel(xyz)
        wl = np.array([K[0] * x + K[2], K[1] * y + K[3]])
        mon.check(np.abs(jl - wl).max() < 1e-5, 'projection without distortion is not a pinhole projection', err=np.abs(jl - wl).max())
        mon.count('reference_points', x.size)
        if model == 'pinhole':
            continue
        # tolerance: the border is located from a few boundary points
        bj, bi = K[0] * bx + K[2], K[1] * by + K[3]
        tj, ti = 0.02 * w + 0.5, 0.02 * h + 0.5
        if alpha == 1.0:
            mon.count('alpha_one')
            mon.check(
                bj.min() > -tj and bj.max() < w - 1 + tj and bi.min() > -ti and bi.max() < h - 1 + ti,
                'alpha=1 undistorted image does not include all source pixels',
                bounds=[bj.min(), bj.max(), bi.min(), bi.max()], size=[w, h],
            )
            mon.check(
                bj.min() < tj and bj.max() > w - 1 - tj and bi.min() < ti and bi.max() > h - 1 - ti,
                'alpha=1 undistorted image is smaller than needed',
                bounds=[bj.min(), bj.max(), bi.min(), bi.max()], size=[w, h],
            )
        elif alpha == 0.0:
            mon.count('alpha_zero')
            ub = ref.border(w, h, 9)
            sx, sy = (ub[0] - K[2]) / K[0], (ub[1] - K[3]) / K[1]
            sj = ref.norm_to_pixel(p, *ref.distort(model, p, sx, sy))
            lo, hi = sj.min(axis=1), sj.max(axis=1)
            mon.check(
                lo[0] > -tj and lo[1] > -ti and hi[0] < w - 1 + tj and hi[1] < h - 1 + ti,
                'alpha=0 undistorted image includes invalid pixels', lo=lo, hi=hi, size=[w, h],
            )
            mon.check(
                lo[0] < tj and lo[1] < ti and hi[0] > w - 1 - tj and hi[1] > h - 1 - ti,
                'alpha=0 undistorted image omits valid area', lo=lo, hi=hi, size=[w, h],
            )
        else:
            K0, _ = ref.fit_lin_K(gen.make_camera(p, distort=False, alpha=0.0), p)
            K1, _ = ref.fit_lin_K(gen.make_camera(p, distort=False, alpha=1.0), p)
            for a, b0, b1 in zip(K[:2], K0[:2], K1[:2]):
                mon.check(min(b0, b1) - 1e-6 <= a <= max(b0, b1) + 1e-6, 'alpha scaling is not between its limits')
                if abs(b1 - b0) > 1e-3 * abs(b0):
                    mon.check(0.02 < (a - b0) / (b1 - b0) < 0.98, 'intermediate alpha is not an intermediate scaling', alpha=alpha, part=(a - b0) / (b1 - b0))
    mon.state(model, w > h, w == h, 'sensor_size' in p, isinstance(p['focal_len'], list), round(p['opk'][2], 1))
