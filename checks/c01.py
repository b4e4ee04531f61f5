"""Frame camera pixel <-> world inverse."""
import numpy as np

from vlib import gen, ref

ID = 'C01'
RULE = (
    'Random frame cameras (4 models x image shapes x focal conventions x poses) with distort on/off and alpha in '
    '{0, .., 1}; non-trivial when at least one pixel is projected to world and back.'
)
ASSUME = ['distortion coefficients are within a range for which the model is invertible over the image']
NEED = ['roundtrip_points', 'broadcast_calls']


def cases(rng, tier):
    n = 2500 if tier == 'quick' else 40000
    out = []
    for k in range(n):
        model = ref.MODELS[k % 4]
        p = gen.frame_param(rng, model=model, oblique=rng.choice([0.1, 0.3, 0.7]))
        out.append(
            dict(
                p=p,
                distort=rng.random() < 0.6,
                alpha=rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]),
                how=rng.choice(['init', 'set', 'update']),
                seed=rng.randrange(1 << 30),
            )
        )
    return out


def make(case):
    p = case['p']
    if case['how'] == 'init':
        return gen.make_camera(p, distort=case['distort'], alpha=case['alpha'])
    if case['how'] == 'set':
        c = gen.make_camera(p, distort=not case['distort'], alpha=1 - case['alpha'])
        c.distort, c.alpha = case['distort'], case['alpha']
        return c
    q = dict(p, xyz=[p['xyz'][0] + 10, p['xyz'][1] - 7, p['xyz'][2] + 30], opk=[0.05, -0.02, 1.0])
    c = gen.make_camera(q, distort=case['distort'], alpha=case['alpha'])
    c.update(tuple(p['xyz']), tuple(p['opk']))
    return c


def run(case, mon):
    rs = np.random.RandomState(case['seed'])
    p = case['p']
    w, h = p['im_size']
    cam = make(case)
    n = 40
    ji = np.vstack([rs.uniform(0, w - 1, n), rs.uniform(0, h - 1, n)])
    ji = np.hstack([ji, ref.border(w, h, 5), [[(w - 1) / 2], [(h - 1) / 2]]])
    if not case['distort']:
        # pixels of the undistorted image that show part of the source
        K, _ = ref.fit_lin_K(cam, p)
        x, y = (ji[0] - K[2]) / K[0], (ji[1] - K[3]) / K[1]
        ok = np.hypot(x, y) < 3
        ji = ji[:, ok]
    pos = np.array(p['xyz'])
    alt = p['xyz'][2]
    tol = 2e-3 if p['model'] in ('brown', 'opencv') and case['distort'] else 1e-5

    def rt(ji_in, z, what):
        out = cam.pixel_to_world_z(ji_in, z)
        nn = max(ji_in.shape[1], np.size(z))
        mon.check(out.shape == (3, nn), 'shape of world coordinates', shape=out.shape, want=(3, nn), mode=what)
        zz = np.broadcast_to(np.asarray(z, dtype=float), (nn,)) if np.size(z) in (1, nn) else np.asarray(z)
        mon.check(
            np.abs(out[2] - zz).max() < 1e-6, 'world z is not the requested z', mode=what, err=np.abs(out[2] - zz).max()
        )
        back = cam.world_to_pixel(np.array(out, dtype='float64'))
        want = np.broadcast_to(ji_in, (2, nn)) if ji_in.shape[1] == 1 else ji_in
        err = np.abs(back - want)
        mon.count('roundtrip_points', nn)
        mon.check(
            np.all(err < tol), 'pixel -> world -> pixel is not the identity',
            mode=what, err=err.max(), at=want[:, int(np.argmax(np.nanmax(np.nan_to_num(err, nan=1e9), axis=0)))],
        )
        # line of sight: the camera position, and the reference ray for distorted cameras
        return out

    z1 = alt - rs.uniform(0.3, 1.0) * 100
    a = rt(ji, float(z1), 'many pixels, one z')
    z2 = alt - 200.0
    b = rt(ji, np.array([z2]), 'many pixels, one-element z array')
    zs = alt - rs.uniform(5, 400, ji.shape[1])
    c = rt(ji, zs, 'pairwise')
    rt(ji, int(np.floor(z1)) if z1 < alt else 0, 'integer z')
    zi = np.floor(zs).astype('int64')
    rt(ji, zi, 'integer z array')
    mon.count('broadcast_calls', 5)
    # the line of sight extends above the camera
    up = alt + rs.uniform(5, 400, ji.shape[1])
    u = rt(ji, up, 'above the camera')
    rt(ji, float(up[0]), 'above the camera, one z')
    du = pos.reshape(3, 1) - u
    mon.check(np.abs(du / np.linalg.norm(du, axis=0) - (c - pos.reshape(3, 1)) / np.linalg.norm(c - pos.reshape(3, 1), axis=0)).max() < 1e-7, 'points above the camera are not on the line of sight')
    # all on the same ray through the camera position
    da, db, dc = (v - pos.reshape(3, 1) for v in (a, b, c))
    for d in (da, db, dc):
        mon.check(np.all(d[2] < 0), 'world points are not below the camera')
    ua, ub, uc = (d / np.linalg.norm(d, axis=0) for d in (da, db, dc))
    mon.check(
        max(np.abs(ua - ub).max(), np.abs(ua - uc).max()) < 1e-8, 'points at different z are not on the same ray',
        err=max(np.abs(ua - ub).max(), np.abs(ua - uc).max()),
    )
    # the ray is the one of that pixel
    if case['distort']:
        r = ref.pixel_to_world(p['model'], p, ji, z1)
        gsd = (alt - z1) / min(ref.focal_px(p))
        err = np.abs(a - r)[:2].max(axis=0) / gsd / (1 + (np.linalg.norm(da, axis=0) / np.abs(da[2])) ** 2)
        mon.check(err.max() < 5e-3, 'world points are off the line of sight of the pixel', err_px=err.max())
    # one pixel, many z: each column belongs to its z
    k = rs.randint(ji.shape[1])
    zz = alt - rs.uniform(5, 400, 7)
    d = rt(ji[:, [k]], zz, 'one pixel, many z')
    e = np.hstack([cam.pixel_to_world_z(ji[:, [k]], float(v)) for v in zz])
    mon.check(np.allclose(d, e, rtol=0, atol=1e-6), 'one pixel many z differs from single calls')
    mon.count('broadcast_calls', 2)
    # columns are independent
    perm = rs.permutation(ji.shape[1])
    f = cam.pixel_to_world_z(ji[:, perm], zs[perm])
    mon.check(np.allclose(f, c[:, perm], rtol=0, atol=1e-6), 'columns are not independent')
    s = rs.randint(ji.shape[1])
    g = cam.pixel_to_world_z(ji[:, [s]], float(zs[s]))
    mon.check(np.allclose(g[:, 0], c[:, s], rtol=0, atol=1e-6), 'single column differs from batch')
    # integer pixel coordinates, other memory layouts
    jint = np.round(ji).astype('int32')
    jint[0] = np.clip(jint[0], 0, w - 1)
    jint[1] = np.clip(jint[1], 0, h - 1)
    rt(jint, float(z1), 'integer pixel coordinates')
    rt(np.asfortranarray(ji), float(z1), 'fortran order')
    wp = cam.world_to_pixel(np.asfortranarray(c))
    wq = cam.world_to_pixel(np.ascontiguousarray(c[:, perm]))
    mon.check(np.allclose(wp[:, perm], wq, rtol=0, atol=1e-7), 'world_to_pixel columns are not independent')
    mon.state(p['model'], case['distort'], case['how'], w > h, 'sensor_size' in p, round(case['alpha'], 1))
