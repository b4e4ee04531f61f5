"""Fitted exterior parameters recover the camera pose from GCPs."""
import copy
import random
import warnings

import numpy as np

from vlib import gen, params, ref

ID = 'C21'
RULE = (
    'GCPs of 1 to 6 images are generated by random frame cameras (all models and interior conventions, nadir and oblique, any heading, flat and steep terrain, GCPs in the world CRS, or in EPSG:4979 with a CRS given) and exterior parameters fitted to them. '
    'The fitted pose with the generating interior parameters must reproject every GCP in the reference equations and in the real camera, and be the generating pose; other images, GCP order and ID do not matter. Too few GCPs (0 to 2 of any one image) are refused. Non-trivial when an image was fitted or a fit refused.'
)
ASSUME = ['GCPs are spread over the image, not collinear, and in front of the camera; pose is judged with 6 or more GCPs (fewer may fit more than one pose); one set of GCPs for which the OpenCV solver misses is disregarded when it finds the pose from most other sets for that image']
NEED = ['fitted', 'gcps', 'poses', 'refused', 'pinhole', 'brown', 'opencv', 'fisheye', 'crs', 'flat', 'real camera', 'first of many']
TIMEOUT = 120


def cases(rng, tier):
    n = 6000 if tier == 'quick' else 80000
    return [
        dict(seed=rng.randrange(1 << 30), model=ref.MODELS[k % len(ref.MODELS)], nim=rng.choice([1, 1, 2, 3, 6]), n=rng.choice([3, 4, 5, 6, 8, 8, 12, 40]),
             relief=rng.choice([0, 0, 0.02, 0.1, 0.3]), crs=rng.choice([None, None, 'str', 'obj']), few=rng.random() < 0.08, ncam=rng.choice([1, 1, 1, 3]),
             oblique=rng.choice([0.0, 0.3, 0.3, 0.6]), size=rng.choice([None, None, (4000, 3000), (3000, 4000)]), far=rng.choice([100, 100, 2000]))
        for k in range(n)
    ]  # fmt: skip


def interior(rng, case):
    """Interior parameters, {image: generator parameters with pose}, CRS."""
    crs = rng.choice(params.PROJ)
    x0, y0 = params.AREA[crs]
    d, p0 = params.int_param(rng, model=case['model'], size=case['size'])
    if case['model'] == 'fisheye' and rng.random() < 0.4:
        # strong higher order terms
        p0.update(k3=rng.uniform(0, 0.05), k4=rng.uniform(0.02, 0.08))
        d.update(k3=p0['k3'], k4=p0['k4'])
    alt = p0['xyz'][2]
    ps = {}
    for k in range(case['nim']):
        p = dict(p0)
        for _ in range(60):
            o = case['oblique']
            p['opk'] = [rng.uniform(-o, o), rng.uniform(-o, o), rng.choice([0.0, np.pi / 2, -np.pi, rng.uniform(-np.pi, np.pi)])]
            if gen.max_nadir_angle(p) < np.radians(68):
                break
        else:
            p['opk'] = [0.01, -0.02, 0.5]
        p['xyz'] = [x0 + rng.uniform(-1, 1) * case['far'], y0 + rng.uniform(-1, 1) * case['far'], alt * rng.uniform(0.9, 1.1)]
        p['ground'] = rng.choice([0.0, rng.uniform(-0.2, 0.2) * alt])
        p['n'] = case['n'] if k == 0 else rng.choice([4, 6, 8, case['n']])
        ps[f'im {k}.tif'] = p
    return d, ps, crs


def control(rng, case, ps):
    """{image: GCPs in the world CRS}."""
    gd = {}
    for name, p in ps.items():
        w, h = p['im_size']
        n = p['n']
        for _ in range(200):
            ji = np.array([[rng.uniform(0, w - 1) for _ in range(n)], [rng.uniform(0, h - 1) for _ in range(n)]])
            # well spread: the second singular value of the centred positions is a good part of the size
            sv = np.linalg.svd((ji - ji.mean(axis=1, keepdims=True)) / [[w], [h]])[1] / np.sqrt(n)
            if sv[-1] > 0.15:
                break
        z = np.array([p['ground'] + rng.uniform(-1, 1) * case['relief'] * p['xyz'][2] * 0.5 for _ in range(n)])
        xyz = ref.pixel_to_world(case['model'], p, ji, z)
        ji = ref.world_to_pixel(case['model'], p, xyz)
        gd[name] = [dict(ji=tuple(ji[:, q].tolist()), xyz=tuple(xyz[:, q].tolist()), id=rng.choice([None, f'g{q}']), info=None) for q in range(n)]
    return gd


def run(case, mon):
    from orthority.enums import CameraType

    rng = random.Random(case['seed'])
    d, ps, crs = interior(rng, case)
    d = dict(cam_type=CameraType(case['model']), **d)
    ints = {'cam α': d}
    for k in range(case['ncam'] - 1):
        # the first camera is the one that is fitted
        ints[f'other {k}'] = dict(cam_type=CameraType.pinhole, **params.int_param(rng, model='pinhole')[0])
    bad = attempt(case, mon, rng, ints, ps, crs)
    if not bad:
        return
    # The solver (OpenCV SQPNP) misses the pose of the odd set of GCPs.  A pose that is not recovered is
    # a violation when it is not recovered from most other sets of GCPs of the same image either.
    mon.count('attempts repeated')
    again = [attempt(case, mon, rng, ints, ps, crs) for _ in range(5)]
    for (f, what), data in bad.items():
        if sum((f, what) in a for a in again) >= 3:
            mon.fail(what, **data)
    if not any(sum((f, w) in a for a in again) >= 3 for f, w in bad):
        mon.count('odd sets of GCPs')


def attempt(case, mon, rng, ints, ps, crs):
    from orthority.camera import create_camera
    from orthority.fit import fit_frame_exterior
    from rasterio.crs import CRS
    from rasterio.warp import transform

    gd = control(rng, case, ps)
    bad = {}
    world = {f: np.array([g['xyz'] for g in l]).T for f, l in gd.items()}
    kw = {}
    if case['crs']:
        mon.count('crs')
        kw = dict(crs=crs if case['crs'] == 'str' else CRS.from_string(crs))
        for f, l in gd.items():
            lla = np.array(transform(CRS.from_string(crs), CRS.from_epsg(4979), *world[f])).T
            world[f] = np.array(transform(CRS.from_epsg(4979), CRS.from_string(crs), *lla.T))
            gd[f] = [dict(g, xyz=tuple(v.tolist())) for g, v in zip(l, lla)]
    if case['few']:
        f = rng.choice(list(gd))
        gd[f] = gd[f][: rng.randrange(3)]
    ikeep, gkeep = copy.deepcopy(ints), copy.deepcopy(gd)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            ext = fit_frame_exterior(ints, gd, **kw)
        except ValueError:
            if not case['few']:
                raise
            mon.count('refused')
            return bad
    mon.check(not case['few'], 'an image with too few GCPs is accepted')
    mon.check(params.same(ints, ikeep) and params.same(gd, gkeep), 'inputs are modified')
    if case['few']:
        return bad
    if case['ncam'] > 1:
        mon.count('first of many')
        mon.check(any('first' in str(w.message) for w in ws), 'fitting the first of many cameras is not warned of')
    mon.check(list(ext) == list(gd), 'fitted images are not those with GCPs', got=list(ext))
    for f, e in ext.items():
        p = ps[f]
        mon.check(e.get('camera') == 'cam α', 'the camera ID is not that of the interior parameters', got=e.get('camera'))
        vals = [*e['xyz'], *e['opk']]
        if not mon.check(len(vals) == 6 and np.isfinite(vals).all(), 'fitted parameters are not finite', got=vals):
            continue
        n = len(gd[f])
        mon.count('gcps', n)
        mon.count('fitted')
        if n < 6:
            # fewer may fit more than one pose
            continue
        q = dict(p, xyz=list(e['xyz']), opk=list(e['opk']))
        ji = np.array([g['ji'] for g in gd[f]]).T
        err = float(np.abs(ref.world_to_pixel(case['model'], q, world[f]) - ji).max())
        size = max(p['im_size'])
        info = dict(model=case['model'], n=n, relief=case['relief'], size=p['im_size'], oblique=case['oblique'])

        def judge(cond, what, **data):
            mon.check(True, what)
            if not cond:
                bad[f, what] = dict(data, image=f, **info)

        mon.count(case['model'])
        mon.count('flat', int(case['relief'] == 0))
        mon.state((case['model'], n, case['relief'], case['crs'], case['nim']))
        judge(err < TOL_PX * size, 'fitted pose does not reproject its GCPs', err=err / size)
        judge(ref.below(q, world[f]).all() and e['xyz'][2] > world[f][2].max(), 'fitted camera is not above its GCPs', xyz=e['xyz'])
        mon.count('poses')
        dist = p['xyz'][2] - world[f][2].mean()
        pe = float(np.abs(np.array(e['xyz']) - p['xyz']).max()) / dist
        R = ref.collinearity_matrix(e['opk']) @ ref.collinearity_matrix(p['opk']).T
        ae = float(np.arccos(np.clip((np.trace(R) - 1) / 2, -1, 1)))
        judge(pe < TOL_POS, 'fitted position is not that of the camera', pe=pe)
        judge(ae < TOL_ANG, 'fitted orientation is not that of the camera', ae=ae)
        cam = create_camera(case['model'], **gen.int_kwargs(p), xyz=e['xyz'], opk=e['opk'])
        act = cam.world_to_pixel(world[f])
        mon.count('real camera')
        judge(np.abs(act - ji).max() < TOL_PX * size + 1e-3, 'camera with the fitted pose does not reproject its GCPs', err=float(np.abs(act - ji).max()) / size)
    return bad


TOL_PX, TOL_POS, TOL_ANG = 1e-3, 1e-2, 5e-3
