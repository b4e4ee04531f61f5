"""History independence of cameras and camera factories; arguments are not modified."""
import copy
import json
import warnings
from pathlib import Path

import numpy as np

from vlib import gen, ref, scene

ID = 'C04'
RULE = (
    'Random operation histories (projections, boundaries, reads, remaps, exterior / distort / alpha changes, failing calls, '
    'clobbering of returned arrays) on a camera, each followed by a probe battery that is compared with a newly created camera; '
    'cameras that differ in one parameter made and used one after the other; '
    'factories of several kinds of files made one after the other with shared argument dictionaries; '
    'random get / update / refine / write histories on factories compared with cameras built from the recorded parameters. '
    'Non-trivial when at least one probe follows at least two operations.'
)
ASSUME = [
    'a frame camera factory hands out one camera object per camera ID, so that a camera is judged at the time of get()',
]
NEED = ['shared_factories', 'siblings', 'like_named', 'camera_probes', 'frame_gets', 'rpc_gets', 'refines', 'argument_snapshots']


def cases(rng, tier):
    n = dict(quick=(300, 200, 130), thorough=(1500, 800, 500))[tier]
    out = []
    for k in range(n[0]):
        out.append(dict(kind='camera', p=gen.frame_param(rng, model=ref.MODELS[k % 4], size=rng.choice([(40, 30), (30, 44), (51, 51)])), steps=rng.randrange(4, 14), seed=rng.randrange(1 << 30)))
    for k in range(n[1]):
        out.append(dict(kind='frames', seed=rng.randrange(1 << 30), ncam=rng.randrange(1, 4), nim=rng.randrange(2, 7), steps=rng.randrange(4, 14),
                        ps=[gen.frame_param(rng, size=rng.choice([(40, 30), (30, 44)])) for _ in range(6)]))
    for k in range(n[2]):
        loc = rng.choice([(24.5, -33.6), (-70.2, 18.3), (8.1, 47.2)])
        out.append(dict(kind='rpcs', seed=rng.randrange(1 << 30), rps=[gen.rpc_param(rng, size=(60, 50), loc=loc) for _ in range(rng.randrange(1, 4))],
                        stem=rng.random() < 0.5, steps=rng.randrange(4, 12)))
    out += [dict(kind='shared', seed=rng.randrange(1 << 30), steps=rng.randrange(2, 6)) for _ in range(n[2])]
    out += [dict(kind='sibling', p=gen.frame_param(rng, model=ref.MODELS[k % 4], size=rng.choice([(60, 44), (48, 66), (52, 52)])), seed=rng.randrange(1 << 30)) for k in range(n[2])]
    out += [dict(kind='rpcsib', rp=gen.rpc_param(rng, size=(60, 50)), seed=rng.randrange(1 << 30), utm=rng.random() < 0.5) for _ in range(n[2] // 2)]
    out += [dict(kind='rpccam', rp=gen.rpc_param(rng, size=(40, 30)), seed=rng.randrange(1 << 30), steps=8, crs=None if rng.random() < 0.4 else 'utm') for _ in range(n[2] // 2)]
    return out


def probes(cam, p, src, dtype, mon):
    """Everything a camera returns, on fixed arguments."""
    w, h = cam.im_size
    z = p['xyz'][2] - 100.0
    out = {}
    ji = ref.border(w, h, 4) * 0.9 + 1
    xyz = ref.norm_to_world(p, *ref.pixel_to_norm(p, ji), z)
    out['world_to_pixel'] = cam.world_to_pixel(xyz)
    out['pixel_to_world_z'] = cam.pixel_to_world_z(ji, z)
    out['pixel_boundary'] = cam.pixel_boundary()
    out['pixel_boundary_n'] = cam.pixel_boundary(num_pts=24)
    out['world_boundary'] = cam.world_boundary(z)
    out['pos'] = np.array(cam.pos)
    out['size'] = np.array(cam.im_size)
    out['flags'] = np.array([float(cam.distort), float(cam.alpha)])
    im = cam.read(src)
    out['read'] = im
    gx, gy = np.meshgrid(np.linspace(xyz[0].min(), xyz[0].max(), 12), np.linspace(xyz[1].max(), xyz[1].min(), 9))
    r, m = cam.remap(im, gx, gy, np.full(gx.shape, z), interp='bilinear')
    out['remap'], out['mask'] = r, m
    return out


def same(a, b):
    for k in b:
        x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        if x.shape != y.shape:
            return k, 'shape'
        if not np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
            return k, float(np.nanmax(np.abs(x - y)))
    return None


def frozen(*arrs):
    return [np.array(a, copy=True) for a in arrs]


def unchanged(mon, before, *arrs, op=None):
    mon.count('argument_snapshots', len(arrs))
    for b, a in zip(before, arrs):
        mon.check(np.array_equal(b, a, equal_nan=True) and b.dtype == a.dtype, 'an argument array was modified', op=op)


def run_camera(case, mon, rs):
    p = dict(case['p'])
    dtype = ['uint8', 'float32', 'uint16', 'int16', 'float64'][rs.randint(5)]
    w, h = p['im_size']
    arr, code = scene.coded((w, h), dtype, 2)
    src = scene.write_tif(mon.tmp / 'src.tif', arr)
    st = dict(distort=True, alpha=1.0)
    if rs.rand() < 0.5:
        st = dict(distort=bool(rs.rand() < 0.5), alpha=float(rs.choice([0, 0.3, 1])))
    cam = gen.make_camera(p, **st)
    hist = []
    cur = dict(p)
    for step in range(case['steps']):
        op = rs.choice(['update', 'distort', 'alpha', 'read', 'remap', 'w2p', 'p2w', 'pb', 'wb', 'wbs', 'fail', 'clobber', 'probe', 'bad_update'])
        hist.append(str(op))
        z = cur['xyz'][2] - 80.0
        if op == 'update':
            q = gen.frame_param(__import__('random').Random(int(rs.randint(1 << 30))), model=p['model'], size=(w, h), oblique=0.2)
            cur['xyz'], cur['opk'] = q['xyz'], q['opk']
            if gen.max_nadir_angle(cur) > 1.2:
                cur['opk'] = [0.01, 0.02, 0.5]
            a = (tuple, list, np.array)[rs.randint(3)]
            cam.update(a(cur['xyz']), a(cur['opk']))
        elif op == 'distort':
            st['distort'] = not st['distort']
            cam.distort = st['distort']
        elif op == 'alpha':
            st['alpha'] = float(rs.choice([0.0, 0.25, 0.5, 1.0]))
            cam.alpha = st['alpha']
        elif op == 'read':
            r = cam.read(src, indexes=[2], interp='nearest')
            r[...] = 7
        elif op in ('remap', 'clobber'):
            b = cam.world_boundary(z)
            gx, gy = np.meshgrid(np.linspace(b[0].min(), b[0].max(), 8), np.linspace(b[1].min(), b[1].max(), 8))
            gz = np.full(gx.shape, z)
            im = arr.copy()
            f = frozen(im, gx, gy, gz)
            r, m = cam.remap(im, gx, gy, gz, interp=str(rs.choice(['nearest', 'cubic'])))
            unchanged(mon, f, im, gx, gy, gz, op='remap')
            if op == 'clobber':
                for o in (r, m, b, cam.pixel_boundary(), cam.pixel_boundary(num_pts=12), cam.pixel_to_world_z(b[:2] * 0 + 5, z)):
                    o[...] = 1
        elif op == 'w2p':
            xyz = np.array(cur['xyz']).reshape(3, 1) - np.array([[1.0, -3, 5], [2, 4, 6], [50, 60, 70]])
            f = frozen(xyz)
            cam.world_to_pixel(xyz)
            unchanged(mon, f, xyz, op='world_to_pixel')
        elif op == 'p2w':
            ji = rs.uniform(1, 20, (2, 6))
            zz = z + rs.uniform(0, 5, 6)
            f = frozen(ji, zz)
            cam.pixel_to_world_z(ji, zz)
            unchanged(mon, f, ji, zz, op='pixel_to_world_z')
        elif op == 'pb':
            cam.pixel_boundary(num_pts=int(rs.choice([8, 16, 40])))[...] = -3
        elif op == 'wb':
            cam.world_boundary(z, num_pts=10)[...] = -3
        elif op == 'wbs':
            import rasterio as rio

            b = cam.world_boundary(z)
            dem = np.full((20, 20), z, dtype='float32') + rs.uniform(0, 3, (20, 20)).astype('float32')
            tr = rio.transform.from_bounds(b[0].min() - 1, b[1].min() - 1, b[0].max() + 1, b[1].max() + 1, 20, 20)
            f = frozen(dem)
            cam.world_boundary(dem, transform=tr, num_pts=12)
            unchanged(mon, f, dem, op='world_boundary')
        elif op == 'fail':
            for bad in (
                lambda: cam.world_to_pixel(np.zeros((2, 3))),
                lambda: cam.pixel_to_world_z(np.zeros((3, 3)), 0.0),
                lambda: cam.remap(arr[0], np.zeros((2, 2)), np.zeros((2, 2)), np.zeros((2, 2))),
                lambda: cam.read(str(mon.tmp / 'none.tif')),
            ):
                try:
                    bad()
                except Exception:
                    mon.count('failing_calls')
        elif op == 'bad_update':
            try:
                cam.update((1.0, 2.0), (0.0, 0.0, 0.0))
            except ValueError:
                mon.count('failing_calls')
            else:
                mon.fail('update() with too few values was accepted')
        if step >= 1 and (op == 'probe' or rs.rand() < 0.6 or step == case['steps'] - 1):
            fresh = gen.make_camera(cur, **st)
            d = same(probes(cam, cur, src, dtype, mon), probes(fresh, cur, src, dtype, mon))
            mon.count('camera_probes')
            mon.check(d is None, 'camera differs from a new camera with the same parameters', diff=d, history=hist, state=st, model=p['model'])
    mon.state(tuple(hist), p['model'])


def deep(o):
    return copy.deepcopy(o)


def run_frames(case, mon, rs):
    import fsspec
    import rasterio as rio
    from orthority.enums import CameraType
    from orthority.factory import FrameCameras

    ps = case['ps']
    ids = [f'cam {k}' for k in range(case['ncam'])]
    int_d, ext_d, truth = {}, {}, {}
    for k, i in enumerate(ids):
        d = gen.int_kwargs(ps[k])
        int_d[i] = dict(cam_type=CameraType(ps[k]['model']), **d)
    explicit = case['ncam'] > 1 or rs.rand() < 0.5
    for n in range(case['nim']):
        ci = rs.randint(case['ncam'])
        q = gen.frame_param(__import__('random').Random(int(rs.randint(1 << 30))), model=ps[ci]['model'], oblique=0.2)
        ext = dict(xyz=tuple(q['xyz']), opk=tuple(q['opk']))
        if n and rs.rand() < 0.4:
            # an image that shares its position or orientation with another
            k = ['xyz', 'opk'][rs.randint(2)]
            ext[k] = tuple(truth[f'im{n - 1}.tif'][k])
        if explicit:
            ext['camera'] = ids[ci]
        else:
            ext['camera'] = None
        key = f'im{n}.tif' if rs.rand() < 0.7 else f'im{n}'
        ext_d[key] = ext
        if '.' in key and rs.rand() < 0.3:
            # parameters of another image, whose name has no extension
            ext_d[f'im{n}'] = dict(ext, xyz=(1.0, 2.0, 3.0), opk=(0.5, 0.5, 0.5))
            mon.count('like_named')
        truth[f'im{n}.tif'] = dict(ps[ci], xyz=list(ext['xyz']), opk=list(ext['opk']))
        arr, _ = scene.coded(ps[ci]['im_size'], 'uint8', 1)
        scene.write_tif(mon.tmp / f'im{n}.tif', arr)
    ck = dict(distort=bool(rs.rand() < 0.5), alpha=float(rs.choice([0.0, 0.6, 1.0])))
    io = dict(crs='EPSG:32735')
    snap = json.dumps([int_d, ext_d, ck, io], sort_keys=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        facs = [FrameCameras(int_d, ext_d, io_kwargs=io, cam_kwargs=ck)]
        if rs.rand() < 0.5:
            facs.append(FrameCameras(int_d, ext_d, io_kwargs=io, cam_kwargs=ck))
        mon.check(facs[0].filenames == set(ext_d), 'filenames of the factory')
        hist = []
        for step in range(case['steps']):
            op = rs.choice(['get', 'get', 'get', 'update', 'miss', 'write', 'use'])
            name = f'im{rs.randint(case["nim"])}.tif'
            fac = facs[rs.randint(len(facs))]
            hist.append((str(op), name))
            if op in ('get', 'update', 'use'):
                form = rs.randint(4)
                path = mon.tmp / name
                if form == 0:
                    cam = fac.get(name)
                elif form == 1:
                    cam = fac.get(path)
                elif form == 2:
                    cam = fac.get(fsspec.open(str(path), 'rb'))
                else:
                    with rio.open(path) as ds:
                        cam = fac.get(ds)
                q = truth[name]
                fresh = gen.make_camera(q, **ck)
                src = str(path)
                d = same(probes(cam, q, src, 'uint8', mon), probes(fresh, q, src, 'uint8', mon))
                mon.count('frame_gets')
                mon.check(d is None, 'camera from the factory differs from a camera with the recorded parameters', diff=d, history=hist, file=name)
                if op == 'update':
                    cam.update((1.0, 2.0, 300.0), (0.1, 0.0, 1.0))
            elif op == 'miss':
                from orthority.errors import ParamError

                try:
                    fac.get('nosuch.tif')
                except ParamError:
                    pass
                else:
                    mon.fail('camera returned for a file without parameters')
            elif op == 'write':
                fac.write_param(str(mon.tmp), overwrite=True)
            mon.check(json.dumps([int_d, ext_d, ck, io], sort_keys=True) == snap, 'caller dictionaries were modified', history=hist)
            mon.count('argument_snapshots')
    mon.state(tuple(hist))


def run_shared(case, mon, rs):
    """Factories made one after the other with the same argument dictionaries."""
    import random

    from orthority.factory import FrameCameras, RpcCameras
    from rasterio.crs import CRS

    from vlib import exifw, orient, params

    rng = random.Random(int(rs.randint(1 << 30)))
    kind = rng.choice(['exif', 'exif', 'osfm', 'csv', 'rpc'])
    io = rng.choice([{}, {}, dict(lla_crs='EPSG:4979')]) if kind in ('exif', 'csv') else {}
    if kind == 'csv':
        io['radians'] = rng.random() < 0.5
    ck = rng.choice([{}, dict(distort=False, alpha=0.5)]) if kind != 'rpc' else rng.choice([{}, dict(rpc_options=dict(rpc_max_iterations=40))])
    snap = json.dumps([io, ck], sort_keys=True)
    facs, places = [], []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for step in range(case['steps']):
            # places in different UTM zones and hemispheres
            lat, lon = rng.choice([-1, 1]) * rng.uniform(1, 60), 6 * rng.randrange(-29, 29) + rng.uniform(1, 5)
            want = orient.utm(lat, lon)
            if kind == 'exif':
                f = mon.tmp / f'im{step}.jpg'
                xmp = [('dji', 'GpsLatitude', f'{lat:.8f}'), ('dji', 'GpsLongtitude', f'{lon:+.8f}'), ('dji', 'AbsoluteAltitude', '+500.00'),
                       ('dji', 'GimbalRollDegree', '+1.00'), ('dji', 'GimbalPitchDegree', '-88.00'), ('dji', 'GimbalYawDegree', f'{rng.uniform(-180, 180):+.2f}')]  # fmt: skip
                exifw.write(f, (20, 16), dict(Make='DJI', Model='M', FocalLengthIn35mmFilm=20 + step), xmp, 'attr', seed=step)
                fac = FrameCameras.from_images([f], io_kwargs=io, cam_kwargs=ck)
                names = [f.name]
            elif kind == 'osfm':
                cam = dict(projection_type='brown', width=40, height=30, focal_x=1.0, focal_y=1.0, c_x=0.01, c_y=0.0, k1=0.01 * step, k2=0.0, p1=0.0, p2=0.0, k3=0.0)
                js = [dict(cameras={'v2 c': cam}, shots={'a.jpg': dict(rotation=[3.1, 0.1, 0.02], translation=[1.0, 2.0, 50.0], camera='v2 c')}, reference_lla=dict(latitude=lat, longitude=lon, altitude=5.0))]
                f = mon.tmp / f'r{step}.json'
                f.write_text(json.dumps(js))
                fac = FrameCameras(f, f, io_kwargs=io, cam_kwargs=ck)
                names = ['a.jpg']
            elif kind == 'csv':
                f = mon.tmp / f'e{step}.csv'
                f.write_text(f'filename,latitude,longitude,altitude,roll,pitch,yaw\na.tif,{lat!r},{lon!r},500.5,0.1,0.2,{0.3 * step!r}\nb.tif,{lat!r},{lon!r},510.5,0.1,-0.2,0.3\n')
                d, _ = params.int_dict(rng, 1)
                fac = FrameCameras(d, f, io_kwargs=io, cam_kwargs=ck)
                names = ['a.tif', 'b.tif']
            else:
                from rasterio.rpc import RPC

                rp = gen.rpc_param(rng, size=(40, 30), loc=(lon, lat))
                f = mon.tmp / f'sat{step}.tif'
                import rasterio as rio

                with rio.open(f, 'w', driver='GTiff', width=40, height=30, count=1, dtype='uint8') as ds:
                    ds.rpcs = RPC(**rp['rpc'])
                    ds.write(np.full((1, 30, 40), 5, np.uint8))
                fac = RpcCameras.from_images([f], io_kwargs=io, cam_kwargs=ck)
                names, want = [f.name], None
            facs.append(fac)
            if want:
                mon.check(fac.crs is not None and fac.crs == CRS.from_string(want), 'the world CRS of a factory depends on those made before', kind=kind, step=step, got=str(fac.crs), want=want)
            for n in names:
                cam = fac.get(n)
                if want:
                    back = orient.project(want, 'EPSG:4979', *np.asarray(cam.pos, float).ravel())[:, 0]
                    mon.check(abs(back[0] - lon) < 0.01 and abs(back[1] - lat) < 0.01, 'camera position of a factory depends on those made before', kind=kind, step=step, got=back.tolist(), want=[lon, lat])
                else:
                    r = rp['rpc']
                    got = cam.world_to_pixel(np.array([[r['long_off']], [r['lat_off']], [r['height_off']]]))
                    w = ref.rpc_project(r, *[np.array([r[q]]) for q in ('long_off', 'lat_off', 'height_off')])
                    mon.check(np.abs(got - w).max() < 1e-4, 'RPC camera of a factory depends on those made before', step=step)
            mon.check(json.dumps([io, ck], sort_keys=True, default=str) == snap, 'caller dictionaries were modified', kind=kind, io=str(io), ck=str(ck))
            mon.count('shared_factories')
    mon.state('shared', kind, case['steps'])


def norm_rpc(d):
    return {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in d.items()}


def run_rpcs(case, mon, rs):
    from orthority.camera import RpcCamera
    from orthority.enums import CameraType
    from orthority.factory import RpcCameras
    from orthority.fit import refine_rpc

    rps = case['rps']
    rpc_d, cur = {}, {}
    for k, rp in enumerate(rps):
        key = f'sat{k}' if case['stem'] else f'sat{k}.tif'
        rpc_d[key] = dict(cam_type=CameraType.rpc, im_size=tuple(rp['im_size']), rpc=deep(rp['rpc']))
        cur[f'sat{k}.tif'] = deep(rp['rpc'])
    crs = gen.utm_epsg(rps[0]['rpc']['long_off'], rps[0]['rpc']['lat_off']) if rs.rand() < 0.6 else None
    ck = dict(crs=crs) if crs else {}
    snap = json.dumps([rpc_d, ck], sort_keys=True)
    hist = []

    def gcps_of(k, m):
        r = rps[k]['rpc']
        lon = r['long_off'] + r['long_scale'] * rs.uniform(-0.7, 0.7, m)
        lat = r['lat_off'] + r['lat_scale'] * rs.uniform(-0.7, 0.7, m)
        hh = r['height_off'] + r['height_scale'] * rs.uniform(-0.5, 0.5, m)
        ji = ref.rpc_project(r, lon, lat, hh) + rs.uniform(-3, 3, (2, 1)) + rs.uniform(-0.3, 0.3, (2, m))
        return [dict(id=str(i), ji=tuple(map(float, ji[:, i])), xyz=(float(lon[i]), float(lat[i]), float(hh[i])), info='') for i in range(m)]

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fac = RpcCameras(rpc_d, cam_kwargs=ck)
        other = RpcCameras(rpc_d, cam_kwargs=ck)
        for step in range(case['steps']):
            op = rs.choice(['get', 'get', 'refine', 'write', 'other'])
            k = rs.randint(len(rps))
            name = f'sat{k}.tif'
            hist.append((str(op), k))
            if op in ('get', 'other') or step == case['steps'] - 1:
                f, params = (fac, cur[name]) if op != 'other' else (other, rps[k]['rpc'])
                cam = f.get(name if rs.rand() < 0.5 else Path('/some/dir') / name)
                r = rps[k]['rpc']
                n = 12
                lon = r['long_off'] + r['long_scale'] * rs.uniform(-0.8, 0.8, n)
                lat = r['lat_off'] + r['lat_scale'] * rs.uniform(-0.8, 0.8, n)
                hh = r['height_off'] + r['height_scale'] * rs.uniform(-0.8, 0.8, n)
                xyz = gen.lonlat_to_crs(crs, lon, lat, hh)
                got = cam.world_to_pixel(xyz)
                want = ref.rpc_project(params, lon, lat, hh)
                mon.count('rpc_gets')
                mon.check(np.abs(got - want).max() < 1e-4, 'camera from the factory does not have the current RPC parameters', err=np.abs(got - want).max(), history=hist, file=name, stem=case['stem'])
                ji = rs.uniform(5, 40, (2, 5))
                fresh = RpcCamera(tuple(rps[k]['im_size']), params, crs=crs)
                mon.check(np.allclose(cam.pixel_to_world_z(ji, r['height_off']), fresh.pixel_to_world_z(ji, r['height_off']), rtol=0, atol=1e-6), 'inverse projection is not that of the current RPC parameters', history=hist)
                mon.check(tuple(cam.im_size) == tuple(rps[k]['im_size']), 'im_size of a factory camera')
            elif op == 'refine':
                gd = {}
                for kk in range(len(rps)):
                    if kk == k or rs.rand() < 0.4:
                        key = f'sat{kk}' if rs.rand() < 0.4 else f'sat{kk}.tif'
                        if case['stem']:
                            key = f'sat{kk}'
                        gd[key] = gcps_of(kk, int(rs.randint(2, 6)))
                method = str(rs.choice(['shift', 'shift-drift']))
                gs = json.dumps(gd, sort_keys=True)
                fac.refine(gd, fit_kwargs=dict(method=method))
                mon.check(json.dumps(gd, sort_keys=True) == gs, 'GCPs were modified by refine()', history=hist)
                mon.count('refines')
                for key, g in gd.items():
                    nm = f'{Path(key).stem}.tif'
                    cur[nm] = deep(refine_rpc(deep(cur[nm]), deep(g), method=method))
            elif op == 'write':
                fac.write_param(str(mon.tmp), overwrite=True)
            mon.check(json.dumps([rpc_d, ck], sort_keys=True) == snap, 'caller dictionaries were modified', history=hist)
            mon.count('argument_snapshots')
    mon.state(tuple(hist), case['stem'])


def run_rpccam(case, mon, rs):
    from orthority.camera import RpcCamera

    rp = case['rp']
    r = deep(rp['rpc'])
    crs = gen.utm_epsg(r['long_off'], r['lat_off']) if case['crs'] else None
    opts = dict(rpc_max_iterations=50)
    snap = json.dumps([r, opts], sort_keys=True)
    cam = RpcCamera(tuple(rp['im_size']), r, rpc_options=opts, crs=crs)
    w, h = rp['im_size']
    z = r['height_off']

    def probe(c):
        ji = ref.border(w, h, 4)
        a = c.pixel_to_world_z(ji, z)
        return dict(a=a, b=c.world_to_pixel(a), pb=c.pixel_boundary(), wb=c.world_boundary(z), n=c.pixel_boundary(num_pts=16))

    for step in range(case['steps']):
        op = rs.choice(['w2p', 'p2w', 'wb', 'nan', 'clobber', 'fail'])
        ji = rs.uniform(0, 30, (2, 4))
        zz = z + rs.uniform(-50, 50, 4)
        if op == 'nan':
            ji[0, 1] = np.nan
            zz[2] = np.nan
        f = frozen(ji, zz)
        x = cam.pixel_to_world_z(ji, zz)
        unchanged(mon, f, ji, zz, op='pixel_to_world_z')
        f = frozen(x)
        y = cam.world_to_pixel(x)
        unchanged(mon, f, x, op='world_to_pixel')
        if op == 'clobber':
            x[...], y[...] = 0, 0
            cam.pixel_boundary()[...] = 0
        if op == 'fail':
            try:
                cam.world_to_pixel(np.zeros((2, 2)))
            except ValueError:
                pass
        d = same(probe(cam), probe(RpcCamera(tuple(rp['im_size']), deep(rp['rpc']), rpc_options=dict(opts), crs=crs)))
        mon.count('camera_probes')
        mon.check(d is None, 'RPC camera differs from a new camera with the same parameters', diff=d, op=str(op))
    mon.check(json.dumps([r, opts], sort_keys=True) == snap, 'RPC parameter arguments were modified')


def run_sibling(case, mon, rs):
    """Cameras that differ from one another in one parameter each answer from their own parameters."""
    import random

    from checks import c02, c06

    rng = random.Random(case['seed'])
    p = case['p']
    w, h = p['im_size']
    dtype = rng.choice(['uint8', 'float32', 'uint16'])
    arr, code = scene.coded((w, h), dtype, 2)
    src = scene.write_tif(mon.tmp / 'src.tif', arr)
    alpha, interp = rng.choice([0.0, 0.4, 1.0]), rng.choice(['bilinear', 'cubic', 'nearest'])
    lin_m = dict(nearest=0.6, bilinear=1.1, cubic=2.1)[interp]
    keep, hist = [], []
    for k in range(5):
        q = deep(p)
        what = rng.choice(['same', 'coeff', 'coeff', 'coeffs', 'cx', 'focal', 'xyz', 'opk', 'model', 'size']) if k else 'same'
        dk = [c for c in gen.DIST_KEYS if q.get(c)]
        if what == 'coeff' and dk:
            c = rng.choice(dk)
            q[c] = q[c] * 0.5
        elif what == 'coeffs':
            [q.pop(c, None) for c in gen.DIST_KEYS]
            gen.dist_param(rng, q)
        elif what == 'cx':
            q['cy'] = q.get('cy', 0.0) + 0.02
        elif what == 'focal':
            q['focal_len'] = [v * 1.1 for v in q['focal_len']] if isinstance(q['focal_len'], (list, tuple)) else q['focal_len'] * 1.1
        elif what == 'xyz':
            q['xyz'] = [q['xyz'][0] + 20, q['xyz'][1], q['xyz'][2] + 10]
        elif what == 'opk':
            q['opk'] = [q['opk'][0], q['opk'][1], q['opk'][2] + 0.4]
        elif what == 'model' and q['model'] in ('brown', 'fisheye', 'pinhole'):
            q['model'] = 'opencv' if q['model'] != 'fisheye' else 'fisheye'
        elif what == 'size':
            q['im_size'] = [w, h]
        hist.append((what, q['model']))
        c02.run(dict(p=q, alpha=alpha or 0.5, seed=int(rs.randint(1 << 30))), mon)
        cam = gen.make_camera(q, distort=False, alpha=alpha)
        keep.append((cam, q))
        if rng.random() < 0.4:
            cam, q = rng.choice(keep)  # an earlier camera
        im = cam.read(src, interp=interp)
        mon.count('siblings')
        if q['model'] == 'pinhole':
            mon.check(np.array_equal(im, arr), 'a pinhole camera changed the image', history=hist)
            continue
        pos, K = c06.undistort_expect(cam, q)
        inn = c06.inside(pos, w, h, lin_m)
        c06.check_coded(im, pos, code, inn, interp, dtype, mon, 0.01, 'undistorted pixel does not hold the source value at the distorted position of its own camera', history=hist)
    mon.state('sibling', p['model'], tuple(hist))


def run_rpcsib(case, mon, rs):
    """RPC cameras that differ from one another in one parameter."""
    import random

    from orthority.camera import RpcCamera

    rng = random.Random(case['seed'])
    rp = case['rp']
    w, h = rp['im_size']
    keep = []
    for k in range(4):
        r = deep(rp['rpc'])
        if k:
            key = rng.choice(['line_off', 'samp_off', 'line_scale', 'height_off', 'lat_off', 'samp_num_coeff', 'line_den_coeff', 'line_num_coeff', 'long_off'])
            if key.endswith('_off'):
                r[key] += dict(height_off=5.0, lat_off=1e-5, long_off=1e-5).get(key, 2.0)
            elif key == 'line_scale':
                r[key] *= 1.02
            else:
                r[key][rng.choice([0, 1, 2])] += 1e-3
        crs = gen.utm_epsg(rp['rpc']['long_off'], rp['rpc']['lat_off']) if case['utm'] else None
        if rng.random() < 0.2:
            crs = None
        keep.append((RpcCamera((w, h), r, crs=crs), r, crs))
        cam, r, crs = keep[-1] if rng.random() < 0.7 else rng.choice(keep)
        ji = ref.border(w, h, 4)
        z = r['height_off'] + 3.0
        xyz = cam.pixel_to_world_z(ji, z)
        want = ref.rpc_project(r, *gen.rpc_to_lonlat(crs, xyz))
        mon.count('siblings')
        mon.check(np.abs(want - ji).max() < 0.11, 'RPC camera does not project with its own parameters', err=float(np.abs(want - ji).max()))
        mon.check(np.abs(cam.world_to_pixel(xyz) - want).max() < 1e-3, 'RPC camera does not project with its own parameters (world to pixel)', err=float(np.abs(cam.world_to_pixel(xyz) - want).max()))
    mon.state('rpcsib', case['utm'])


def run(case, mon):
    rs = np.random.RandomState(case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, mon, rs)
