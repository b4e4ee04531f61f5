"""Parameters written to Orthority files read back unchanged."""
import copy
import io
import json
import math
import random
import warnings

import numpy as np

from vlib import gen, params

ID = 'C16'
RULE = (
    'Random interior / exterior / RPC / GCP dictionaries (full precision values, awkward camera IDs and file names, many CRSs incl. compound and foot units) written and read back through paths, OpenFile, file objects and fsspec; '
    'deep equality with types and order, GeoJSON positions against PROJ, and camera factories from CSV / OpenSfM / EXIF / RPC / GCP inputs exported and re-read, comparing all cameras. Non-trivial always.'
)
ASSUME = ['EPSG:4979 positions computed by PROJ through rasterio']
NEED = ['dicts', 'positions', 'exports', 'cameras']
TIMEOUT = 120
DATA = '/repo/tests/data'
CRSS = params.PROJ + [
    'EPSG:32735+5773', '+proj=utm +zone=35 +south +datum=WGS84 +units=us-ft +no_defs', '+proj=utm +zone=35 +south +datum=WGS84 +units=m +vunits=ft +no_defs',
    '+proj=tmerc +lat_0=0 +lon_0=25 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +geoidgrids=egm96_15.gtx +units=m +no_defs',
]  # fmt: skip
params.AREA.update({
    'EPSG:32735+5773': (5e5, 6.3e6), CRSS[-3]: (1.64e6, 2.0e7), CRSS[-2]: (5e5, 6.3e6), CRSS[-1]: (-5.5e4, -3.73e6),
})  # fmt: skip
VIA = ['str', 'path', 'ofile', 'fobj', 'mem', 'stringio']
EXPORT = ['oty', 'csv', 'osfm', 'exif', 'rpc', 'rpc_gcps', 'rpc_im', 'csv_legacy', 'dict']


def cases(rng, tier):
    n = 900 if tier == 'quick' else 9000
    out = []
    for k in range(n):
        m = ['int', 'ext', 'rpc', 'gcps', 'export'][k % 5]
        out.append(dict(m=m, seed=rng.randrange(1 << 30), n=rng.choice([1, 1, 2, 3, 5, 16, 40]), crs=rng.choice(CRSS), crs_as=rng.choice(['str', 'obj', 'wkt']), w=rng.choice(VIA), r=rng.choice(VIA), exp=EXPORT[(k // 5) % len(EXPORT)],
                        kw=rng.choice([{}, dict(distort=False), dict(distort=False, alpha=0.3)])))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def write(fn, path, via, overwrite=False):
    """Call ``fn(file, overwrite)`` with ``path`` in the requested form."""
    import fsspec

    if via == 'path':
        fn(path)
    elif via == 'ofile':
        fn(fsspec.open(str(path), 'wt'))
    elif via == 'fobj':
        with open(path, 'wt', encoding='utf-8') as f:
            fn(f)
    elif via == 'mem':
        u = f'memory://v16/{path.parent.name}/{path.name}'
        fs = fsspec.filesystem('memory')
        if fs.exists(u):
            fs.rm(u)
        fn(u)
        path.write_bytes(fs.cat(u))
        fs.rm(u)
    elif via == 'stringio':
        s = io.StringIO()
        fn(s)
        path.write_text(s.getvalue(), encoding='utf-8')
    else:
        fn(str(path))


def read(fn, path, via):
    import fsspec

    if via == 'path':
        return fn(path)
    if via == 'ofile':
        return fn(fsspec.open(str(path), 'rt'))
    if via == 'fobj':
        with open(path, 'rt', encoding='utf-8') as f:
            return fn(f)
    if via == 'mem':
        u = f'memory://v16/{path.parent.name}/r_{path.name}'
        fs = fsspec.filesystem('memory')
        fs.pipe(u, path.read_bytes())
        try:
            return fn(u)
        finally:
            fs.rm(u)
    if via == 'stringio':
        s = io.StringIO(path.read_text(encoding='utf-8'))
        s.name = path.name
        return fn(s)
    return fn(str(path))


def to_lla(crs, pts):
    from rasterio.crs import CRS
    from rasterio.warp import transform

    p = np.array(pts, dtype=float).T
    return np.array(transform(crs, CRS.from_epsg(4979), *[list(v) for v in p]))


def check_positions(mon, feats, crs, xyzs):
    """GeoJSON coordinates are the WGS84 lon, lat, height of the positions."""
    want = to_lla(crs, xyzs)
    got = np.array([f['geometry']['coordinates'] for f in feats]).T
    ok = got.shape == want.shape
    mon.check(ok, 'a GeoJSON position is missing', got=got.shape, want=want.shape)
    d = np.abs(got - want)
    mon.check(d[:2].max() < 1e-9 and d[2].max() < 1e-5, 'the GeoJSON position is not the WGS84 location', worst=d.max(axis=1).tolist())
    mon.count('positions', len(feats))


def same_crs(mon, a, b, xyzs, where):
    mon.check(a is not None and b is not None, 'the CRS is lost', where=where)
    d = np.abs(to_lla(a, xyzs) - to_lla(b, xyzs))
    mon.check(d[:2].max() < 1e-10 and d[2].max() < 1e-6, 'the CRS read back is another one', where=where, worst=d.max(axis=1).tolist(), a=a.to_string()[:200], b=b.to_string()[:200])


def _run(case, mon):
    from orthority import param_io
    from rasterio.crs import CRS

    rng = random.Random(case['seed'])
    tmp = mon.tmp
    m, n = case['m'], case['n']
    if m == 'export':
        return export(case, mon, rng)
    if m == 'int':
        d, _ = params.int_dict(rng, min(n, len(params.NAMES)))
        for v in d.values():
            # extreme and integer-valued magnitudes
            for k in list(v):
                if k[0] in 'kps' and isinstance(v[k], float) and rng.random() < 0.2:
                    v[k] = rng.choice([1e-17, -3.0e-5, 0.0, -0.0, 1.0, 5e-324, 123456789.123456789, 1e22])
        orig = copy.deepcopy(d)
        f = tmp / 'p.yaml'
        write(lambda o: param_io.write_int_param(o, d), f, case['w'])
        got = read(param_io.read_oty_int_param, f, case['r'])
    elif m == 'ext':
        ids = rng.sample(params.NAMES, rng.choice([1, 2, 5]))
        d = params.ext_dict(rng, n, rng.choice([ids, None]), case['crs'])
        orig = copy.deepcopy(d)
        f = tmp / 'p.geojson'
        crs = CRS.from_string(case['crs'])
        c = dict(str=case['crs'], obj=crs, wkt=crs.to_wkt())[case['crs_as']]
        write(lambda o: param_io.write_ext_param(o, d, c), f, case['w'])

        def rd(o):
            r = param_io.OtyReader(o)
            return r.read_ext_param(), r.crs

        got, rcrs = read(rd, f, case['r'])
        js = json.loads(f.read_text(encoding='utf-8'))
        mon.check(js['type'] == 'FeatureCollection' and [q['properties']['filename'] for q in js['features']] == list(d), 'GeoJSON features do not match the images')
        xyzs = [v['xyz'] for v in d.values()]
        check_positions(mon, js['features'], crs, xyzs)
        same_crs(mon, crs, rcrs, xyzs, 'exterior')
    elif m == 'rpc':
        d = params.rpc_dict(rng, n)
        orig = copy.deepcopy(d)
        f = tmp / 'p.yaml'
        write(lambda o: param_io.write_rpc_param(o, d), f, case['w'])
        got = read(param_io.read_oty_rpc_param, f, case['r'])
    else:
        d = params.gcp_dict(rng, params.filenames(rng, n))
        orig = copy.deepcopy(d)
        f = tmp / 'p.geojson'
        write(lambda o: param_io.write_gcps(o, d), f, case['w'])
        got = read(param_io.read_oty_gcps, f, case['r'])
        js = json.loads(f.read_text(encoding='utf-8'))
        check_positions(mon, js['features'], CRS.from_epsg(4979), [g['xyz'] for v in d.values() for g in v])
        # features of different images may be in any order, e.g. after editing in a GIS
        rng.shuffle(js['features'])
        fs = tmp / 's.geojson'
        fs.write_text(json.dumps(js), encoding='utf-8')
        mixed = read(param_io.read_oty_gcps, fs, case['r'])
        key = lambda g: json.dumps(g, sort_keys=True, default=str)
        mon.check({k: sorted(map(key, v)) for k, v in mixed.items()} == {k: sorted(map(key, v)) for k, v in got.items()}, 'GCPs read from reordered features differ')
        mon.count('shuffled_gcps')
    mon.check(params.same(d, orig), 'writing modified the parameters', m=m)
    mon.check(params.same(got, orig), 'parameters read back differ', m=m, diff=diff(got, orig))
    # a second generation is the same again
    f2 = f.with_name('q' + f.suffix)
    if m == 'ext':
        param_io.write_ext_param(f2, got, rcrs)
        r2 = param_io.OtyReader(f2)
        mon.check(params.same(r2.read_ext_param(), orig), 'second generation differs', m=m)
        same_crs(mon, crs, r2.crs, xyzs, 'second generation')
    else:
        w, r = dict(int=(param_io.write_int_param, param_io.read_oty_int_param), rpc=(param_io.write_rpc_param, param_io.read_oty_rpc_param), gcps=(param_io.write_gcps, param_io.read_oty_gcps))[m]
        w(f2, got)
        mon.check(params.same(r(f2), orig), 'second generation differs', m=m)
    mon.count('dicts')
    mon.state(m, n, case['w'], case['r'], case['crs'] if m == 'ext' else None)


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return dict(keys=[str(list(a))[:150], str(list(b))[:150]])
        for k in a:
            if not params.same(a[k], b[k]):
                return {str(k): diff(a[k], b[k])}
    return [repr(a)[:150], repr(b)[:150]]


def osfm_json(rng, path, n):
    """A reconstruction with ``n`` shots of 1 - 3 cameras."""
    cams = {}
    for k in range(rng.choice([1, 2, 3])):
        w, h = rng.choice([(4000, 3000), (600, 400), (300, 400)])
        t = rng.choice(['perspective', 'brown', 'fisheye', 'simple_radial', 'radial'])
        c = dict(projection_type=t, width=w, height=h)
        if t in ('perspective', 'fisheye'):
            c.update(focal=rng.uniform(0.7, 1.5), k1=rng.uniform(-0.02, 0.02), k2=rng.uniform(-0.005, 0.005))
        elif t == 'brown':
            f = rng.uniform(0.7, 1.5)
            c.update(focal_x=f, focal_y=f * rng.uniform(0.98, 1.02), c_x=rng.uniform(-0.02, 0.02), c_y=rng.uniform(-0.02, 0.02), k1=rng.uniform(-0.02, 0.02), k2=rng.uniform(-0.005, 0.005), p1=1e-4, p2=-2e-4, k3=1e-4)
        else:
            f = rng.uniform(0.7, 1.5)
            c.update(focal_x=f, focal_y=f, c_x=0.01, c_y=-0.01, k1=rng.uniform(-0.02, 0.02))
            if t == 'radial':
                c['k2'] = 0.001
        cams[f'v2 dji cam{k} {w} {h} {t} 0.8'] = c
    lat, lon = rng.uniform(-70, 70), rng.uniform(-179, 179)
    shots = {}
    for f in params.filenames(rng, n):
        # nearly nadir: camera z axis down
        k = rng.uniform(-math.pi, math.pi)
        tilt = rng.uniform(0, 0.3)
        v = np.array([math.cos(k), math.sin(k), 0]) * (math.pi - tilt)
        shots[f] = dict(rotation=v.tolist(), translation=[rng.uniform(-80, 80), rng.uniform(-80, 80), rng.uniform(30, 150)], camera=rng.choice(list(cams)), orientation=1)
    path.write_text(json.dumps([dict(cameras=cams, shots=shots, reference_lla=dict(latitude=lat, longitude=lon, altitude=rng.choice([0.0, 55.5])), points={})]))


def export(case, mon, rng):
    import fsspec
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras

    tmp, ex, n = mon.tmp, case['exp'], case['n']
    out = tmp / 'out'
    out.mkdir()
    kw = case['kw']
    rpc = ex.startswith('rpc')
    io_kw = {}
    if rpc:
        kw = {}
        d = params.rpc_dict(rng, min(n, 5), '.tif')
        if ex == 'rpc_im':
            make = lambda: RpcCameras.from_images([f'{DATA}/rpc/qb2_basic1b.tif'])
            cams = make()
            if rng.random() < 0.5:
                cams.refine(rng.choice([f'{DATA}/rpc/gcps.geojson', [f'{DATA}/rpc/qb2_basic1b.tif']]), fit_kwargs=dict(method=rng.choice(['shift', 'shift-drift'])))
        else:
            cams = RpcCameras(copy.deepcopy(d))
            if ex == 'rpc_gcps':
                g = {}
                for f, r in d.items():
                    if rng.random() < 0.8:
                        g[f] = params.gcp_list(rng, (r['rpc']['long_off'], r['rpc']['lat_off']), rng.choice([2, 4, 7]), d=2e-4)
                if not g:
                    mon.trivial = 'no GCPs'
                    return
                if rng.random() < 0.5:
                    cams.get(next(iter(d)))
                cams.refine(copy.deepcopy(g), fit_kwargs=dict(method=rng.choice(['shift', 'shift-drift'])))
        # a CRS only concerns the cameras, not the parameters
        names = sorted(cams.filenames)
        write_out(cams, out, case)
        again = RpcCameras(out / 'rpc_param.yaml')
        if ex == 'rpc_gcps':
            mon.check(params.same(param_io.read_oty_gcps(out / 'gcps.geojson'), g), 'exported GCPs differ')
        elif ex == 'rpc':
            mon.check(not (out / 'gcps.geojson').exists(), 'GCPs exported from nowhere')
    else:
        if ex in ('oty', 'dict'):
            di, _ = params.int_dict(rng, rng.choice([1, 2, 4]))
            de = params.ext_dict(rng, n, list(di), case['crs'])
            if ex == 'dict':
                a, b = copy.deepcopy(di), copy.deepcopy(de)
                io_kw = dict(crs=case['crs'])
            else:
                a, b = tmp / 'i.yaml', tmp / 'e.geojson'
                param_io.write_int_param(a, di)
                param_io.write_ext_param(b, de, case['crs'])
        elif ex in ('csv', 'csv_legacy'):
            di, _ = params.int_dict(rng, 1)
            a, b = tmp / 'i.yaml', tmp / 'e.csv'
            param_io.write_int_param(a, di)
            crs = rng.choice([c for c in params.PROJ])
            x0, y0 = params.AREA[crs]
            rows = [] if ex == 'csv_legacy' else ['filename,x,y,z,omega,phi,kappa' if (o := rng.random() < 0.5) else 'filename,latitude,longitude,altitude,roll,pitch,yaw']
            for k in range(n):
                if ex == 'csv_legacy' or o:
                    v = [x0 + rng.uniform(-500, 500), y0 + rng.uniform(-500, 500), rng.uniform(100, 500), rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-180, 180)]
                else:
                    v = [-33.5 + rng.uniform(-0.01, 0.01), 24.5 + rng.uniform(-0.01, 0.01), rng.uniform(100, 500), rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-180, 180)]
                sep = ' ' if ex == 'csv_legacy' else ','
                rows.append(sep.join([f'im_{k:03d}', *map(repr, v)]))
            b.write_text('\n'.join(rows) + '\n')
            io_kw = dict(crs=crs)
        elif ex == 'osfm':
            a = b = tmp / 'reconstruction.json'
            osfm_json(rng, a, n)
            if rng.random() < 0.3:
                io_kw = dict(crs='EPSG:3857')
        if ex == 'exif':
            from pathlib import Path

            fs = sorted(map(str, Path(DATA).glob('odm/**/*.JPG'))) or sorted(map(str, Path(DATA).glob('odm/**/*.tif')))
            fs = [f for f in fs if 'odm_dem' not in f]
            rng.shuffle(fs)
            fs = fs[: rng.randrange(1, len(fs) + 1)]
            cams = FrameCameras.from_images(fs, io_kwargs=rng.choice([None, dict(crs='EPSG:3857')]), cam_kwargs=kw)
        else:
            cams = FrameCameras(a, b, io_kwargs=io_kw, cam_kwargs=kw)
        names = sorted(cams.filenames)
        write_out(cams, out, case)
        again = FrameCameras(out / 'int_param.yaml', out / 'ext_param.geojson', cam_kwargs=kw)
        e = param_io.OtyReader(out / 'ext_param.geojson').read_ext_param()
        js = json.loads((out / 'ext_param.geojson').read_text(encoding='utf-8'))
        xyzs = [e[q['properties']['filename']]['xyz'] for q in js['features']]
        check_positions(mon, js['features'], cams.crs, xyzs)
        same_crs(mon, cams.crs, again.crs, xyzs, 'export')
    mon.check(sorted(again.filenames) == names, 'exported images differ', got=sorted(again.filenames)[:5], want=names[:5])
    mon.count('exports')
    order = names[:]
    rng.shuffle(order)
    for f in order[:12]:
        c1 = cams.get(f)
        p1 = probe(c1, rpc)
        c2 = again.get(f)
        p2 = probe(c2, rpc)
        mon.check(type(c1) is type(c2) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(p1, p2)), 'a camera of exported parameters projects differently', ex=ex, worst=[float(np.nanmax(np.abs(x - y))) for x, y in zip(p1, p2) if x.shape == y.shape])
        mon.count('cameras')
    mon.state('export', ex, n, str(kw))


def write_out(cams, out, case):
    import fsspec

    w = case['w']
    if w in ('path', 'fobj'):
        cams.write_param(out)
    elif w == 'ofile':
        cams.write_param(fsspec.open(str(out), 'wt'))
    else:
        cams.write_param(str(out))


def probe(cam, rpc):
    w, h = cam.im_size
    rs = np.random.RandomState(1)
    ji = np.vstack([rs.uniform(0, w - 1, 15), rs.uniform(0, h - 1, 15)])
    z = 10.0 if not rpc else 100.0
    xyz = cam.pixel_to_world_z(ji, z)
    ji2 = cam.world_to_pixel(xyz + np.array([[1e-5], [1e-5], [0.7]]) if rpc else xyz + np.array([[1.0], [2.0], [0.7]]))
    return np.array([w, h], float), xyz, ji2
