"""OpenSfM and EXIF / XMP inputs convert to equivalent cameras."""
import json
import math
import random
import warnings

import numpy as np

from vlib import exifw, orient, params, ref

ID = 'C18'
RULE = (
    'Random OpenSfM reconstructions (all supported projection types, any orientation, several cameras, any reference position) projected through the resulting cameras and through the OpenSfM equations; '
    'random JPEG / TIFF images with hand-written EXIF and XMP (tag sets complete, incomplete, competing, absent; attribute and element XMP; all namespaces) and the cameras, positions and errors compared with the tags. Non-trivial always.'
)
ASSUME = ['OpenSfM 0.5 camera models and angle-axis convention; reconstruction axes are taken as world axes at the reference position (documented approximation)', 'DJI gimbal pitch is -90 degrees at nadir']
NEED = ['shots', 'osfm_points', 'osfm_lla_crs', 'images', 'exif_points', 'errors', 'dewarp', 'focal_sensor', 'focal35', 'xmp_position', 'gps_position']
TIMEOUT = 120


def cases(rng, tier):
    n = 5000 if tier == 'quick' else 60000
    out = []
    for k in range(n):
        if k % 2:
            out.append(dict(m='osfm', seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 5, 12]), crs=rng.choice([None, None, 'utm', 'EPSG:3857', 'merc']), src=rng.choice(['one', 'one', 'cameras', 'obj']), near=rng.random() < 0.6))
        else:
            out.append(dict(m='exif', seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 4, 9]), crs=rng.choice([None, None, 'utm', 'EPSG:3857']), miss=rng.choice([None, None, None, None, 'int', 'lla', 'rpy', 'xmp', 'all']), via=rng.choice(['str', 'path', 'ds', 'ofile'])))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (osfm if case['m'] == 'osfm' else exif)(case, mon)


def rodrigues(v):
    th = float(np.linalg.norm(v))
    if th < 1e-300:
        return np.eye(3)
    k = np.asarray(v) / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K


def osfm_project(c, x, y):
    """OpenSfM pixel coordinates of normalised camera coordinates."""
    g = lambda n: c.get(n, 0.0)
    t = c['projection_type'].lower()
    r2 = x * x + y * y
    if t == 'fisheye':
        r = np.sqrt(r2)
        th = np.arctan(r)
        d = th * (1 + th**2 * (g('k1') + th**2 * g('k2'))) / np.where(r > 0, r, 1)
        d = np.where(r > 1e-12, d, 1)
        xd, yd = d * x, d * y
    elif t == 'brown':
        d = 1 + r2 * (g('k1') + r2 * (g('k2') + r2 * g('k3')))
        xd = x * d + 2 * g('p1') * x * y + g('p2') * (r2 + 2 * x * x)
        yd = y * d + 2 * g('p2') * x * y + g('p1') * (r2 + 2 * y * y)
    else:
        d = 1 + r2 * (g('k1') + r2 * g('k2'))
        xd, yd = x * d, y * d
    fx, fy = (c['focal'],) * 2 if 'focal' in c else (c['focal_x'], c['focal_y'])
    m = max(c['width'], c['height'])
    return np.array([(fx * xd + g('c_x')) * m + (c['width'] - 1) / 2, (fy * yd + g('c_y')) * m + (c['height'] - 1) / 2])


def osfm(case, mon):
    from orthority.factory import FrameCameras
    from orthority.param_io import OsfmReader, read_osfm_int_param
    from rasterio.crs import CRS

    rng = random.Random(case['seed'])
    cams = {}
    for k in range(rng.choice([1, 1, 2, 3])):
        w, h = rng.choice([(4000, 3000), (600, 400), (300, 400), (500, 500)])
        t = rng.choice(['perspective', 'brown', 'fisheye', 'simple_radial', 'radial'])
        c = dict(projection_type=t if rng.random() < 0.8 else t.upper(), width=w, height=h)
        f = rng.uniform(0.7, 1.5)
        u = lambda a: rng.uniform(-a, a)
        if t in ('perspective', 'fisheye'):
            c.update(focal=f, k1=u(0.05), k2=u(0.02))
        elif t == 'brown':
            c.update(focal_x=f, focal_y=f * rng.choice([1, rng.uniform(0.97, 1.03)]), c_x=u(0.03), c_y=u(0.03), k1=u(0.05), k2=u(0.02), p1=u(0.003), p2=u(0.003), k3=u(0.01))
        else:
            c.update(focal_x=f, focal_y=f * rng.choice([1, rng.uniform(0.97, 1.03)]), c_x=u(0.03), c_y=u(0.03), k1=u(0.05))
            if t == 'radial':
                c['k2'] = u(0.02)
        keys = list(c)
        rng.shuffle(keys)
        cams[rng.choice(['', 'v2 ', 'v2 ']) + rng.choice(['dji', 'dji', 'mavic v2 pro', 'v2']) + f' cam{k} {w} {h}'] = {q: c[q] for q in keys}
    lat, lon, alt = rng.choice([rng.uniform(-70, -0.5), rng.uniform(0.5, 70)]), rng.uniform(-178, 178), rng.choice([0.0, 55.5, -20.0, 1700.0])
    world = case['crs']
    if world == 'utm' or world is None:
        want_crs = orient.utm(lat, lon)
    elif world == 'merc':
        want_crs = f'+proj=tmerc +lat_0={lat:.3f} +lon_0={lon:.3f} +k=1 +datum=WGS84 +units=m +no_defs'
    else:
        want_crs = world
    lla_crs = rng.choice([None, None, 'EPSG:4979', '+proj=longlat +ellps=intl +towgs84=-87,-98,-121 +no_defs', '+proj=longlat +ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7 +no_defs'])
    ref_xyz = orient.project(lla_crs or 'EPSG:4326', want_crs, lon, lat, alt)[:, 0]
    shots = {}
    for f in params.filenames(rng, case['n']):
        if case['near']:
            k, tilt = rng.uniform(-math.pi, math.pi), rng.uniform(0, 1.0)
            v = np.array([math.cos(k), math.sin(k), rng.uniform(-0.2, 0.2)])
            v = v / np.linalg.norm(v) * (math.pi - tilt)
        else:
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            v = v / np.linalg.norm(v) * rng.choice([rng.uniform(0, math.pi), rng.uniform(math.pi, 6), 1e-9])
        # gimbal lock of omega, phi, kappa excluded
        R = rodrigues(v).T @ np.diag([1, -1, -1])
        if abs(R[0, 2]) > 0.999:
            v = np.array([math.pi - 0.1, 0.02, 0.03])
        shots[f] = dict(rotation=[float(q) for q in v], translation=[rng.uniform(-80, 80), rng.uniform(-80, 80), rng.uniform(-50, 150)], camera=rng.choice(list(cams)), orientation=1, capture_time=1.0, gps_dop=5.0, gps_position=[1.0, 2.0, 3.0])
    js = [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=lat, longitude=lon, altitude=alt), points={})]
    p = mon.tmp / 'reconstruction.json'
    p.write_text(json.dumps(js))
    kw = dict(crs=want_crs) if world else {}
    if lla_crs:
        kw['lla_crs'] = lla_crs
        mon.count('osfm_lla_crs')
    if world and rng.random() < 0.5:
        kw['crs'] = CRS.from_string(want_crs)
    ip = p
    if case['src'] == 'cameras':
        ip = mon.tmp / 'cameras.json'
        if rng.random() < 0.4:
            ip = mon.tmp / 'cams' / 'reconstruction.json'
            ip.parent.mkdir()
        ip.write_text(json.dumps(cams))
        other = rng.random() < 0.5
        if other:
            # the interior parameter file is the one to use where the reconstruction's own cameras differ
            js[0]['cameras'] = {k: {q: (v * 1.1 if q.startswith('focal') else v) for q, v in c.items()} for k, c in cams.items()}
            p.write_text(json.dumps(js))
            mon.count('other_cameras')
        ip = rng.choice([ip, str(ip)])
    if case['src'] == 'obj':
        r = OsfmReader(p, **kw)
        fc = FrameCameras(r.read_int_param(), r.read_ext_param(), io_kwargs=dict(crs=r.crs))
    else:
        fc = FrameCameras(ip, p, io_kwargs=kw)
    mon.check(fc.filenames == set(shots), 'images differ from the shots', got=sorted(fc.filenames)[:4], want=sorted(shots)[:4])
    d = np.abs(orient.project(fc.crs, 'EPSG:4979', *ref_xyz) - orient.project(want_crs, 'EPSG:4979', *ref_xyz)).max()
    mon.check(d < 1e-8, 'the world CRS is not the expected one', got=str(fc.crs)[:120], want=want_crs)
    order = list(shots)
    rng.shuffle(order)
    rs = np.random.RandomState(case['seed'] % (1 << 31))
    for f in order:
        s = shots[f]
        c = cams[s['camera']]
        fx = c.get('focal', c.get('focal_x'))
        m = max(c['width'], c['height'])
        x, y = rs.uniform(-0.5, 0.5, 12) * c['width'] / m / fx, rs.uniform(-0.5, 0.5, 12) * c['height'] / m / fx
        dep = rs.uniform(20, 300, 12)
        Xc = np.array([x, y, np.ones(12)]) * dep
        R = rodrigues(s['rotation'])
        X = R.T @ (Xc - np.array(s['translation'])[:, None])
        want = osfm_project(c, x, y)
        cam = fc.get(f)
        got = cam.world_to_pixel(X + ref_xyz[:, None])
        e = np.abs(got - want).max()
        mon.check(e < 2e-5, 'the camera does not project as the OpenSfM equations', worst=float(e), type=c['projection_type'])
        mon.check(tuple(cam.im_size) == (c['width'], c['height']), 'image size differs')
        mon.count('osfm_points', 12)
        mon.count('shots')
        mon.state(c['projection_type'].lower(), case['crs'], case['src'])
    if case['src'] == 'cameras' and not other:
        i = read_osfm_int_param(ip)
        i2 = read_osfm_int_param(p)
        mon.check(params.same(i, i2) and params.same(i, OsfmReader(p, **kw).read_int_param()), 'interior parameters depend on the file they are read from')


def exif(case, mon):
    import fsspec
    import rasterio as rio
    from orthority.errors import ParamError
    from orthority.factory import FrameCameras
    from rasterio.crs import CRS

    rng = random.Random(case['seed'])
    n = case['n']
    bad = rng.randrange(n) if case['miss'] else None
    lat0, lon0 = rng.choice([rng.uniform(-70, -0.5), rng.uniform(0.5, 70)]), rng.uniform(-179, 179)
    z = (lon0 + 180) % 6
    lon0 += 0.5 if z < 0.3 else -0.5 if z > 5.7 else 0
    wide = rng.random() < 0.3 and abs(lon0) < 174
    if wide and rng.random() < 0.4:
        lat0 = rng.uniform(-1, 1)
    files, exp = [], []
    shared = rng.random() < 0.4
    u = lambda a: rng.uniform(-a, a)
    names = [f'im_{k:02d}' for k in range(n)]
    rng.shuffle(names)
    prev = None
    for k in range(n):
        tags, xmp, e = {}, [], {}
        miss = case['miss'] if k == bad else None
        # interior
        if prev and shared and miss != 'int':
            tags, w, h, xi, p, cid, kind = prev[0].copy(), *prev[1:]
        else:
            w, h = rng.choice([(60, 40), (40, 60), (48, 36), (50, 50)])
            scale = rng.choice([1, 1, 2, 91])
            kind = rng.choice(['dewarp', 'dewarp', 'dewarp0', 'dewarp_notag', 'sensor', 'sensor35', 'f35', 'sensor_nofocal', 'focal_nosensor'])
            if miss == 'int':
                kind = rng.choice(['none', 'focal_only', 'sensor_only'])
            mk, md, sn = rng.choice(['DJI', 'Parrot', None]), rng.choice(['FC6310R', 'x y', None]), rng.choice([f's{k}A', None, f'{k}'])
            if not shared:
                sn = f's{k}A'
            for t, v in (('Make', mk), ('Model', md), ('BodySerialNumber', sn)):
                if v:
                    tags[t] = v
            cid = ' '.join([v for v in ((mk or '').lower(), (md or '').lower(), sn or '') if v]) or 'unknown'
            xi, p = [], dict(im_size=(w, h), model='pinhole')
            W, H = w * scale, h * scale
            tag_size = kind in ('dewarp', 'dewarp0') or (rng.random() < 0.5 and kind != 'dewarp_notag')
            if kind.startswith('dewarp'):
                f = rng.uniform(0.7, 1.5) * max(W, H)
                dw = [round(v, 6) for v in (f, f * rng.uniform(0.98, 1.02), u(0.02) * W, u(0.02) * W, u(0.05), u(0.02), u(0.001), u(0.001), u(0.01))]
                if kind == 'dewarp0':
                    dw = [0.0] * 9
                xi.append(('dji', 'DewarpData', rng.choice(['2018-09-07;', ' 2018-09-07;', '']) + ','.join(f'{v:.12f}' for v in dw)))
                if kind == 'dewarp':
                    m = max(W, H)
                    p.update(model='brown', focal_len=(dw[0], dw[1]), sensor_size=(float(W), float(H)), cx=dw[2] / m, cy=dw[3] / m, **dict(zip(('k1', 'k2', 'p1', 'p2', 'k3'), dw[4:])))
            fl, f35 = round(rng.uniform(4, 30), 2), rng.randrange(20, 60)
            sz = rng.uniform(5, 36)
            sens = kind in ('sensor', 'sensor35', 'sensor_nofocal', 'sensor_only') or (kind == 'dewarp' and rng.random() < 0.5)
            if sens and kind != 'dewarp':
                # resolution tags refer to the actual image size
                W, H = w, h
            if tag_size:
                tags['PixelXDimension'], tags['PixelYDimension'] = W, H
            if sens:
                un = rng.choice([2, 3, 4, 5])
                mm = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}[un]
                rx = float(f'{w / sz * mm:.6g}')
                ry = float(f'{w / sz * mm * rng.choice([1, 1.02]):.6g}')
                if rx >= 1e-3:
                    tags.update(FocalPlaneXResolution=rx, FocalPlaneYResolution=ry, FocalPlaneResolutionUnit=un)
                else:
                    un, mm = 3, 10.0
                    rx = ry = float(f'{w / sz * mm:.6g}')
                    tags.update(FocalPlaneXResolution=rx, FocalPlaneYResolution=ry, FocalPlaneResolutionUnit=un)
                ss = (mm * w / rx, mm * h / ry)
            if kind in ('sensor', 'sensor35', 'dewarp', 'focal_nosensor', 'focal_only'):
                tags['FocalLength'] = fl
            if kind in ('sensor35', 'f35', 'sensor_nofocal', 'focal_nosensor', 'dewarp0', 'dewarp_notag') or (kind == 'dewarp' and rng.random() < 0.5):
                tags['FocalLengthIn35mmFilm'] = f35
            if kind != 'dewarp':
                if sens and 'FocalLength' in tags:
                    p.update(focal_len=fl, sensor_size=ss)
                elif 'FocalLengthIn35mmFilm' in tags:
                    if sens:
                        p.update(focal_len=max(ss) * f35 / 36, sensor_size=ss)
                    else:
                        p.update(focal_len=f35 / 36)
            prev = (tags.copy(), w, h, xi, p, cid, kind)
        xmp += xi
        # position
        lat, lon, alt = lat0 + u(1.5 if wide else 0.02), lon0 + u(4 if wide else 0.02), round(rng.uniform(-50, 900), 2)
        ps = rng.choice(['xmp', 'gps', 'both', 'both', 'xmp_part'])
        has = False
        if miss in ('lla', 'all'):
            ps = rng.choice(['none', 'gps_part'])
        if ps in ('gps', 'both', 'xmp_part', 'gps_part'):
            def dms(v):
                v = abs(v)
                d = int(v)
                mi = int((v - d) * 60)
                s = round((v - d - mi / 60) * 3600, 4)
                s = min(max(s, 0.0), 59.9999)
                return (d, mi, s), d + mi / 60 + s / 3600

            gl, glat = dms(lat + 0.3 if ps == 'both' else lat)
            go, glon = dms(lon)
            tags.update(GPSLatitude=gl, GPSLatitudeRef='N' if lat > 0 else 'S', GPSLongitude=go, GPSLongitudeRef='E' if lon > 0 else 'W', GPSAltitude=abs(alt))
            if alt < 0 or rng.random() < 0.5:
                tags['GPSAltitudeRef'] = 1 if alt < 0 else 0
            if ps == 'gps_part':
                tags.pop(rng.choice(['GPSLatitude', 'GPSLongitude', 'GPSLatitudeRef', 'GPSLongitudeRef']))
            elif ps != 'both':
                e['lla'] = (math.copysign(glat, lat), math.copysign(glon, lon), alt)
        if ps in ('xmp', 'both', 'xmp_part'):
            it = [('dji', 'GpsLatitude', f'{lat:.8f}'), ('dji', 'GpsLongtitude', f'{lon:+.8f}'), ('dji', 'AbsoluteAltitude', f'{alt:+.2f}')]
            if ps == 'xmp_part':
                it.pop(rng.randrange(3))
            else:
                e['lla'] = (float(it[0][2]), float(it[1][2]), alt)
            xmp += it
        # orientation
        sets = rng.choice([['dji'], ['sensefly'], ['pix4d'], ['dji', 'pix4d'], ['sensefly', 'pix4d'], ['dji', 'sensefly', 'pix4d']])
        part = rng.choice([None, None, 'first'])
        if miss in ('rpy', 'all'):
            sets = rng.choice([[], ['dji'], ['pix4d']])
            part = 'first'
        for j, sname in enumerate(sets):
            rpy = [round(u(15), 2), round(u(35), 2), round(u(180), 2)]
            it = [('GimbalRollDegree', rpy[0]), ('GimbalPitchDegree', rpy[1] - 90), ('GimbalYawDegree', rpy[2])] if sname == 'dji' else [('Roll', rpy[0]), ('Pitch', rpy[1]), ('Yaw', rpy[2])]
            if part == 'first' and j == 0 and (len(sets) > 1 or miss):
                it.pop(rng.randrange(3))
            elif 'rpy' not in e:
                e['rpy'] = rpy
            xmp += [(sname, a, f'{b:+.2f}') for a, b in it]
        xmp.append(('dji', 'FlightRollDegree', '+2.30'))
        xmp.append(('dji', 'FlightYawDegree', '+92.30'))
        if miss == 'xmp':
            had = {q[1] for q in xmp}
            xmp = None
            e.pop('rpy', None)
        if miss in ('all',):
            pass
        rng.shuffle(xmp) if xmp else None
        path = mon.tmp / f'{names[k]}{rng.choice([".tif", ".jpg"])}'
        exifw.write(path, (w, h), tags, xmp, rng.choice(['attr', 'attr', 'elem', 'elem+']), seed=k)
        e.update(p=p, cid=cid, kind=kind)
        files.append(path)
        exp.append(e)

    def given(f):
        v = case['via']
        return f if v == 'path' else str(f) if v == 'str' else fsspec.open(str(f), 'rb') if v == 'ofile' else rio.open(f)

    fs = [given(f) for f in files]
    kw = None
    want_crs = None
    if case['crs']:
        want_crs = orient.utm(lat0, lon0) if case['crs'] == 'utm' else case['crs']
        kw = dict(crs=want_crs)
    lla_crs = rng.choice([None, None, 'EPSG:4979', 'EPSG:4326', '+proj=longlat +ellps=intl +towgs84=-87,-98,-121 +no_defs', '+proj=longlat +ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7 +no_defs', 'EPSG:4326+5773'])
    if lla_crs:
        kw = dict(kw or {}, lla_crs=lla_crs)
        mon.count('lla_crs')
    lla_crs = lla_crs or 'EPSG:4979'
    try:
        fc = FrameCameras.from_images(fs, io_kwargs=kw)
        ok = True
    except ParamError as ex:
        ok, err = False, str(ex)
    finally:
        for f in fs:
            if hasattr(f, 'shape'):
                f.close()
    if case['miss']:
        mon.check(not ok, 'missing required tags are not an error', miss=case['miss'])
        mon.check(files[bad].name in err, 'the error does not name the image', err=err)
        mon.count('errors')
        return
    mon.check(ok, 'complete tags were refused', err=None if ok else err)
    mon.check(fc.filenames == {f.name for f in files}, 'images differ')
    llas = np.array([e['lla'] for e in exp])
    mlat, mlon = llas[:, :2].mean(axis=0)
    if not want_crs and (abs(mlat) < 0.02 or min((mlon + 180) % 6, 6 - (mlon + 180) % 6) < 0.02):
        return
    want_crs = want_crs or orient.utm(mlat, mlon)
    if wide:
        mon.count('wide')
    mon.check(fc.crs == CRS.from_string(want_crs), 'the world CRS is not the expected one', got=str(fc.crs), want=want_crs)
    rs = np.random.RandomState(case['seed'] % (1 << 31))
    idx = list(range(n))
    rng.shuffle(idx)
    # images with the same camera ID but other interior tags: the last one read counts
    last = {e['cid']: e['p'] for e in exp}
    for k in idx:
        e, f = exp[k], files[k]
        if last[e['cid']] is not e['p']:
            continue
        cam = fc.get(f)
        p = dict(e['p'])
        lat, lon, alt = e['lla']
        xyz = orient.project(lla_crs, want_crs, lon, lat, alt)[:, 0]
        R = orient.rpy_camera_axes([math.radians(v) for v in e['rpy']], lat, lon, alt, want_crs, lla_crs)
        w, h = p['im_size']
        mon.check(tuple(cam.im_size) == (w, h), 'image size differs', got=cam.im_size, want=(w, h))
        fx, fy = ref.focal_px(p)
        x, y = rs.uniform(-0.4, 0.4, 10) * w / fx, rs.uniform(-0.4, 0.4, 10) * h / fy
        want = ref.norm_to_pixel(p, *ref.distort(p['model'], p, x, y))
        X = xyz[:, None] + R @ (np.array([x, -y, -np.ones(10)]) * rs.uniform(30, 200, 10))
        got = cam.world_to_pixel(X)
        err = np.abs(got - want).max()
        mon.check(np.abs(np.array(cam.pos) - xyz).max() < 1e-3, 'the position is not the tagged one', got=list(cam.pos), want=xyz.tolist())
        mon.check(err < 1e-4 * max(1, fx), 'the camera does not project as its tags say', worst=float(err), kind=e['kind'], fx=fx)
        mon.count('exif_points', 10)
        mon.count('images')
        mon.count({'dewarp': 'dewarp', 'sensor': 'focal_sensor', 'sensor35': 'focal_sensor'}.get(e['kind'], 'focal35'))
        mon.count('xmp_position' if abs(lat * 1e8 - round(lat * 1e8)) < 1e-5 else 'gps_position')
        mon.state('exif', e['kind'], f.suffix, case['via'], case['crs'])
