"""The command line gives the same results as the API, per image and per batch."""
import csv
import json
import logging
import math
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import yaml

from vlib import exifw, gen, orient, pan, params, ref, scene

ID = 'C23'
RULE = (
    'Random batches of 1 to 5 images for each of the frame, exif, odm, rpc and sharpen sub-commands with random options (long, short and negated forms; defaults; CRS as string, text file or image; wildcards), run through the command line entry point, in process and as a separate process. '
    'Every output is compared (format, georeferencing, pixels, mask, overviews) with the API result for that image alone, from cameras made directly from the generated parameters. Exported parameter files are compared with those of the API. '
    'The legacy simple-ortho command is judged in the same way. '
    'Bad and missing inputs and options must exit with a usage error. Non-trivial always.'
)
ASSUME = ['API results are judged by the other properties']
NEED = ['outputs', 'frame', 'exif', 'odm', 'rpc', 'sharpen', 'export', 'errors', 'process', 'batch', 'refined', 'csv', 'geojson', 'lla', 'glob', 'own_crs', 'simple']
TIMEOUT = 300
X0, Y0, CRS = 420000.0, 6310000.0, 'EPSG:32735'
INTERPS = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']


def cases(rng, tier):
    n = 800 if tier == 'quick' else 5000
    out = []
    for k in range(n):
        cmd = rng.choice(['frame', 'frame', 'frame', 'exif', 'odm', 'rpc', 'rpc', 'sharpen'])
        cmd = 'simple' if k % 12 == 5 else cmd
        c = dict(cmd=cmd, seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 5]), mode=rng.choice(['run', 'run', 'run', 'run', 'export', 'error', 'error', 'error']), proc=k % 14 == 0)
        if cmd == 'sharpen' and c['mode'] == 'export':
            c['mode'] = 'run'
        if cmd == 'simple' and c['mode'] == 'error':
            c['mode'] = 'run'
        out.append(c)
    return out


# ------------------------------------------------------------------------------ running the CLI
def entry():
    from importlib.metadata import entry_points

    return next(iter(entry_points(group='console_scripts', name='oty'))).load()


def invoke(args, case, cwd):
    """(exit code, output, exception other than a usage error)."""
    args = [str(a) for a in args]
    if case['proc']:
        code = "import sys\nfrom importlib.metadata import entry_points\nsys.argv[0] = 'oty'\nsys.exit(next(iter(entry_points(group='console_scripts', name='oty'))).load()())"
        r = subprocess.run([sys.executable, '-B', '-c', code, *args], cwd=cwd, capture_output=True, text=True, timeout=200)
        out = r.stdout + r.stderr
        return r.returncode, out, ('traceback' if 'Traceback (most recent call last)' in out else None)
    from click.testing import CliRunner

    lg = logging.getLogger('orthority')
    keep = warnings.showwarning, list(lg.handlers), lg.level
    try:
        r = CliRunner().invoke(entry(), args)
    finally:
        warnings.showwarning = keep[0]
        lg.handlers[:] = keep[1]
        lg.setLevel(keep[2])
    ex = r.exception
    return r.exit_code, r.output, None if ex is None or isinstance(ex, SystemExit) else ex


def invoke_simple(args, case, cwd):
    """(whether the legacy command succeeds, output)."""
    args = [str(a) for a in args]
    if case['proc']:
        code = "import sys\nfrom importlib.metadata import entry_points\nsys.argv[0] = 'simple-ortho'\nsys.exit(next(iter(entry_points(group='console_scripts', name='simple-ortho'))).load()())"
        r = subprocess.run([sys.executable, '-B', '-c', code, *args], cwd=cwd, capture_output=True, text=True, timeout=200)
        return r.returncode == 0, r.stdout + r.stderr
    from importlib.metadata import entry_points

    lg = logging.getLogger('orthority')
    keep = warnings.showwarning, list(lg.handlers), lg.level
    try:
        next(iter(entry_points(group='console_scripts', name='simple-ortho'))).load()(args)
    except (Exception, SystemExit) as ex:
        return False, repr(ex)
    finally:
        warnings.showwarning = keep[0]
        lg.handlers[:] = keep[1]
        lg.setLevel(keep[2])
    return True, ''


# ----------------------------------------------------------------------------------- scenes
def write_dem(path, rng, xy=(X0, Y0), half=260.0, res=5.0, crs=CRS, z0=None, second=True):
    """A DEM with two bands of different heights."""
    import rasterio as rio

    z0 = rng.uniform(20, 60) if z0 is None else z0
    n = int(2 * half / res)
    j, i = np.meshgrid(np.arange(n), np.arange(n))
    z = z0 + 4 * np.sin(j / 9.0 + rng.random()) + 3 * np.cos(i / 7.0)
    arr = np.array([z, z + 25]) if second else z[None]
    scene.write_tif(path, arr.astype('float32'), crs=crs, transform=rio.Affine(res, 0, xy[0] - half, 0, -res, xy[1] + half))
    return z0


def src_array(rng, size, dtype, bands):
    rs = np.random.RandomState(rng.randrange(1 << 30))
    lo, hi = dict(uint8=(1, 255), uint16=(1, 5000), int16=(-2000, 3000), float32=(0, 1))[dtype]
    j, i = np.meshgrid(np.arange(size[0]), np.arange(size[1]))
    a = np.array([0.5 + 0.2 * np.sin(j / rs.uniform(3, 9)) + 0.2 * np.cos(i / rs.uniform(3, 9)) + 0.1 * rs.rand(size[1], size[0]) for _ in range(bands)])
    return (lo + a * (hi - lo)).astype(dtype)


def pose(rng, p, z0):
    p['xyz'] = [X0 + rng.uniform(-30, 30), Y0 + rng.uniform(-30, 30), z0 + rng.uniform(90, 130)]
    for _ in range(50):
        p['opk'] = [rng.uniform(-0.2, 0.2), rng.uniform(-0.2, 0.2), rng.uniform(-3, 3)]
        if gen.max_nadir_angle(p) < math.radians(58):
            return
    p['opk'] = [0.02, -0.03, 1.0]


def compare(mon, got, exp, what):
    import rasterio as rio

    if not mon.check(os.path.exists(got), 'an output of the command is missing', where=what):
        return
    with rio.open(got) as a, rio.open(exp) as b:
        pa, pb = dict(a.profile), dict(b.profile)
        na, nb = pa.pop('nodata'), pb.pop('nodata')
        mon.check(pa == pb and (na == nb or (na != na and nb != nb)), 'output format differs from that of the API', where=what, got=str((pa, na))[:300], exp=str((pb, nb))[:300])
        mon.check(a.colorinterp == b.colorinterp and a.descriptions == b.descriptions and a.mask_flag_enums == b.mask_flag_enums, 'band information differs from that of the API', where=what)
        mon.check([a.overviews(i) for i in a.indexes] == [b.overviews(i) for i in b.indexes], 'overviews differ from those of the API', where=what, got=a.overviews(1), exp=b.overviews(1))
        da, db = a.read(), b.read()
        eq = (da == db) | ((da != da) & (db != db))
        mon.check(eq.all(), 'pixels differ from those of the API', where=what, differ=int((~eq).sum()), of=eq.size)
        mon.check((a.read_masks() == b.read_masks()).all(), 'mask differs from that of the API', where=what)
        valid = (b.read_masks() != 0).any()
    mon.count('outputs')
    mon.count('empty', int(not valid))


# ---------------------------------------------------------------------------------- options
def crs_option(rng, crs, tmp):
    """Ways of giving a CRS on the command line."""
    from rasterio.crs import CRS as RC

    how = rng.choice(['epsg', 'wkt', 'proj', 'txt', 'tif', 'prj'])
    c = RC.from_string(crs)
    if how == 'epsg':
        return crs, crs
    if how == 'wkt':
        return c.to_wkt(), c.to_wkt()
    if how == 'proj':
        return c.to_proj4(), c.to_proj4()
    if how in ('txt', 'prj'):
        f = tmp / f'crs file.{how}'
        f.write_text(rng.choice([c.to_wkt(), crs]))
        return str(f), crs
    import rasterio as rio

    f = tmp / 'crs_im.tif'
    scene.write_tif(f, np.zeros((1, 4, 4), np.uint8), crs=crs, transform=rio.Affine(1, 0, 0, 0, -1, 0))
    return str(f), crs


def out_options(rng, pansharp=False):
    """(arguments, process() keyword arguments)."""
    a, kw = [], {}

    def opt(prob, names, val, key=None, kval=None):
        if rng.random() < prob:
            n = rng.choice(names)
            if n.startswith('--') and rng.random() < 0.3:
                a.append(f'{n}={val}')
            else:
                a.extend([n, val])
            if key:
                kw[key] = kval if kval is not None else val
            return True

    def flag(prob, yes, no, key):
        if rng.random() < prob:
            v = rng.random() < 0.5
            a.append(rng.choice(yes if v else no))
            kw[key] = v

    i = rng.choice(INTERPS)
    opt(0.5, ['-i', '--interp'], i, 'interp')
    flag(0.4, ['-wm', '--write-mask'], ['-nwm', '--no-write-mask'], 'write_mask')
    dt = rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
    if opt(0.4, ['-dt', '--dtype'], dt, 'dtype'):
        pass
    flag(0.4, ['-bo', '--build-ovw'], ['-nbo', '--no-build-ovw'], 'build_ovw')
    q = rng.random()
    if q < 0.3:
        opt(1, ['-cm', '--compress'], rng.choice(['deflate', 'lzw']), None)
        kw['compress'] = a[-1].split('=')[-1]
    elif q < 0.5:
        co, d = rng.choice([
            (['compress=lzw', 'tiled=yes', 'blockxsize=64', 'blockysize=32'], dict(compress='lzw', tiled=True, blockxsize=64, blockysize=32)),
            (['COMPRESS=DEFLATE', 'PREDICTOR=2'], dict(compress='deflate', predictor=2)),
            (['interleave = band', 'compress=none'], dict(interleave='band', compress=None)),
        ])  # fmt: skip
        if 'predictor' in d:
            # not for floating point
            co, d = (co, d) if kw.get('dtype') in ('uint8', 'uint16', 'int16') else (['COMPRESS=DEFLATE'], dict(compress='deflate'))
        for o in co:
            a.extend([rng.choice(['-co', '--creation-option']), o])
        kw['creation_options'] = d
    elif q < 0.6:
        opt(1, ['-dv', '--driver'], 'cog', None)
        kw['driver'] = 'cog'
    if not pansharp:
        i = rng.choice(INTERPS)
        opt(0.4, ['-di', '--dem-interp'], i, 'dem_interp')
        flag(0.4, ['-pb', '--per-band'], ['-npb', '--no-per-band'], 'per_band')
        if rng.random() < 0.5:
            r = [round(rng.uniform(0.8, 3.0), rng.choice([1, 2, 4])) for _ in range(rng.choice([1, 1, 2]))]
            for v in r:
                a.extend([rng.choice(['-r', '--res']), str(v)])
            kw['resolution'] = (r[0], r[-1])
    return a, kw


def cam_options(rng):
    a, kw = [], dict(distort=True, alpha=1.0)
    if rng.random() < 0.5:
        kw['distort'] = rng.random() < 0.3
        a.append(rng.choice(['-fr', '--full-remap'] if kw['distort'] else ['-nfr', '--no-full-remap']))
    if rng.random() < 0.4:
        kw['alpha'] = rng.choice([0.0, 0.3, 1.0])
        a.extend([rng.choice(['-a', '--alpha']), str(kw['alpha'])])
    return a, kw


def sources(rng, files, mon):
    """Source arguments."""
    fs = list(files)
    if rng.random() < 0.35 and len({f.parent for f in fs}) == 1:
        mon.count('glob')
        return [str(fs[0].parent / 'src*')]
    rng.shuffle(fs)
    return [str(f) for f in fs]


def verify(mon, case, rng, args, files, out, build, dem, crs, kw, dem_band=1):
    """Run the command, and compare each output with the API for that image alone."""
    from orthority import Ortho

    pre = None
    if rng.random() < 0.3:
        # an existing output is refused, then overwritten
        pre = out / f'{files[-1].stem}_ORTHO.tif'
        pre.write_bytes(b'something')
        rc, text, ex = invoke(args, case, mon.tmp)
        mon.check(rc != 0 and ex is None and pre.read_bytes() == b'something', 'an existing output is not refused', rc=rc, ex=str(ex))
        mon.count('existing')
        args = [*args, rng.choice(['-o', '--overwrite'])]
    rc, text, ex = invoke(args, case, mon.tmp)
    mon.check(rc == 0 and ex is None, 'the command fails', rc=rc, out=text[-400:], ex=repr(ex)[:300], args=str(args)[:600])
    mon.count(case['cmd'])
    mon.count('process', int(case['proc']))
    mon.count('batch', int(len(files) > 1))
    api = mon.tmp / 'api'
    api.mkdir()
    for k, f in enumerate(files):
        cam = build(k, f)
        exp = api / f'{f.stem}.tif'
        Ortho(str(f), str(dem), cam, crs(k) if callable(crs) else crs, dem_band=dem_band).process(exp, **kw)
        compare(mon, out / f'{f.stem}_ORTHO.tif', exp, f"{case['cmd']} {f.name}")
    extra = {p.name for p in out.iterdir()} - {f'{f.stem}_ORTHO.tif' for f in files} - {f'{f.stem}_ORTHO.tif.aux.xml' for f in files}
    mon.check(not extra, 'other files are written', extra=sorted(extra)[:5])
    mon.state((case['cmd'], len(files), case['proc'], tuple(sorted(kw))))


# ------------------------------------------------------------------------------------- frame
def frame_inputs(rng, tmp, n, mon, may_own=False):
    """Source images, parameter files and the parameters they hold."""
    z0 = write_dem(tmp / 'dem.tif', rng)
    d = tmp / 'src dir'
    d.mkdir()
    ncam = rng.choice([1, 1, 2, 3])
    cams = []
    for c in range(ncam):
        size = rng.choice([(60, 40), (40, 60), (70, 50)])
        p = gen.frame_param(rng, size=size)
        cams.append((f'cam {c}', p))
    ims, ps, owns = [], [], []
    dtype, bands = rng.choice(['uint8', 'uint8', 'uint16', 'int16', 'float32']), rng.choice([1, 3])
    for k in range(n):
        cid, p = cams[k % ncam]
        p = dict(p)
        pose(rng, p, z0)
        f = d / f'src_{k:02d}{rng.choice(["", " b", ".v2"])}.tif'
        # the image may have a CRS of its own, which applies when no other is given
        own = rng.choice([None, 'EPSG:32734', 'EPSG:32735', 'EPSG:32736']) if may_own else None
        scene.write_tif(f, src_array(rng, p['im_size'], dtype, bands), **(dict(crs=own) if own else {}))
        ims.append(f)
        ps.append((cid, p))
        owns.append(own)
    # interior parameters
    ip = tmp / 'int_param.yaml'
    ip.write_text(yaml.safe_dump({cid: dict(type=p['model'], **{k: list(v) if isinstance(v, tuple) else v for k, v in gen.int_kwargs(p).items()}) for cid, p in cams}))
    # exterior parameters
    fmt = rng.choice(['geojson', 'csv', 'csv', 'lla'])
    lla = None
    mon.count(fmt)
    radians = None
    stem = rng.random() < 0.3 and not any('.v2' in f.name for f in ims)
    key = lambda f: f.stem if stem else f.name
    if fmt == 'geojson':
        ep = tmp / 'ext_param.geojson'
        ep.write_text(json.dumps(dict(type='FeatureCollection', world_crs=CRS, features=[
            dict(type='Feature', properties=dict(filename=key(f), camera=cid, xyz=p['xyz'], opk=p['opk']), geometry=dict(type='Point', coordinates=[0, 0, 0])) for f, (cid, p) in zip(ims, ps)
        ])))  # fmt: skip
    elif fmt == 'lla':
        from rasterio.crs import CRS as RC
        from rasterio.warp import transform

        ep = tmp / 'ext_param.csv'
        radians = rng.random() < 0.5
        lla = rng.choice([None, '+proj=longlat +ellps=clrk80 +towgs84=-134,-105,-295,0,0,0,0 +no_defs', 'EPSG:4979'])
        with open(ep, 'w', newline='') as fh:
            w = csv.writer(fh)
            w.writerow(['filename', 'latitude', 'longitude', 'altitude', 'roll', 'pitch', 'yaw', 'camera'])
            for f, (cid, p) in zip(ims, ps):
                x, y, z = [v[0] for v in transform(RC.from_string(CRS), RC.from_string(lla or 'EPSG:4979'), [p['xyz'][0]], [p['xyz'][1]], [p['xyz'][2]])]
                rpy = [rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1), rng.uniform(-3, 3)]
                w.writerow([key(f), repr(y), repr(x), repr(p['xyz'][2]), *[repr(v if radians else math.degrees(v)) for v in rpy], cid])
    else:
        ep = tmp / 'ext_param.csv'
        radians = rng.random() < 0.5
        if may_own and all(owns) and rng.random() < 0.8:
            # positions in the CRS of each image
            from rasterio.crs import CRS as RC
            from rasterio.warp import transform

            fmt = 'own'
            mon.count('own_crs')
            for (_, p), own in zip(ps, owns):
                p['xyz'] = [v[0] for v in transform(RC.from_string(CRS), RC.from_string(own), *[[v] for v in p['xyz']])]
        with open(ep, 'w', newline='') as fh:
            w = csv.writer(fh)
            w.writerow(['filename', 'x', 'y', 'z', 'omega', 'phi', 'kappa', 'camera'])
            for f, (cid, p) in zip(ims, ps):
                w.writerow([key(f), *map(repr, p['xyz']), *[repr(v if radians else math.degrees(v)) for v in p['opk']], cid])
    args = [rng.choice(['-ip', '--int-param']), ip, rng.choice(['-ep', '--ext-param']), ep]
    if radians:
        args.append(rng.choice(['-rd', '--radians']))
    elif radians is False and rng.random() < 0.3:
        args.append(rng.choice(['-dg', '--degrees']))
    crs = CRS
    if fmt == 'lla':
        if lla:
            args += [rng.choice(['-lc', '--lla-crs']), lla]
        if rng.random() < 0.6 or lla not in (None, 'EPSG:4979'):
            c, crs = crs_option(rng, CRS, tmp)
            args += [rng.choice(['-c', '--crs']), c]
    if fmt == 'csv':
        if rng.random() < 0.3:
            ep.with_suffix('.prj').write_text(CRS)
        else:
            c, crs = crs_option(rng, CRS, tmp)
            args += [rng.choice(['-c', '--crs']), c]
    if fmt == 'own':
        crs = lambda k: owns[k]
    return dict(ims=ims, ps=ps, args=args, crs=crs, ip=ip, ep=ep, fmt=fmt, radians=radians, dtype=dtype, lla=lla)


def frame(case, mon, rng):
    from orthority import FrameCameras
    from orthority.camera import create_camera

    s = frame_inputs(rng, mon.tmp, case['n'], mon, case['mode'] == 'run')
    out = mon.tmp / 'out'
    out.mkdir()
    ca, ckw = cam_options(rng)
    io = dict(crs=s['crs'] if s['fmt'] not in ('geojson', 'own') else None, radians=bool(s['radians']), **(dict(lla_crs=s['lla']) if s['lla'] else {}))
    if case['mode'] == 'export':
        args = ['frame', *s['args'], *ca, rng.choice(['-e', '--export-params']), '-od', out]
        export(case, mon, rng, args, out, lambda: FrameCameras(str(s['ip']), str(s['ep']), io_kwargs=io), ['int_param.yaml', 'ext_param.geojson'])
        return
    oa, okw = out_options(rng)
    band = rng.choice([1, 1, 2])
    if band == 2:
        oa += [rng.choice(['-db', '--dem-band']), '2']
    args = ['frame', rng.choice(['-d', '--dem']), mon.tmp / 'dem.tif', *s['args'], *ca, *oa, rng.choice(['-od', '--out-dir']), out, *sources(rng, s['ims'], mon)]

    def build(k, f):
        cid, p = s['ps'][k]
        if s['fmt'] == 'lla':
            return FrameCameras(str(s['ip']), str(s['ep']), io_kwargs=io, cam_kwargs=ckw).get(f)
        return create_camera(p['model'], **gen.int_kwargs(p), xyz=tuple(p['xyz']), opk=tuple(p['opk']), **ckw)

    verify(mon, case, rng, args, s['ims'], out, build, mon.tmp / 'dem.tif', s['crs'], okw, dem_band=band)


# -------------------------------------------------------------------------------------- exif
def exif_inputs(rng, tmp, n):
    from rasterio.warp import transform

    z0 = write_dem(tmp / 'dem.tif', rng)
    d = tmp / 'src dir'
    d.mkdir()
    files = []
    for k in range(n):
        x, y = X0 + rng.uniform(-30, 30), Y0 + rng.uniform(-30, 30)
        lon, lat = [v[0] for v in transform(CRS, 'EPSG:4979', [x], [y])]
        rpy = [rng.uniform(-8, 8), rng.uniform(-8, 8), rng.uniform(-180, 180)]
        size = rng.choice([(60, 40), (48, 36)])
        tags = dict(Make='DJI', Model='M', BodySerialNumber=f's{k}', FocalLengthIn35mmFilm=28 + k)
        xmp = [('dji', 'GpsLatitude', f'{lat:.8f}'), ('dji', 'GpsLongtitude', f'{lon:+.8f}'), ('dji', 'AbsoluteAltitude', f'{z0 + rng.uniform(90, 120):+.2f}'),
               ('dji', 'GimbalRollDegree', f'{rpy[0]:+.2f}'), ('dji', 'GimbalPitchDegree', f'{rpy[1] - 90:+.2f}'), ('dji', 'GimbalYawDegree', f'{rpy[2]:+.2f}')]  # fmt: skip
        f = d / f'src_{k:02d}{rng.choice([".tif", ".jpg"])}'
        exifw.write(f, size, tags, xmp, 'attr', seed=k)
        files.append(f)
    return files


def exif(case, mon, rng):
    from orthority import FrameCameras

    files = exif_inputs(rng, mon.tmp, case['n'])
    out = mon.tmp / 'out'
    out.mkdir()
    ca, ckw = cam_options(rng)
    crs, cargs = CRS, []
    if rng.random() < 0.6:
        c, crs = crs_option(rng, rng.choice([CRS, 'EPSG:32734']), mon.tmp)
        cargs = [rng.choice(['-c', '--crs']), c]
    io = dict(crs=crs)
    if rng.random() < 0.5:
        io['lla_crs'] = rng.choice(['EPSG:4979', '+proj=longlat +ellps=WGS84 +towgs84=-40,50,-30,0,0,0,0 +no_defs'])
        cargs += [rng.choice(['-lc', '--lla-crs']), io['lla_crs']]
    if case['mode'] == 'export':
        src = sources(rng, files, mon)
        order = sorted(map(str, files)) if '*' in src[0] else src
        export(case, mon, rng, ['exif', *cargs, *ca, rng.choice(['-e', '--export-params']), '-od', out, *src], out, lambda: FrameCameras.from_images(order, io_kwargs=io), ['int_param.yaml', 'ext_param.geojson'])
        return
    oa, okw = out_options(rng)
    args = ['exif', '-d', mon.tmp / 'dem.tif', *cargs, *ca, *oa, '-od', out, *sources(rng, files, mon)]
    verify(mon, case, rng, args, files, out, lambda k, f: FrameCameras.from_images([str(f)], io_kwargs=io, cam_kwargs=ckw).get(f), mon.tmp / 'dem.tif', crs, okw)


# --------------------------------------------------------------------------------------- odm
def odm_inputs(rng, tmp, n):
    from rasterio.warp import transform

    ds = tmp / 'data set'
    for q in ('images', 'odm_dem', 'opensfm'):
        (ds / q).mkdir(parents=True)
    z0 = write_dem(ds / 'odm_dem' / 'dsm.tif', rng, second=False)
    lon, lat = [v[0] for v in transform(CRS, 'EPSG:4326', [X0], [Y0])]
    files, shots, cams = [], {}, {}
    size = rng.choice([(60, 40), (40, 60)])
    ty = rng.choice(['perspective', 'brown', 'fisheye'])
    cam = dict(projection_type=ty, width=size[0], height=size[1], k1=0.01, k2=-0.005)
    if ty == 'brown':
        cam.update(focal_x=0.9, focal_y=0.91, c_x=0.01, c_y=-0.01, k3=0.001, p1=0.0005, p2=-0.0002)
    else:
        cam.update(focal=0.9)
    for k in range(n):
        f = ds / 'images' / f'src_{k:02d}{rng.choice([".tif", ".TIF", ".jpg", ".tiff"])}'
        if f.suffix == '.jpg':
            exifw.write(f, size, {}, None, 'attr', seed=k)
        else:
            scene.write_tif(f, src_array(rng, size, 'uint8', 3))
        files.append(f)
        # camera looking down with a heading
        kap = rng.uniform(-3, 3)
        R = np.array([[math.cos(kap), math.sin(kap), 0], [math.sin(kap), -math.cos(kap), 0], [0, 0, -1]])
        import cv2

        tilt = cv2.Rodrigues(np.array([rng.uniform(-0.15, 0.15), rng.uniform(-0.15, 0.15), 0]))[0]
        R = tilt @ R
        pos = np.array([rng.uniform(-30, 30), rng.uniform(-30, 30), rng.uniform(95, 120)])
        shots[f.name] = dict(camera='c', rotation=cv2.Rodrigues(R)[0].ravel().tolist(), translation=(-R @ pos).tolist())
    cams['c'] = cam
    (ds / 'opensfm' / 'reconstruction.json').write_text(json.dumps([dict(cameras=cams, shots=shots, reference_lla=dict(latitude=lat, longitude=lon, altitude=z0))]))
    (ds / 'images' / 'notes.txt').write_text('not an image')
    return ds, files


def odm(case, mon, rng):
    from orthority import FrameCameras

    ds, files = odm_inputs(rng, mon.tmp, case['n'])
    rec = str(ds / 'opensfm' / 'reconstruction.json')
    out, oarg = ds / 'orthority', []
    if rng.random() < 0.5:
        out = mon.tmp / 'out'
        out.mkdir()
        oarg = [rng.choice(['-od', '--out-dir']), out]
    ca, ckw = cam_options(rng)
    crs, cargs = CRS, []
    if rng.random() < 0.3:
        c, crs = crs_option(rng, 'EPSG:32734', mon.tmp)
        cargs = [rng.choice(['-c', '--crs']), c]
    base = ['odm', rng.choice(['-dd', '--dataset-dir']), rng.choice([str(ds), str(ds) + '/']), *cargs, *ca, *oarg]
    if case['mode'] == 'export':
        export(case, mon, rng, [*base, rng.choice(['-e', '--export-params'])], out, lambda: FrameCameras(rec, rec, io_kwargs=dict(crs=crs)), ['int_param.yaml', 'ext_param.geojson'])
        return
    oa, okw = out_options(rng)
    out.mkdir(exist_ok=True)
    verify(mon, case, rng, [*base, *oa], files, out, lambda k, f: FrameCameras(rec, rec, io_kwargs=dict(crs=crs), cam_kwargs=ckw).get(f), ds / 'odm_dem' / 'dsm.tif', crs, okw)


# --------------------------------------------------------------------------------------- rpc
def rpc_inputs(rng, tmp, n, tags=True):
    import rasterio as rio
    from rasterio.control import GroundControlPoint
    from rasterio.rpc import RPC

    d = tmp / 'src dir'
    d.mkdir()
    files, rpcs, gcps = [], [], {}
    loc = (27.0 + rng.uniform(-0.2, 0.2), -33.5 + rng.uniform(-0.2, 0.2))
    for k in range(n):
        rp = gen.rpc_param(rng, size=rng.choice([(60, 40), (40, 60)]), gsd=5.0, loc=loc, scene=True)
        r = rp['rpc']
        r.update(long_off=loc[0] + rng.uniform(-1, 1) * 5e-4, lat_off=loc[1] + rng.uniform(-1, 1) * 5e-4, height_off=300.0)
        f = d / f'src_{k:02d}.tif'
        w, h = rp['im_size']
        g = []
        for q in range(rng.choice([2, 4])):
            p = [r['long_off'] + rng.uniform(-1, 1) * 5e-4, r['lat_off'] + rng.uniform(-1, 1) * 5e-4, 300.0 + rng.uniform(-20, 20)]
            ji = ref.rpc_project(r, *[np.array([v]) for v in p])[:, 0] + [rng.uniform(-3, 3), rng.uniform(-3, 3)]
            g.append(dict(ji=[float(v) for v in ji], xyz=p))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(f, 'w', driver='GTiff', width=w, height=h, count=2, dtype='uint16') as ds:
                if tags:
                    ds.rpcs = RPC(**r)
                ds.gcps = ([GroundControlPoint(row=q['ji'][1], col=q['ji'][0], x=q['xyz'][0], y=q['xyz'][1], z=q['xyz'][2]) for q in g], 'EPSG:4326')
                ds.write(src_array(rng, (w, h), 'uint16', 2))
        with rio.open(f) as ds:
            back = ds.rpcs.to_dict() if tags else r
        gcps[f.name] = g
        files.append(f)
        rpcs.append(((w, h), back))
    return loc, files, rpcs, gcps


def rpc(case, mon, rng):
    from orthority import RpcCameras
    from orthority.camera import RpcCamera
    from orthority.fit import refine_rpc
    from rasterio.warp import transform

    tags = rng.random() < 0.6
    loc, files, rpcs, gcps = rpc_inputs(rng, mon.tmp, case['n'], tags)
    x, y = [v[0] for v in transform('EPSG:4979', CRS, [loc[0]], [loc[1]])]
    dem = mon.tmp / 'dem.tif'
    write_dem(dem, rng, xy=(x, y), half=900.0, res=20.0, z0=300.0)
    out = mon.tmp / 'out'
    out.mkdir()
    args, pargs = [], []
    if not tags:
        f = mon.tmp / 'rpc_param.yaml'
        f.write_text(yaml.safe_dump({f.name: dict(im_size=list(s), rpc={k: v for k, v in r.items() if v is not None}) for f, (s, r) in zip(files, rpcs)}))
        pargs = [rng.choice(['-rp', '--rpc-param']), f]
    refine = rng.choice([None, 'tags', 'file'])
    method, rargs = 'shift', []
    if refine:
        mon.count('refined')
        g = rng.choice(['tags', 'tags', 'TAGS', 'Tags'])
        if refine == 'file':
            g = mon.tmp / 'gcps.geojson'
            g.write_text(json.dumps(dict(type='FeatureCollection', features=[
                dict(type='Feature', properties=dict(filename=f, ji=q['ji'], id=None, info=None), geometry=dict(type='Point', coordinates=q['xyz'])) for f in gcps for q in gcps[f]
            ])))  # fmt: skip
        rargs = [rng.choice(['-gr', '--gcp-refine']), g]
        if rng.random() < 0.5:
            method = rng.choice(['shift', 'shift-drift'])
            rargs += [rng.choice(['-rm', '--refine-method']), method]
    crs, cargs, ckw = 'EPSG:4979', [], {}
    if rng.random() < 0.5:
        c, crs = crs_option(rng, CRS, mon.tmp)
        cargs, ckw = [rng.choice(['-c', '--crs']), c], dict(crs=crs)
    src = sources(rng, files, mon)
    if case['mode'] == 'export':
        order = sorted(map(str, files)) if '*' in src[0] else src

        def api():
            c = RpcCameras(str(mon.tmp / 'rpc_param.yaml'), cam_kwargs=ckw) if not tags else RpcCameras.from_images(order, cam_kwargs=ckw)
            if refine:
                c.refine(order if refine == 'tags' else str(mon.tmp / 'gcps.geojson'), fit_kwargs=dict(method=method))
            return c

        export(case, mon, rng, ['rpc', *pargs, *rargs, *cargs, '-e', '-od', out, *src], out, api, ['rpc_param.yaml', *(['gcps.geojson'] if refine else [])])
        return
    oa, okw = out_options(rng)
    if 'resolution' in okw:
        k = 5.0 if ckw else 5.0 / 111000
        oa = [q for i, q in enumerate(oa) if not (q in ('-r', '--res') or (i and oa[i - 1] in ('-r', '--res')))]
        okw['resolution'] = (k, k * 1.5)
        oa += ['-r', repr(k), '-r', repr(k * 1.5)]

    def build(k, f):
        size, r = rpcs[k]
        if refine:
            r = refine_rpc(r, gcps[f.name], method=method)
        return RpcCamera(size, r, **ckw)

    verify(mon, case, rng, ['rpc', '-d', dem, *pargs, *rargs, *cargs, *oa, '-od', out, *src], files, out, build, dem, crs, okw)


# ----------------------------------------------------------------------------------- sharpen
def sharpen(case, mon, rng):
    from orthority import PanSharpen
    from orthority.errors import OrthorityError

    s = pan.pan_spec(rng, bands=rng.choice([2, 3, 4]), dtype=rng.choice(['uint8', 'uint16', 'float32']))
    pr = pan.Pair(s)
    pf, mf = pr.write(mon.tmp)
    args, kw = out_options(rng, pansharp=True)
    nb = s['bands']
    idx = list(range(1, nb + 1))
    if rng.random() < 0.5:
        idx = rng.sample(idx, rng.randrange(1, nb + 1))
        for v in idx:
            args += [rng.choice(['-mi', '--ms-index']), v]
        kw['ms_indexes'] = idx
    if rng.random() < 0.6:
        w = [round(rng.uniform(0.05, 1), 3) for _ in idx]
        for v in w:
            args += [rng.choice(['-w', '--weight']), v]
        kw['weights'] = w
    if rng.random() < 0.3:
        args += [rng.choice(['-pi', '--pan-index']), 1]
    out, exp = mon.tmp / 'cli out.tif', mon.tmp / 'api.tif'
    cmd = ['sharpen', rng.choice(['-p', '--pan']), pf, rng.choice(['-ms', '--multispectral']), mf, rng.choice(['-of', '--out-file']), out, *args]
    if rng.random() < 0.3:
        out.write_bytes(b'x')
        rc, text, ex = invoke(cmd, case, mon.tmp)
        mon.check(rc != 0 and ex is None and out.read_bytes() == b'x', 'an existing output is not refused', rc=rc, ex=str(ex))
        cmd.append(rng.choice(['-o', '--overwrite']))
    rc, text, ex = invoke(cmd, case, mon.tmp)
    try:
        PanSharpen(str(pf), str(mf)).process(exp, **kw)
    except OrthorityError:
        # no weights could be estimated
        mon.check(rc != 0 and ex is None, 'an error of the API is not an error of the command', rc=rc, ex=repr(ex)[:300])
        mon.count('refused')
        return
    mon.check(rc == 0 and ex is None, 'the command fails', rc=rc, out=text[-400:], ex=repr(ex)[:300], args=str(cmd)[:600])
    compare(mon, out, exp, 'sharpen')
    mon.count('sharpen')
    mon.count('process', int(case['proc']))
    mon.state(('sharpen', case['proc'], tuple(sorted(kw))))


# ------------------------------------------------------------------------------------ export
def export(case, mon, rng, args, out, api, names):
    rc, text, ex = invoke(args, case, mon.tmp)
    mon.check(rc == 0 and ex is None, 'exporting parameters fails', rc=rc, out=text[-400:], ex=repr(ex)[:300], args=str(args)[:600])
    d = mon.tmp / 'api'
    d.mkdir()
    api().write_param(d)
    got = {p.name: p.read_text() for p in out.iterdir()}
    exp = {p.name: p.read_text() for p in d.iterdir()}
    mon.check(set(got) == set(names), 'exported files are not those documented', got=sorted(got), exp=names)
    for n in names:
        mon.check(got[n] == exp[n], 'exported file differs from that of the API', name=n, got=got[n][:300], exp=exp[n][:300])
    # exporting again is refused without --overwrite
    rc, text, ex = invoke(args, case, mon.tmp)
    mon.check(rc != 0 and ex is None, 'exporting over existing files is not refused', rc=rc, ex=repr(ex)[:200])
    rc, text, ex = invoke([*args, '--overwrite'], case, mon.tmp)
    mon.check(rc == 0, 'exporting with overwrite fails', rc=rc, out=text[-300:])
    mon.count('export')
    mon.count(case['cmd'])
    mon.count('process', int(case['proc']))
    mon.state(('export', case['cmd'], case['proc'], len(names)))


# ------------------------------------------------------------------------------------ errors
def error(case, mon, rng):
    tmp = mon.tmp
    out = tmp / 'out'
    out.mkdir()
    cmd = case['cmd']
    junk = tmp / 'junk.tif'
    junk.write_bytes(b'II*\x00' + bytes(rng.randrange(256) for _ in range(60)))
    none = tmp / 'none.tif'
    fl = {}  # option: value
    pos = []
    extra = []
    opts = ['interp', 'dtype', 'compress', 'driver', 'co', 'outdir', 'unknown', 'novalue']
    if cmd == 'sharpen':
        pr = pan.Pair(pan.pan_spec(rng, bands=3, dtype='uint8'))
        pf, mf = pr.write(tmp)
        fl = {'-p': pf, '-ms': mf, '-of': out / 'o.tif'}
        opts.remove('outdir')
        bad = rng.choice(['nopan', 'noms', 'junkpan', 'junkms', 'pidx', 'midx', 'negw', 'nw', 'optpan', 'optms', 'optout', *opts])
        if bad == 'nopan':
            fl['-p'] = none
        elif bad == 'noms':
            fl['-ms'] = none
        elif bad == 'junkpan':
            fl['-p'] = junk
        elif bad == 'junkms':
            fl['-ms'] = junk
        elif bad == 'pidx':
            extra = ['-pi', rng.choice([0, 2, -1])]
        elif bad == 'midx':
            extra = ['-mi', 1, '-mi', rng.choice([0, 4, -1])]
        elif bad == 'negw':
            extra = ['-w', 1, '-w', -1, '-w', 1]
        elif bad == 'nw':
            extra = ['-w', 1, '-w', 1]
        elif bad.startswith('opt') and bad != 'optx':
            fl.pop({'optpan': '-p', 'optms': '-ms', 'optout': '-of'}[bad])
    else:
        opts += ['res3', 'crs', 'alpha' if cmd != 'rpc' else 'res3', 'deminterp']
        if cmd == 'frame':
            s = frame_inputs(rng, tmp, case['n'], mon)
            files, a = s['ims'], s['args']
            fl = {'-d': tmp / 'dem.tif', '-ip': s['ip'], '-ep': s['ep'], '-c': CRS}
            if s['radians']:
                extra = ['-rd']
            more = ['noint', 'noext', 'badint', 'badext', 'optint', 'optext', 'unlisted', 'geocrs', 'nocrs']
        elif cmd == 'exif':
            files = exif_inputs(rng, tmp, case['n'])
            fl = {'-d': tmp / 'dem.tif'}
            more = ['geocrs', 'tagless', 'llacrs']
        elif cmd == 'odm':
            ds, files = odm_inputs(rng, tmp, case['n'])
            fl = {'-dd': ds}
            more = ['nodir', 'noimages', 'nodsm', 'norec', 'badrec', 'unlisted', 'junkdsm']
        else:
            loc, files, rpcs, gcps = rpc_inputs(rng, tmp, case['n'], True)
            from rasterio.warp import transform

            x, y = [v[0] for v in transform('EPSG:4979', CRS, [loc[0]], [loc[1]])]
            write_dem(tmp / 'dem.tif', rng, xy=(x, y), half=900.0, res=20.0, z0=300.0)
            fl = {'-d': tmp / 'dem.tif'}
            more = ['norpc', 'badrpc', 'nogcp', 'badgcp', 'tagless', 'gcptagless', 'fewgcp', 'method', 'unlisted_rpc']
        if cmd != 'odm':
            more += ['nodem', 'optdem', 'junkdem', 'farDem', 'demband', 'nosrc', 'noglob', 'junksrc']
            fl['-od'] = out
            pos = [str(f) for f in files]
        bad = rng.choice([*more, *more, *opts])
        k = rng.randrange(len(files))
        if bad in ('noint', 'noext', 'nodem', 'norpc', 'nogcp'):
            fl[dict(noint='-ip', noext='-ep', nodem='-d', norpc='-rp', nogcp='-gr')[bad]] = tmp / ('none' + dict(noint='.yaml', noext=rng.choice(['.csv', '.geojson']), nodem='.tif', norpc='.yaml', nogcp='.geojson')[bad])
        elif bad in ('badint', 'badext', 'badrpc', 'badgcp'):
            f = tmp / ('bad' + dict(badint=rng.choice(['.yaml', '.json', '.txt']), badext=rng.choice(['.csv', '.geojson', '.json', '.txt']), badrpc='.yaml', badgcp='.geojson')[bad])
            f.write_bytes(rng.choice([b'', b'[1, 2', b'a: b\n', b'{"a": 1}', b'\xff\xfe\x00', b'x,y\n1,2\n']))
            if bad == 'badext' and f.suffix == '.json':
                f.write_text('[1]')
            if bad == 'badrpc':
                f.write_bytes(rng.choice([b'[1, 2', b'a: b\n', b'\xff\xfe\x00']))
            fl[dict(badint='-ip', badext='-ep', badrpc='-rp', badgcp='-gr')[bad]] = f
        elif bad in ('optint', 'optext', 'optdem'):
            fl.pop(dict(optint='-ip', optext='-ep', optdem='-d')[bad])
        elif bad == 'unlisted':
            f = files[0].parent / 'src_zz.tif'
            scene.write_tif(f, np.ones((1, 8, 8), np.uint8))
            pos.insert(rng.randrange(len(pos) + 1), str(f)) if cmd != 'odm' else None
        elif bad == 'unlisted_rpc':
            f = tmp / 'rpc_param.yaml'
            f.write_text(yaml.safe_dump({'other.tif': dict(im_size=list(rpcs[0][0]), rpc={k: v for k, v in rpcs[0][1].items() if v is not None})}))
            fl['-rp'] = f
        elif bad == 'geocrs':
            fl['-c'] = 'EPSG:4326'
        elif bad == 'nocrs':
            fl.pop('-c')
            if s['fmt'] in ('geojson', 'lla') or s['ep'].with_suffix('.prj').exists():
                fl['-c'] = 'garbage'
        elif bad == 'llacrs':
            fl['-lc'] = rng.choice(['EPSG:32735', 'garbage'])
        elif bad == 'tagless':
            pos[k] = str(tmp / 'tagless.tif')
            scene.write_tif(pos[k], np.ones((3, 8, 8), np.uint8))
        elif bad == 'gcptagless':
            pos.append(str(tmp / 'tagless.tif'))
            import rasterio as rio
            from rasterio.rpc import RPC

            with rio.open(pos[-1], 'w', driver='GTiff', width=8, height=8, count=1, dtype='uint8') as d:
                d.rpcs = RPC(**rpcs[0][1])
            fl['-gr'] = 'tags'
        elif bad == 'fewgcp':
            g = tmp / 'gcps.geojson'
            f = files[k].name
            g.write_text(json.dumps(dict(type='FeatureCollection', features=[dict(type='Feature', properties=dict(filename=f, ji=gcps[f][0]['ji'], id=None, info=None), geometry=dict(type='Point', coordinates=gcps[f][0]['xyz']))])))
            fl['-gr'], fl['-rm'] = g, 'shift-drift'
        elif bad == 'method':
            fl['-gr'], fl['-rm'] = 'tags', 'drift'
        elif bad == 'nodir':
            fl['-dd'] = tmp / 'nowhere'
        elif bad == 'noimages':
            for f in files:
                f.unlink()
        elif bad in ('nodsm', 'junkdsm'):
            f = ds / 'odm_dem' / 'dsm.tif'
            f.unlink()
            if bad == 'junkdsm':
                f.write_bytes(junk.read_bytes())
        elif bad == 'norec':
            (ds / 'opensfm' / 'reconstruction.json').unlink()
        elif bad == 'badrec':
            (ds / 'opensfm' / 'reconstruction.json').write_text(rng.choice(['', '[]', '{}', '[{"a": 1}]', 'abc']))
        elif bad == 'junkdem':
            fl['-d'] = junk
        elif bad == 'farDem':
            write_dem(tmp / 'far.tif', rng, xy=(X0 + 50000, Y0))
            fl['-d'] = tmp / 'far.tif'
        elif bad == 'demband':
            extra += ['-db', rng.choice([0, 3, -1])]
        elif bad == 'nosrc':
            pos.insert(rng.randrange(len(pos) + 1), str(none))
        elif bad == 'noglob':
            pos = [str(tmp / 'nothing*.tif')]
        elif bad == 'junksrc':
            f = files[k]
            f.write_bytes(junk.read_bytes())
    if bad in ('interp', 'deminterp'):
        extra += ['-i' if bad == 'interp' else '-di', rng.choice(['foo', 'NEAREST', ''])]
    elif bad == 'dtype':
        extra += ['-dt', rng.choice(['int32', 'foo', 'complex64'])]
    elif bad == 'compress':
        extra += ['-cm', rng.choice(['zip', 'JPEG'])]
    elif bad == 'driver':
        extra += ['-dv', 'png']
    elif bad == 'co':
        extra += ['-co', 'tiled']
    elif bad == 'outdir':
        fl['-od'] = tmp / 'not there'
    elif bad == 'unknown':
        extra += [rng.choice(['--foo', '-zz'])]
    elif bad == 'novalue':
        extra += ['--interp']
        pos = []
    elif bad == 'res3':
        extra += ['-r', 1, '-r', 2, '-r', 3]
    elif bad == 'crs':
        fl['-c'] = rng.choice(['garbage', 'EPSG:1', 'EPSG:32 735', str(tmp / 'no such.prj'), 'nothing.tif'])
    elif bad == 'alpha':
        extra += ['-a', rng.choice([-0.1, 1.5, 'x'])]
    args = [cmd]
    for o, v in fl.items():
        args += [o, v]
    args += extra if bad == 'novalue' else [*extra, *pos]
    if bad == 'novalue':
        args = [cmd, *args[1:]]
    rc, text, ex = invoke(args, case, tmp)
    mon.count('errors')
    mon.state(('error', cmd, bad))
    if bad.startswith('junk'):
        # a damaged image is an error, which need not be a usage error
        mon.check(rc != 0, 'a damaged image is not an error', bad=bad, cmd=cmd)
        return
    mon.check(ex is None, 'a bad input ends with a traceback', bad=bad, cmd=cmd, ex=repr(ex)[:300], args=str(args)[:500], out=text[-300:] if case['proc'] else '')
    mon.check(rc != 0, 'a bad input is not an error', bad=bad, cmd=cmd, args=str(args)[:500], out=text[-200:])
    mon.check('Error' in text, 'a bad input has no usage message', bad=bad, cmd=cmd, out=text[-300:])


# ------------------------------------------------------------------------------ simple-ortho
def simple(case, mon, rng):
    """The legacy command."""
    from orthority import Ortho
    from orthority.camera import create_camera

    tmp = mon.tmp
    z0 = write_dem(tmp / 'dem.tif', rng)
    p0 = gen.frame_param(rng, size=rng.choice([(60, 40), (40, 60), (70, 50)]))
    dirs = [tmp / 'src dir', tmp / 'src2'][: min(case['n'], rng.choice([1, 2]))]
    for d in dirs:
        d.mkdir()
    dtype, bands = rng.choice(['uint8', 'uint16', 'int16', 'float32']), rng.choice([1, 3])
    own = rng.random() < 0.3
    ims, rows = [], []
    for k in range(case['n']):
        p = dict(p0)
        pose(rng, p, z0)
        f = dirs[k % len(dirs)] / f'src_{k:02d}{rng.choice(["", ".v2"])}.tif'
        scene.write_tif(f, src_array(rng, p['im_size'], dtype, bands), **(dict(crs=CRS) if own else {}))
        deg = [math.degrees(v) for v in p['opk']]
        ims.append((f, p['xyz'], np.radians(deg)))
        rows.append(' '.join([f.stem, *map(repr, p['xyz']), *map(repr, deg)]))
    rng.shuffle(rows)
    (tmp / 'pos_ori.txt').write_text('\n'.join(rows) + '\n')
    kw = {}
    for prob, key, vals in [(0.6, 'interp', INTERPS), (0.6, 'dem_interp', INTERPS), (0.5, 'per_band', [True, False]), (0.5, 'build_ovw', [True, False]), (0.5, 'write_mask', [True, False, None]),
                            (0.4, 'dtype', ['uint8', 'uint16', 'float32', None]), (0.4, 'compress', ['deflate', None]), (0.7, 'resolution', [[1.0, 1.0], [2.5, 1.5], [1.3, 1.3]])]:  # fmt: skip
        if rng.random() < prob:
            kw[key] = rng.choice(vals)
    distort = rng.choice([True, False, None])
    band = rng.choice([1, 2, None])
    conf = dict(
        camera=dict(**(dict(name='a camera') if rng.random() < 0.5 else {}), type=p0['model'], **{k: list(v) if isinstance(v, tuple) else v for k, v in gen.int_kwargs(p0).items()}),
        ortho=dict(crs=None if own else CRS, overwrite=True, **kw, **({} if distort is None else dict(full_remap=distort)), **({} if band is None else dict(dem_band=band))),
    )
    (tmp / 'conf.yaml').write_text(yaml.safe_dump(conf))
    src = [str(f) for f, _, _ in ims]
    rng.shuffle(src)
    if rng.random() < 0.4:
        src = [str(d / 'src*.tif') for d in dirs]
    args = [*src, tmp / 'dem.tif', tmp / 'pos_ori.txt', rng.choice(['-rc', '--read-conf']), tmp / 'conf.yaml']
    mon.count('simple')
    if case['mode'] == 'export':
        ok, text = invoke_simple([*args, rng.choice(['-wc', '--write-conf']), tmp / 'out.yaml'], case, tmp)
        mon.check(ok and yaml.safe_load((tmp / 'out.yaml').read_text()) == conf, 'the written configuration is not that read', out=text[-300:])
        return
    out = tmp / 'out' if rng.random() < 0.6 else None
    if out:
        if rng.random() < 0.5:
            out.mkdir()
        args += [rng.choice(['-od', '--ortho-dir']), out]
    ok, text = invoke_simple(args, case, tmp)
    mon.check(ok, 'the legacy command fails', out=text[-400:])
    mon.count('process', int(case['proc']))
    api = tmp / 'api'
    api.mkdir()
    for f, xyz, opk in ims:
        cam = create_camera(p0['model'], **gen.int_kwargs(p0), xyz=tuple(xyz), opk=tuple(opk), distort=distort is not False)
        exp = api / f'{f.stem}.tif'
        Ortho(str(f), str(tmp / 'dem.tif'), cam, CRS, dem_band=band or 1).process(exp, **{k: tuple(v) if k == 'resolution' else v for k, v in kw.items()})
        compare(mon, (out or f.parent) / f'{f.stem}_ORTHO.tif', exp, f'simple-ortho {f.name}')
    mon.state(('simple', len(ims), len(dirs), bool(out), tuple(sorted(kw))))


def run(case, mon):
    rng = random.Random(case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['mode'] == 'error':
            error(case, mon, rng)
        else:
            dict(frame=frame, exif=exif, odm=odm, rpc=rpc, sharpen=sharpen, simple=simple)[case['cmd']](case, mon, rng)
