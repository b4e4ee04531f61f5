"""Multi-file readers return each file's own data in input order under any schedule."""
import io
import random
import threading
import time
import warnings
from contextlib import redirect_stderr

import numpy as np

from vlib import exifw, gen, hooks, params

ID = 'C22'
RULE = (
    'Lists of 1 to 60 images with their own RPC tags, GCPs (several CRSs) or EXIF / XMP tags are read, with random file kinds (path, string, OpenFile, dataset), pool sizes, progress settings and delays of the file opens (random, first slow, last slow, reversed) or preemption of the workers between bytecode instructions, '
    'and the result compared with the values written in each file. Missing, tagless, damaged and unreadable files (and injected open failures) at any position must raise an error naming the file. Open events are recorded. Non-trivial when 2 or more files were read.'
)
ASSUME = ['file names in a list are distinct (they are the keys of the results)']
NEED = ['files', 'rpc', 'gcps', 'exif', 'errors', 'missing', 'tagless', 'damaged', 'injected', 'reordered', 'cameras', 'datasets', 'preempted']
TIMEOUT = 60


def cases(rng, tier):
    n = 1300 if tier == 'quick' else 16000
    return [
        dict(seed=rng.randrange(1 << 30), kind=['rpc', 'gcps', 'exif'][k % 3], n=rng.choice([1, 2, 3, 5, 9, 16, 30, 60]), via=rng.choice(['str', 'path', 'ofile', 'ds', 'mix']),
             sched=rng.choice([None, 'random', 'random', 'first', 'last', 'reverse']), cpu=rng.choice([None, 1, 2, 30]), bad=rng.choice([None, None, None, 'missing', 'tagless', 'damaged', 'truncated', 'injected', 'two']),
             progress=rng.choice([None, False, True, 'dict']), factory=rng.random() < 0.3, switch=rng.choice([None, 1e-6]),
             preempt=rng.choice([None, None, None, None, dict(every=4, limit=0.4), dict(every=20, limit=0.4)]))
        for k in range(n)
    ]  # fmt: skip


def write_image(path, size, rpc=None, gcps=None, crs=None, seed=0):
    import rasterio as rio
    from rasterio.control import GroundControlPoint
    from rasterio.rpc import RPC

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', driver='GTiff', width=size[0], height=size[1], count=1, dtype='uint8') as ds:
            if rpc:
                ds.rpcs = RPC(**rpc)
            if gcps:
                ds.gcps = ([GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['raw'][0], y=g['raw'][1], z=g['raw'][2], id=g['id']) for g in gcps], crs)
            ds.write(np.full((1, size[1], size[0]), seed % 255, np.uint8))


def make(rng, kind, path, k):
    """Write a random image, and return what it holds."""
    from rasterio.crs import CRS
    from rasterio.warp import transform

    size = (rng.randrange(8, 40), rng.randrange(8, 40))
    if kind == 'rpc':
        rpc = gen.rpc_param(rng)['rpc']
        write_image(path, size, rpc=rpc, seed=k)
        return dict(size=size, rpc=rpc)
    if kind == 'gcps':
        crs = rng.choice(['EPSG:4326', 'EPSG:4979', 'EPSG:32735', 'EPSG:3857', 'EPSG:4222'])
        lon, lat = 27 + rng.uniform(-2, 2), -30 + rng.uniform(-2, 2)
        gcps = params.gcp_list(rng, (lon, lat), rng.choice([1, 3, 6]), size=size)
        for q, g in enumerate(gcps):
            g['id'] = f'{k}-{q}'
            if crs == 'EPSG:4222':
                # another geographic datum
                g['raw'] = g['xyz']
                g['xyz'] = tuple(v[0] for v in transform(CRS.from_string(crs), CRS.from_epsg(4979), *[[c] for c in g['raw']]))
                continue
            g['raw'] = g['xyz'] if crs in ('EPSG:4326', 'EPSG:4979') else [v[0] for v in transform(CRS.from_epsg(4979), CRS.from_string(crs), *[[c] for c in g['xyz']])]
        write_image(path, size, gcps=gcps, crs=crs, seed=k)
        return dict(size=size, gcps=gcps)
    lla = (-30 + rng.uniform(-0.05, 0.05), 27 + rng.uniform(-0.05, 0.05), round(rng.uniform(100, 900), 2))
    rpy = [round(rng.uniform(-15, 15), 2), round(rng.uniform(-30, 30), 2), round(rng.uniform(-180, 180), 2)]
    f35 = 20 + k
    tags = dict(Make='DJI', Model='M', BodySerialNumber=f's{k}', FocalLengthIn35mmFilm=f35)
    xmp = [('dji', 'GpsLatitude', f'{lla[0]:.8f}'), ('dji', 'GpsLongtitude', f'{lla[1]:+.8f}'), ('dji', 'AbsoluteAltitude', f'{lla[2]:+.2f}'),
           ('dji', 'GimbalRollDegree', f'{rpy[0]:+.2f}'), ('dji', 'GimbalPitchDegree', f'{rpy[1] - 90:+.2f}'), ('dji', 'GimbalYawDegree', f'{rpy[2]:+.2f}')]  # fmt: skip
    if rng.random() < 0.4:
        # the position in EXIF instead of XMP tags
        def dms(v):
            d, r = divmod(abs(v), 1)
            m, r = divmod(r * 60, 1)
            return int(d), int(m), round(r * 60, 4)

        xmp = xmp[3:]
        tags.update(GPSLatitude=dms(lla[0]), GPSLatitudeRef='S', GPSLongitude=dms(lla[1]), GPSLongitudeRef='E', GPSAltitude=lla[2], GPSAltitudeRef=0)
    exifw.write(path, size, tags, xmp, rng.choice(['attr', 'elem']), seed=k)
    return dict(size=size, lla=lla, rpy=rpy, f35=f35, cid=f'dji m s{k}')


class Schedule(hooks.Session):
    """Delays the opens in a pattern."""

    def __init__(self, pattern, n, names, fail=None, **kw):
        super().__init__(**kw)
        self.pattern, self.n, self.names, self.fail = pattern, n, names, fail
        self.done = []
        self.failed = None

    def call(self, kind, ds, info, fn, exclusive=False, serial=True):
        if kind != 'open':
            return super().call(kind, ds, info, fn, exclusive, serial)
        k = next((q for q, nm in enumerate(self.names) if nm in info[0]), None)
        if k is not None:
            d = dict(random=self.rng.uniform(0, 0.01), first=0.06 * (k == 0), last=0.06 * (k == self.n - 1), reverse=0.002 * (self.n - k)).get(self.pattern, 0)
            if d:
                time.sleep(d)
        if k is not None and k == self.fail:
            self.failed = k
            with self._lock:
                self.counts['open'] = self.counts.get('open', 0) + 1
            raise hooks._fault_exc('rio')
        r = super().call(kind, ds, info, fn, exclusive, serial)
        if k is not None:
            with self._lock:
                self.done.append(k)
        return r


def run(case, mon):
    import fsspec
    import rasterio as rio
    from orthority import FrameCameras, RpcCameras
    from orthority.errors import ParamError
    from orthority.param_io import ExifReader, read_im_gcps, read_im_rpc_param

    warnings.simplefilter('ignore')
    rng = random.Random(case['seed'])
    n, kind = case['n'], case['kind']
    names = [f'{c}{k:03d}x' for k, c in enumerate(rng.choices('abz', k=n))]
    rng.shuffle(names)
    files, held = [], []
    sub = [mon.tmp / 'd1', mon.tmp / 'd2 é']
    for d in sub:
        d.mkdir()
    for k, nm in enumerate(names):
        f = rng.choice(sub) / (nm + (rng.choice(['.tif', '.jpg']) if kind == 'exif' else '.tif'))
        held.append(make(rng, kind, f, k))
        files.append(f)
    bad, nbad, fail = case['bad'], [], None
    if bad:
        nbad = rng.sample(range(n), min(n, 2 if bad == 'two' else 1))
        for b, q in zip(nbad, ['missing', 'damaged'] if bad == 'two' else [bad]):
            if q == 'missing':
                files[b].unlink()
            elif q == 'tagless':
                files[b].unlink()
                if kind == 'exif' and rng.random() < 0.5:
                    exifw.write(files[b], (10, 10), dict(Make='X'), None, 'attr')
                else:
                    write_image(files[b], (10, 10))
            elif q == 'damaged':
                files[b].write_bytes(bytes(rng.randrange(256) for _ in range(200)))
            elif q == 'truncated':
                d = files[b].read_bytes()
                files[b].write_bytes(d[: rng.randrange(0, 8)])
            else:
                fail = b
    opened = []

    def given(k):
        v = case['via'] if case['via'] != 'mix' else rng.choice(['str', 'path', 'ofile', 'ds'])
        if v == 'ds' and k not in nbad:
            d = rio.open(files[k])
            opened.append(d)
            return d
        return files[k] if v == 'path' else fsspec.open(str(files[k]), 'rb') if v == 'ofile' and k != fail else str(files[k])

    fs = [given(k) for k in range(n)]
    fs = rng.choice([fs, tuple(fs)])
    kw = {}
    if case['progress'] is not None:
        kw = dict(progress=dict(desc='x', leave=False) if case['progress'] == 'dict' else case['progress'])
    before = threading.active_count()
    # names of opened files: those given as OpenFile are opened from memory or a handle and are not recognised
    ses = Schedule(case['sched'], n, names, fail=fail, seed=case['seed'], cpu=case['cpu'], switch=case['switch'], preempt=case['preempt'] if n > 1 else None)
    err = got = None
    factory = case['factory'] and kind in ('rpc', 'exif')
    t0 = time.monotonic()
    try:
        with ses, redirect_stderr(io.StringIO()):
            if kind == 'rpc':
                got = RpcCameras.from_images(fs, io_kwargs=kw) if factory else read_im_rpc_param(fs, **kw)
            elif kind == 'gcps':
                got = read_im_gcps(fs, **kw)
            elif factory:
                got = FrameCameras.from_images(fs, io_kwargs=kw)
            else:
                r = ExifReader(fs, **kw)
                got = r.read_int_param(), r.read_ext_param(), r.crs
    except Exception as ex:
        err = ex
    if ses.preempt:
        mon.count('preempted', ses.preempt.preempted)
    if err is not None and not bad:
        raise err
    wall = time.monotonic() - t0
    for k in range(100):
        if threading.active_count() <= before:
            break
        time.sleep(0.02)
    # tqdm may keep its one monitor thread
    left = [t for t in threading.enumerate() if 'ThreadPool' in t.name]
    mon.check(not left, 'reading threads are left running', left=[t.name for t in left][:3])
    mon.check(all(not d.closed for d in opened), 'a dataset of the caller is closed')
    mon.count('datasets', len(opened))
    for d in opened:
        d.close()
    if len(ses.done) > 1 and ses.done != sorted(ses.done):
        mon.count('reordered')
        mon.state(('order', tuple(ses.done[:8])))
    mon.count('opens', len(ses.done))
    if n < 2:
        mon.trivial = 'a single file'
    if bad:
        if fail is not None and ses.failed is None:
            # given as a dataset: no open to fail
            mon.count('not opened')
            return
        if not mon.check(err is not None, 'a bad file is not an error', bad=bad, kind=kind, got=str(got)[:200]):
            return
        text, ex = '', err
        while ex is not None:
            text += f'{type(ex).__name__}: {ex}\n'
            ex = ex.__cause__ or ex.__context__
        mon.check(any(names[b] in text for b in nbad), 'the error does not name the bad file', err=text[:300], bad=bad, kind=kind)
        mon.check(not any(nm in str(err) for k, nm in enumerate(names) if k not in nbad), 'the error names another file', err=str(err)[:300], bad=bad)
        if bad == 'missing':
            mon.check(isinstance(err, FileNotFoundError), 'a missing file does not raise FileNotFoundError', err=repr(err)[:200])
        elif bad == 'tagless':
            mon.check(isinstance(err, ParamError), 'a file without tags does not raise ParamError', err=repr(err)[:200])
        mon.check(wall < 30, 'the error takes long', wall=wall)
        mon.count('errors')
        mon.count('missing' if bad == 'two' else 'damaged' if bad == 'truncated' else bad)
        mon.state((kind, bad, type(err).__name__))
        return

    keys = [f.name for f in files]
    mon.count('files', n)
    mon.count(kind)
    mon.state((kind, n, case['via'], case['sched'], case['cpu']))
    if factory:
        mon.count('cameras')
        mon.check(set(got.filenames) == set(keys), 'cameras are not of the files', got=sorted(got.filenames)[:5])
        for k in range(n):
            cam = got.get(files[k])
            if kind == 'rpc':
                r = held[k]['rpc']
                mon.check(tuple(cam.im_size) == held[k]['size'], 'camera image size is not that of the file', k=k)
                xyz = np.array([[r['long_off']], [r['lat_off']], [r['height_off']]])
                exp = [r['samp_num_coeff'][0] * r['samp_scale'] + r['samp_off'], r['line_num_coeff'][0] * r['line_scale'] + r['line_off']]
                mon.check(np.allclose(cam.world_to_pixel(xyz)[:, 0], exp, atol=1e-3), 'camera is not that of the file', k=k)
            else:
                mon.check(tuple(cam.im_size) == held[k]['size'] and abs(cam.pos[2] - held[k]['lla'][2]) < 0.02, 'camera is not that of the file', k=k)
        return
    if kind == 'rpc':
        mon.check(list(got) == keys, 'RPC parameters are not of each file in order', got=list(got)[:5], exp=keys[:5])
        for k, key in enumerate(keys):
            g, h = got[key], held[k]
            mon.check(tuple(g['im_size']) == h['size'], 'image size is not that of the file', k=k)
            for q, v in h['rpc'].items():
                if v is not None:
                    mon.check(np.allclose(g['rpc'][q], v, rtol=1e-9, atol=1e-15), 'RPC parameters are not those in the file', k=k, q=q)
    elif kind == 'gcps':
        mon.check(list(got) == keys, 'GCPs are not of each file in order', got=list(got)[:5], exp=keys[:5])
        for k, key in enumerate(keys):
            g, h = got[key], held[k]['gcps']
            # (GeoTIFF does not keep GCP IDs)
            mon.check(len(g) == len(h), 'GCPs are not those in the file', k=k, got=len(g), exp=len(h))
            for a, b in zip(g, h):
                mon.check(np.allclose(a['ji'], b['ji'], atol=1e-6), 'GCP pixel position is not that in the file', k=k, got=a['ji'], exp=b['ji'])
                mon.check(np.allclose(a['xyz'], b['xyz'], rtol=0, atol=[1e-8, 1e-8, 1e-3]), 'GCP world position is not that in the file', k=k, got=a['xyz'], exp=b['xyz'])
    else:
        it, ex, crs = got
        mon.check(list(ex) == keys, 'exterior parameters are not of each file in order', got=list(ex)[:5], exp=keys[:5])
        mon.check(list(it) == [h['cid'] for h in held], 'interior parameters are not of each file in order', got=list(it)[:5])
        from rasterio.warp import transform

        for k, key in enumerate(keys):
            h = held[k]
            mon.check(ex[key]['camera'] == h['cid'], 'camera ID is not that in the file', k=k)
            i = it[h['cid']]
            mon.check(tuple(i['im_size']) == h['size'] and abs(np.ravel(i['focal_len'])[0] / (i['sensor_size'][0] / max(1, h['size'][0]) * max(h['size']) if i.get('sensor_size') else 1) * 36 - h['f35']) < 1e-6, 'interior parameters are not those in the file', k=k, got=str(i))
            x, y, z = transform('EPSG:4979', crs, [h['lla'][1]], [h['lla'][0]], [h['lla'][2]])
            mon.check(np.allclose(ex[key]['xyz'], (x[0], y[0], z[0]), rtol=0, atol=0.02), 'position is not that in the file', k=k, got=ex[key]['xyz'], exp=(x[0], y[0], z[0]))
