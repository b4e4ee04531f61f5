"""Failures while reading or writing are reported, never silently ignored."""
import random
import threading
import time
import warnings
from pathlib import Path

import numpy as np

from vlib import hooks, pan, params, scene

ID = 'C24'
RULE = (
    'Random orthorectifications and pan-sharpenings (all cameras, formats, per band or not, datasets or paths as inputs, thread counts, delays) are run once while the monitors count their opens, block reads, warped reads, remaps, block writes, mask writes and overview builds; then run again with one such call, '
    'chosen at random among all of those seen, made to fail (raster library error, memory error, OpenCV error, OS error); or with a truncated input file; or with a remote output file system that fails to store or to commit the file. The failure must surface as an exception, in bounded time, with inputs intact and no thread left; a repeat with overwrite and without the fault must give the normal result. Non-trivial when the fault was reached.'
)
ASSUME = ['errors that the raster library itself swallows (when flushing at close) cannot be seen by its users']
NEED = ['ortho', 'pan', 'fired', 'write', 'write_mask', 'overviews', 'read', 'vrt_read', 'remap', 'open', 'truncated', 'repeated', 'store', 'commit']
TIMEOUT = 120


def cases(rng, tier):
    n = 700 if tier == 'quick' else 9000
    out = []
    for k in range(n):
        out.append(dict(
            tool='pan' if k % 3 == 0 else 'ortho', seed=rng.randrange(1 << 30), fault=rng.choice(['write', 'write', 'write_mask', 'overviews', 'read', 'read', 'vrt_read', 'remap', 'open', 'truncate', 'store', 'commit']),
            exc=rng.choice(['rio', 'rio', 'mem', 'cv', 'os']), given=rng.choice(['path', 'path', 'ds', 'ofile']), driver=rng.choice(['gtiff', 'gtiff', 'cog']), wm=rng.choice([None, True, False]), per_band=rng.random() < 0.5,
            ovw=rng.random() < 0.7, cpu=rng.choice([None, 1, 2, 8]), delay=rng.choice([0, 0, 0.003]), when=rng.choice(['any', 'any', 'first', 'last']), progress=rng.random() < 0.3,
        ))  # fmt: skip
    return out


def given(f, how, opened):
    import fsspec
    import rasterio as rio

    if how == 'ds':
        d = rio.open(f)
        opened.append(d)
        return d
    return fsspec.open(str(f), 'rb') if how == 'ofile' else str(f)


def attempt(job, ses, mon):
    """(exception or None, seconds, dataset still usable)."""
    t0 = time.monotonic()
    err = None
    try:
        if ses:
            with ses:
                job()
        else:
            job()
    except BaseException as ex:
        if isinstance(ex, (KeyboardInterrupt, SystemExit)):
            raise
        err = ex
    dt = time.monotonic() - t0
    for _ in range(150):
        left = [t for t in threading.enumerate() if 'ThreadPool' in t.name]
        if not left:
            break
        time.sleep(0.02)
    mon.check(not left, 'threads are left running', left=len(left))
    return err, dt


def read_all(f):
    import rasterio as rio

    with rio.open(f) as d:
        p = dict(d.profile)
        p['nodata'] = str(p['nodata'])
        return p, d.read(), d.read_masks(), [d.overviews(i) for i in d.indexes]


def same(a, b):
    return a[0] == b[0] and a[3] == b[3] and np.array_equal(a[2], b[2]) and np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == 'f')


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def _run(case, mon):
    import io
    from contextlib import redirect_stderr

    from orthority import Ortho, PanSharpen

    rng = random.Random(case['seed'])
    tmp = mon.tmp
    ins = tmp / 'in'
    ins.mkdir()
    out = tmp / 'out'
    out.mkdir()
    kw = dict(driver=case['driver'], write_mask=case['wm'], build_ovw=case['ovw'], compress=rng.choice([None, 'deflate', 'lzw']))
    if case['progress']:
        kw['progress'] = True
    opened = []
    if case['tool'] == 'ortho':
        spec = scene.ortho_spec(rng, size=rng.choice([(60, 40), (150, 110), (330, 300)]), bands=rng.choice([1, 2, 3]), distort=rng.random() < 0.7)
        sc = scene.Scene(spec, ins)
        src, dem = sc.write_src(), sc.write_dem()
        files = [Path(src), Path(dem)]
        kw.update(per_band=case['per_band'], interp=rng.choice(['nearest', 'bilinear', 'cubic']))
        if spec['kind'] == 'frame' and rng.random() < 0.5:
            kw['resolution'] = (spec['gsd'] * 0.7,) * 2
        if case['driver'] == 'gtiff' and rng.random() < 0.4:
            kw['creation_options'] = dict(tiled=True, blockxsize=64, blockysize=64)
            kw.pop('compress')

        def job(o, overwrite=False):
            cam = sc.camera()
            a = [given(f, case['given'], opened) for f in files]
            Ortho(a[0], a[1], cam, sc.crs).process(o, overwrite=overwrite, **kw)

    else:
        pr = pan.Pair(pan.pan_spec(rng, ms=rng.choice([[40, 33], [120, 90]]), ratio=rng.choice([2, 4])))
        files = [Path(f) for f in pr.write(ins)]
        kw['weights'] = [1.0] * pr.s['bands']
        if rng.random() < 0.3:
            kw.pop('weights')
        if case['driver'] == 'gtiff' and rng.random() < 0.6:
            kw['creation_options'] = dict(tiled=True, blockxsize=64, blockysize=64)
            kw.pop('compress')

        def job(o, overwrite=False):
            a = [given(f, case['given'], opened) for f in files]
            PanSharpen(*a).process(o, overwrite=overwrite, **kw)

    def quiet(*a, **k):
        with redirect_stderr(io.StringIO()):
            job(*a, **k)

    # the normal result, and the calls that make it
    ses = hooks.Session(seed=case['seed'], cpu=case['cpu'])
    try:
        with ses:
            quiet(out / 'normal.tif')
    except Exception as ex:
        from orthority.errors import OrthorityError

        if case['tool'] == 'pan' and isinstance(ex, OrthorityError) and 'weights' not in kw:
            mon.trivial = 'no weights'
            return
        raise
    for d in opened:
        d.close()
    opened.clear()
    normal = read_all(out / 'normal.tif')
    before = params.snapshot(ins)
    target = out / 'faulty.tif'
    remote = None
    if case['fault'] in ('store', 'commit'):
        # output to a remote file system, that fails to store the file contents, or to commit them when the file is closed
        import fsspec

        remote = failing_fs()
        target = fsspec.core.OpenFile(remote, '/faulty.tif', 'wb')

    def result():
        if remote is None:
            return read_all(target)
        (out / 'remote.tif').write_bytes(remote.cat('/faulty.tif'))
        return read_all(out / 'remote.tif')

    if case['fault'] == 'truncate':
        f = rng.choice(files)
        data = f.read_bytes()
        # keep the header readable
        keep = rng.uniform(0.3, 0.97)
        f.write_bytes(data[: int(len(data) * keep)])
        err, dt = attempt(lambda: quiet(target), hooks.Session(seed=1, cpu=case['cpu']), mon)
        for d in opened:
            d.close()
        opened.clear()
        lost = unreadable(f)
        if lost:
            mon.count('truncated')
            # the part that is lost may not be needed, then the result is the normal one
            ok = err is not None or same(read_all(target), normal)
            mon.check(ok, 'a truncated input gives a different output without an error', file=f.name, tool=case['tool'], keep=keep, lost=lost)
            mon.count('truncated_error' if err else 'truncated_unneeded')
        f.write_bytes(data)
        ses = None
    elif remote is not None:
        remote.fault = case['fault']
        err, dt = attempt(lambda: quiet(target), hooks.Session(seed=1, cpu=case['cpu']), mon)
        mon.check(remote.fired, 'an output file object is never written or closed', fault=case['fault'], err=repr(err)[:200])
        mon.check(err is not None, 'a failure is ignored', kind=case['fault'], tool=case['tool'])
        for q in ('fired', case['fault'], case['tool']):
            mon.count(q)
        remote.fault = None
        ses = None
    else:
        n = ses.counts.get(case['fault'], 0)
        if not n:
            mon.trivial = f"no {case['fault']}"
            return
        k = dict(first=0, last=n - 1).get(case['when'], rng.randrange(n))
        ses = hooks.Session(seed=case['seed'], cpu=case['cpu'], delay=case['delay'], fault=(case['fault'], k, case['exc']))
        err, dt = attempt(lambda: quiet(target), ses, mon)
        if not ses.fired:
            # the number of calls varies with the schedule
            mon.check(err is None, 'an error without a fault', err=repr(err)[:300])
            mon.trivial = 'fault not reached'
        else:
            mon.count('fired')
            mon.count(case['fault'])
            mon.count(case['tool'])
            mon.state((case['tool'], case['fault'], case['exc'], case['when'], case['driver'], case['given'], n if n < 20 else n // 10 * 10))
            mon.check(err is not None, 'a failure is ignored', kind=case['fault'], call=k, of=n, tool=case['tool'], exc=case['exc'])
    mon.check(dt < 40, 'the failure takes long to be reported', seconds=dt)
    # inputs are intact and usable
    for d in opened:
        mon.check(not d.closed, 'an input dataset is closed by the failure')
        d.read(1)
        d.close()
    opened.clear()
    mon.check(params.snapshot(ins) == before, 'an input is changed by the failure')
    # the operation can be repeated
    again, dt = attempt(lambda: quiet(target, overwrite=True), None, mon)
    for d in opened:
        d.close()
    mon.check(again is None, 'the operation cannot be repeated with overwrite after a failure', first=repr(err)[:200], err=repr(again)[:300], cause=repr(getattr(again, '__cause__', None))[:200], **{q: case[q] for q in ('tool', 'fault', 'driver', 'given')})
    mon.check(same(result(), normal), 'the repeated result differs from the normal one', tool=case['tool'], fault=case['fault'])
    mon.count('repeated')


def failing_fs():
    """In-memory file system, with a fault that can be set to fail writing ('store') or closing ('commit') of its files once."""
    from fsspec.implementations.memory import MemoryFileSystem

    class FailingFileSystem(MemoryFileSystem):
        protocol = 'failing'
        cachable = False
        store = {}
        pseudo_dirs = ['']
        fault = None
        fired = False

        def _open(self, path, mode='rb', **kw):
            f = super()._open(path, mode, **kw)
            if 'w' in mode:
                w, c = f.write, f.close

                def write(b):
                    if self.fault == 'store' and not self.fired:
                        self.fired = True
                        raise OSError('injected: no space')
                    return w(b)

                def close():
                    c()
                    if self.fault == 'commit' and not self.fired:
                        self.fired = True
                        raise OSError('injected: upload failed')

                f.write, f.close = write, close
            return f

    return FailingFileSystem()


def unreadable(f):
    """Whether rasterio itself cannot read (or open) the file."""
    import rasterio as rio

    try:
        with rio.open(f) as d:
            d.read()
        return False
    except Exception as ex:
        return repr(ex)[:100]
