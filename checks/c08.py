"""Ortho output does not depend on thread schedule, tiling or band batching."""
import warnings

import numpy as np

from vlib import hooks, scene

ID = 'C08'
RULE = (
    'Random scenes on rough terrain processed several times with different worker counts, seeded delays in remap and write calls, preemption of the workers between bytecode instructions, tile shapes and band batching; '
    'hooked dataset writes give an exactly-once coverage map and an overlap detector, outputs are compared with a single-worker run. Non-trivial when the outputs have more than one tile.'
)
ASSUME = ['tile shape may change the 1/32 px coordinate rounding of OpenCV for isolated pixels (at most 0.2% of pixels, by at most one quantisation step)']
NEED = ['runs_compared', 'used_before', 'preempted']
TIMEOUT = 300
INTERP = ['nearest', 'average', 'bilinear', 'cubic', 'lanczos']


def sched(rng):
    d = dict(cpu=rng.choice([1, 2, 3, 5, 8, 16]), delay=rng.choice([0, 0.002, 0.006]), slow=rng.choice([0, 0.002]), switch=rng.choice([None, 1e-5, 1e-3]),
             seed=rng.randrange(1 << 30))
    if rng.random() < 0.6:
        # worker threads preempted between instructions
        d.update(cpu=rng.choice([2, 5, 8]), delay=0, slow=0, preempt=dict(every=rng.choice([8, 20, 40])))
    return d


def cases(rng, tier):
    n = 90 if tier == 'quick' else 700
    out = []
    for k in range(n):
        s = scene.ortho_spec(rng)
        s['rough'] = rng.random() < 0.7
        runs = []
        for _ in range(rng.choice([3, 4, 5])):
            runs.append(dict(hist=rng.random() < 0.4, sched=sched(rng), block=rng.choice(['base', 'base', [16, 16], [32, 16], [16, 48], [64, 64], 'strip', None, [256, 256]]),
                             per_band=rng.random() < 0.5, mask=rng.random() < 0.3, drv='cog' if rng.random() < 0.1 else 'gtiff', ovw=rng.random() < 0.2))
        out.append(dict(s=s, res=s['gsd'] * rng.choice([0.5, 0.8, 1.0, 1.5]), interp=INTERP[k % 5], dem_interp=rng.choice(['cubic', 'bilinear', 'nearest']),
                        block=rng.choice([[16, 16], [32, 16], [16, 48], [48, 32]]), hole=rng.random() < 0.4, runs=runs, mask=rng.random() < 0.4))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def opts_of(case, r, mask):
    b = r.get('block', 'base')
    b = case['block'] if b == 'base' else b
    o = dict(resolution=(case['res'],) * 2, interp=case['interp'], dem_interp=case['dem_interp'], per_band=r.get('per_band', False), write_mask=mask,
             build_ovw=r.get('ovw', False), overwrite=True)
    if r.get('drv') == 'cog':
        o.update(driver='cog', compress='deflate')
        b = None
    elif b == 'strip':
        o['creation_options'] = dict(compress='deflate')
    elif b:
        o['creation_options'] = dict(tiled=True, blockxsize=b[0], blockysize=b[1], compress='deflate')
    else:
        o['compress'] = 'lzw'
    return o, b


def _run(case, mon):
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho

    s = case['s']
    sc = scene.Scene(s, mon.tmp)
    src = sc.write_src()
    tr, shape = sc.dem_grid()
    z = sc.dem_array(tr, shape)
    rs = np.random.RandomState(s['dem_seed'])
    if s['rough']:
        z = z + rs.uniform(-2, 2, z.shape) * s['gsd']
    if case['hole']:
        i, j = rs.randint(0, z.shape[0]), rs.randint(0, z.shape[1])
        z[max(0, i - 3) : i + 4, max(0, j - 4) : j + 5] = np.nan
    dem = scene.write_tif(mon.tmp / 'dem.tif', z.astype('float32'), crs=sc.crs, transform=tr, nodata=float('nan'))
    undist = sc.kind == 'frame' and not s['distort'] and s['p']['model'] != 'pinhole'
    lossy_mask = undist and np.dtype(s['dtype']).kind in 'iu' and case['interp'] != 'nearest'
    ortho = Ortho(src, dem, sc.camera(), crs=sc.crs)
    base_opts, _ = opts_of(case, dict(per_band=case['runs'][0]['per_band'] if lossy_mask else False), case['mask'])
    with hooks.Session(cpu=1) as h:
        ortho.process(mon.tmp / 'base.tif', **base_opts)
    h.check_once(mon, 'single worker: ')
    ref = scene.read_ortho(mon.tmp / 'base.tif')
    # any pixel value of the int nodata is ambiguous in masks derived from nodata
    for k, r in enumerate(case['runs']):
        per_band = case['runs'][0]['per_band'] if lossy_mask else r['per_band']
        mask = case['mask'] if lossy_mask else r['mask']
        opts, blk = opts_of(case, dict(r, per_band=per_band), mask)
        q = r['sched']
        if k % 2:  # a new object, or another use of the same one
            ortho = Ortho(src, dem, sc.camera(), crs=sc.crs)
        if r['hist']:
            # earlier use of the same object, in ways that could leave something behind
            pre = dict(resolution=tuple(s['dem_res']) if q['seed'] % 3 else None, dem_interp=('cubic', 'nearest')[q['seed'] % 2], interp='nearest', compress='deflate', build_ovw=False, overwrite=True)
            try:
                ortho.process(mon.tmp / 'pre.tif', **pre)
                mon.count('used_before')
            except OrthorityError:
                pass
        with hooks.Session(seed=q['seed'], delay=q['delay'], slow=q['slow'], cpu=q['cpu'], switch=q['switch'], preempt=q.get('preempt')) as h:
            ortho.process(mon.tmp / 'out.tif', **opts)
        h.check_once(mon)
        h.check_overlap(mon)
        mon.count('tile_writes', h.counts.get('write', 0))
        if h.preempt:
            mon.count('preempted', h.preempt.preempted)
            mon.count('instructions', h.preempt.seen)
            mon.count('points', len(h.preempt.points))
        if len(h.threads) > 2:
            mon.count('threads_gt_1')
        if h.counts.get('write', 0) > 1:
            mon.state('order', h.order('write'))
        arr, valid, x, y, prof = scene.read_ortho(mon.tmp / 'out.tif')
        mon.check(prof['transform'].almost_equals(ref[4]['transform'], 1e-9) and prof['crs'] == ref[4]['crs'] and arr.shape == ref[0].shape, 'geo-referencing depends on schedule, tiling or band batching',
                  a=str(prof['transform']), b=str(ref[4]['transform']))
        same_tiles = blk == case['block']
        neq = (arr != ref[0]) & ~((arr != arr) & (ref[0] != ref[0]))
        if mask != case['mask'] and np.dtype(s['dtype']).kind in 'iu' and lossy_mask:
            neq &= valid & ref[1]
        if same_tiles:
            mon.check(not neq.any(), 'ortho values depend on schedule or band batching', n=int(neq.sum()), run=k, per_band=per_band)
            mon.check((valid == ref[1]).all(), 'ortho mask depends on schedule or band batching', n=int((valid != ref[1]).sum()), run=k)
        else:
            both = valid & ref[1]
            # vectorised and scalar code paths of OpenCV round differently
            eps = 4e-6 * max(1.0, float(np.nanmax(np.abs(ref[0][:, both].astype('f8')), initial=1.0))) if np.dtype(s['dtype']).kind == 'f' else 1.0
            vneq = (neq & both & ~(np.abs(arr.astype('f8') - ref[0].astype('f8')) <= eps)).any(axis=0)
            # border pixels may round in or out of the image
            tolpx = max(3, 0.002 * valid.size)
            mon.check((valid != ref[1]).sum() <= tolpx, 'ortho mask depends on tile shape', n=int((valid != ref[1]).sum()), tile=blk, base=case['block'])
            mon.check(vneq.sum() <= tolpx, 'ortho values depend on tile shape', n=int(vneq.sum()), tile=blk, base=case['block'])
            if vneq.any():
                mon.count('rounding_pixels', vneq.sum())
                d = max(np.abs((arr[b][both].astype('f8') - ref[0][b][both].astype('f8')) / c[1]).max() for b, c in enumerate(sc.code))
                lim = (1.05 if case['interp'] == 'nearest' else 0.25) * (2.5 if undist else 1)
                lim += max(1.01 / abs(c[1]) for c in sc.code) if np.dtype(s['dtype']).kind in 'iu' else 0
                mon.check(d <= lim, 'ortho values depend on tile shape', max_px=d, lim=lim)
        mon.count('runs_compared')
    if arr.shape[1] * arr.shape[2] < 16 * 32:
        mon.trivial = 'single tile'
