"""Pan-sharpening does not depend on thread schedule or tiling."""
import warnings

import numpy as np

from vlib import hooks, pan

ID = 'C14'
RULE = (
    'Random pan / multispectral pairs, several statistics tiles long or high, with masked areas, processed repeatedly with different worker counts, seeded delays in warped reads and writes, preemption of the workers between bytecode instructions, and tile shapes; '
    'hooked writes give an exactly-once map and an overlap detector, outputs are compared with a single-worker run and with the whole-image reference. Non-trivial when there is more than one tile.'
)
ASSUME = ['statistics accumulated in another order differ by rounding only (1e-9 relative)']
NEED = ['runs_compared', 'multi_stats_tiles', 'tile_writes', 'preempted']
TIMEOUT = 300


def sched(rng):
    d = dict(cpu=rng.choice([1, 2, 3, 5, 8, 16]), delay=rng.choice([0, 0.003, 0.01]), slow=rng.choice([0, 0.001]), switch=rng.choice([None, 1e-5, 1e-3]), seed=rng.randrange(1 << 30))
    if rng.random() < 0.5:
        # worker threads preempted between instructions
        d.update(cpu=rng.choice([2, 5, 8]), delay=0, slow=0, preempt=dict(every=rng.choice([8, 20, 40])))
    return d


def cases(rng, tier):
    n = 44 if tier == 'quick' else 700
    out = []
    for k in range(n):
        ms = rng.choice([[3400, 21], [20, 4200], [2100, 30], [1100, 1040], [2060, 25], [64, 50], [90, 70], [25, 2600]])
        s = pan.pan_spec(rng, ms=ms, ratio=2 if max(ms) > 1000 else rng.choice([2, 4]), bands=rng.choice([1, 2, 3]))
        if rng.random() < 0.3:
            s['off'] = [round(rng.uniform(-0.5, 0.5), 3), round(rng.uniform(-0.5, 0.5), 3)]
        big = max(ms) > 1000
        runs = [dict(sched=sched(rng), block=rng.choice([[64, 64], [256, 256], None, 'strip', [512, 64], [128, 512]] if big else [[16, 16], [32, 16], [16, 48], 'strip', None]), mask=rng.random() < 0.5,
                     drv='cog' if rng.random() < 0.1 else 'gtiff', ovw=rng.random() < 0.2) for _ in range(rng.choice([3, 4]))]
        holes = []
        if rng.random() < 0.6:
            w, h = ms
            ax = 1 if w > h else 0
            f = rng.choice([[0, 1100], [1000, 2100], [2048, 3072], [100, 140]]) if big else [5, 20]
            which = rng.choice(['ms', 'pan'])
            if which == 'pan':
                # not aligned with multispectral pixels: whether a pixel that only touches the hole is averaged is rounding
                f = [max(0, f[0] * s['ratio'] - 1), f[1] * s['ratio'] + 1]
            holes.append([which, ax, *f])
        out.append(dict(s=s, interp=rng.choice(['nearest', 'average', 'bilinear', 'cubic', 'lanczos']), holes=holes, how=rng.choice(['nodata', 'mask', 'nan']), runs=runs,
                        weights=None if rng.random() < 0.6 else [round(rng.uniform(0.1, 1), 2) for _ in range(s['bands'])]))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def opts_of(case, r):
    o = dict(interp=case['interp'], write_mask=r['mask'], build_ovw=r.get('ovw', False), weights=case['weights'], overwrite=True)
    b = r.get('block')
    if r.get('drv') == 'cog':
        o.update(driver='cog', compress='deflate')
    elif b == 'strip':
        o['creation_options'] = dict(compress='deflate')
    elif b:
        o['creation_options'] = dict(tiled=True, blockxsize=b[0], blockysize=b[1])
    else:
        o['compress'] = 'lzw'
    return o


def _run(case, mon):
    import rasterio as rio
    from orthority.pan_sharp import PanSharpen

    s = case['s']
    pr = pan.Pair(s)
    # values that differ between statistics tiles, so that a lost or repeated tile matters
    pr.trend()
    for which, ax, a, b in case['holes']:
        pr.hide(which, np.s_[:, a:b] if ax else np.s_[a:b, :])
    if pr.ms_valid.sum() < 200 or pr.pan_valid.sum() < 200:
        mon.trivial = 'few valid pixels'
        return
    p_, m_ = pr.write(mon.tmp, case['how'])
    ref = pan.reference(pr, None, 1, case['weights'], case['interp'])
    if ref['n'] < 100:
        mon.trivial = 'few valid pixels'
        return
    obj = PanSharpen(p_, m_)
    with hooks.Session(cpu=1) as hk:
        obj.process(mon.tmp / 'base.tif', **opts_of(case, dict(mask=True, block=None)))
    hk.check_once(mon, 'single worker: ')

    def read(f):
        with rio.open(f) as im:
            return im.read(), im.dataset_mask() > 0, im.transform, im.nodata

    base = read(mon.tmp / 'base.tif')
    dt = np.dtype(s['dtype'])
    r = ref['out']
    same = base[0].shape == r.shape and not ref['ambiguous']
    if same:
        ok = base[1] & np.isfinite(r).all(axis=0)
        d = np.abs(base[0].astype('f8') - (r if dt.kind == 'f' else np.clip(r, np.iinfo(dt).min, np.iinfo(dt).max)))[:, ok]
        tol = 0.5001 if dt.kind != 'f' else 1e-5 * max(1.0, np.abs(r[:, ok]).max())
        mon.check(d.max(initial=0) <= tol, 'single worker result differs from the whole-image reference', worst=d.max(initial=0), tol=tol)
    for k, q in enumerate(case['runs']):
        sc = q['sched']
        if k == 1:
            obj = PanSharpen(p_, m_)
        with hooks.Session(seed=sc['seed'], delay=sc['delay'] if max(s['ms']) < 1000 or sc['delay'] < 0.005 else 0.004, delay_kinds=('vrt_read', 'write'), slow=sc['slow'], cpu=sc['cpu'], switch=sc['switch'],
                           preempt=sc.get('preempt')) as hk:
            obj.process(mon.tmp / 'out.tif', **opts_of(case, q))
        hk.check_once(mon)
        hk.check_overlap(mon)
        mon.count('tile_writes', hk.counts.get('write', 0))
        mon.count('vrt_reads', hk.counts.get('vrt_read', 0))
        if hk.preempt:
            mon.count('preempted', hk.preempt.preempted)
            mon.count('instructions', hk.preempt.seen)
            mon.count('points', len(hk.preempt.points))
        if len(hk.threads) > 2:
            mon.count('threads_gt_1')
        mon.state('order', hk.order('write'), hk.order('vrt_read')[:40])
        out, valid, tr, nd = read(mon.tmp / 'out.tif')
        mon.check(out.shape == base[0].shape and tr == base[2], 'geo-referencing depends on schedule or tiling')
        if q['mask']:
            mon.check((valid == base[1]).all(), 'mask depends on schedule or tiling', n=int((valid != base[1]).sum()))
        else:
            clash = (base[0] == nd).any(axis=0) if nd == nd else np.zeros(valid.shape, bool)
            df = (valid != base[1]) & ~clash
            mon.check(not df.any(), 'nodata depends on schedule or tiling', n=int(df.sum()))
        both = valid & base[1]
        d = np.abs(out[:, both].astype('f8') - base[0][:, both].astype('f8'))
        if dt.kind == 'f':
            tol = max(1.0, np.abs(base[0][:, both]).max(initial=0)) * (1e-9 if dt == 'float64' else 3e-7)
            mon.check(d.max(initial=0) <= tol, 'values depend on schedule or tiling', worst=d.max(initial=0), tol=tol, run=k)
        else:
            mon.check(d.max(initial=0) <= 1 and (d > 0).sum() <= 1 + 1e-5 * d.size, 'values depend on schedule or tiling', worst=d.max(initial=0), n=int((d > 0).sum()), run=k)
        mon.count('runs_compared')
    if max(s['ms']) > 1024:
        mon.count('multi_stats_tiles')
