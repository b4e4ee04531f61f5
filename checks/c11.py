"""Output images have the documented format, dtype, nodata and mask."""
import math
import warnings

import numpy as np

from vlib import pan, scene

ID = 'C11'
RULE = (
    'Random combinations of driver, dtype, compression, write_mask, overviews, creation options, source dtype, band count and colour interpretation for both orthorectification and pan-sharpening; '
    'written files are compared with a table of the documented format. Non-trivial when an output was written and inspected, or refused as documented.'
)
ASSUME = ['metadata read back by GDAL is right', '12 bit JPEG support depends on the GDAL build']
NEED = ['ortho_files', 'pan_files', 'refused', 'overviews', 'masks', 'nodata', 'four_overview_levels']
TIMEOUT = 300

NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=math.nan, float64=math.nan)
CI = {1: [['gray'], ['gray'], ['red'], ['blue']], 2: [['gray', 'undefined'], ['gray', 'alpha']], 3: [['red', 'green', 'blue'], ['gray', 'undefined', 'undefined'], ['blue', 'green', 'red']],
      4: [['red', 'green', 'blue', 'alpha'], ['red', 'green', 'blue', 'undefined'], ['gray', 'undefined', 'undefined', 'undefined']], 5: [['gray'] + ['undefined'] * 4, ['blue', 'green', 'red', 'undefined', 'gray']]}


def cases(rng, tier):
    n = 300 if tier == 'quick' else 2600
    out = []
    for k in range(n):
        nb = rng.choice([1, 2, 3, 3, 4, 5])
        src = rng.choice(['uint8', 'uint8', 'uint16', 'int16', 'float32', 'float64'])
        c = dict(
            tool='pan' if k % 5 in (1, 3) else 'ortho', seed=rng.randrange(1 << 30), src=src, bands=nb, ci=rng.choice(CI[nb]), driver=rng.choice(['gtiff', 'gtiff', 'cog']),
            dtype=rng.choice([None, None, 'uint8', 'uint16', 'int16', 'float32', 'float64']), compress=rng.choice([None, None, 'jpeg', 'deflate', 'lzw']), wm=rng.choice([None, None, True, False]),
            ovw=rng.random() < 0.6, big=rng.random() < 0.35, enum=rng.random() < 0.4, co=None, per_band=rng.random() < 0.3, mask=rng.random() < 0.5,
        )
        if 'alpha' in c['ci'] and c['tool'] == 'ortho':
            c['driver'] = 'gtiff'  # GDAL's COG driver may replace an alpha band with a mask
        q = rng.random()
        if q < 0.2:
            c['co'] = rng.choice([dict(compress='zstd'), dict(tiled=True, blockxsize=64, blockysize=32, compress='lzw'), dict(compress='deflate', predictor=2), dict(interleave='band'),
                                  dict(compress='packbits', tiled=True, blockxsize=128, blockysize=128), dict(TILED='YES', BLOCKXSIZE=256, BLOCKYSIZE=256)])
            c['driver'], c['compress'] = 'gtiff', None
        elif q < 0.27 and 'alpha' not in c['ci']:
            c['co'] = dict(blocksize=rng.choice([128, 256]), compress='lzw', overviews='none')
            c['driver'], c['compress'] = 'cog', None
            c['ovw'] = False
        elif q < 0.33:
            c['bad'] = rng.choice(['int32', 'uint32', 'int8', 'int64', 'complex64', 'src_int32', 'foo'])
        out.append(c)
    for k in range(2 if tier == 'quick' else 12):
        # large enough for more overview levels
        out.append(dict(tool='pan', seed=rng.randrange(1 << 30), src='uint8', bands=1, ci=['gray'], driver=['gtiff', 'cog'][k % 2], dtype=None, compress=rng.choice(['jpeg', 'deflate']), wm=None, ovw=True, big=True, huge=True,
                        enum=False, co=None, per_band=False, mask=False))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def expect(case, src_dtype):
    """The documented output format, or the reason why the configuration is refused."""
    e = {}
    dt = case['dtype'] or src_dtype
    if case.get('bad'):
        dt = case['bad'] if not case['bad'].startswith('src_') else case['bad'][4:]
    if dt not in NODATA:
        return dict(refuse='dtype')
    e['dtype'] = dt
    comp = case['compress']
    if case['co']:
        comp_eff = case['co'].get('compress')
        e['compress'] = comp_eff
        wm = case['wm']
        if wm is None:
            # documented: a mask is written when JPEG compression is used
            wm = comp_eff == 'jpeg'
    else:
        if comp is None:
            comp = 'jpeg' if dt == 'uint8' else 'deflate'
        elif comp == 'jpeg' and dt not in ('uint8', 'uint16'):
            return dict(refuse='jpeg')
        e['compress'] = comp
        wm = case['wm']
        if wm is None:
            wm = comp == 'jpeg'
    e['wm'] = wm
    e['nodata'] = None if wm else NODATA[dt]
    if case['co']:
        co = {k.lower(): v for k, v in case['co'].items()}
        if 'blockxsize' in co:
            e['block'] = (co['blockysize'], co['blockxsize'])
        elif 'blocksize' in co:
            e['block'] = (co['blocksize'],) * 2
        else:
            e['block'] = None
    else:
        e['block'] = (512, 512)
    return e


def _run(case, mon):
    import rasterio as rio
    from orthority.enums import Compress, Driver
    from orthority.errors import OrthorityError
    from rasterio.enums import ColorInterp, MaskFlags

    rs = np.random.RandomState(case['seed'])
    src_dtype = case['src']
    if case.get('bad') == 'src_int32':
        src_dtype = 'int32'
    ci = [getattr(ColorInterp, n) for n in case['ci']]
    kw = dict(driver=case['driver'], build_ovw=case['ovw'])
    for k, o in (('dtype', 'dtype'), ('compress', 'compress'), ('wm', 'write_mask'), ('co', 'creation_options')):
        if case[k] is not None:
            kw[o] = case[k]
    if case.get('bad') and not case['bad'].startswith('src_'):
        kw['dtype'] = case['bad']
    if case.get('bad') == 'src_int32':
        kw.pop('dtype', None)
        case = dict(case, dtype=None)
    if case['enum']:
        kw['driver'] = Driver(kw['driver'])
        if 'compress' in kw:
            kw['compress'] = Compress(kw['compress'])
    out = mon.tmp / 'out' / 'o.tif'
    out.parent.mkdir()
    nb = case['bands']
    if case['tool'] == 'ortho':
        import random

        from orthority.ortho import Ortho

        size = (180, 140) if case['big'] else (90, 70)
        s = scene.ortho_spec(random.Random(case['seed']), kind='frame', size=size, dtype='float32', bands=nb, distort=True, oblique=0.1)
        sc = scene.Scene(s, mon.tmp)
        arr = rs.randint(20, 200, (nb, size[1] // 8 + 1, size[0] // 8 + 1)).repeat(8, 1).repeat(8, 2)[:, : size[1], : size[0]].astype(src_dtype)
        src = sc.write_src(arr=arr, colorinterp=ci)
        dem = sc.write_dem()
        res = s['gsd'] / (rs.uniform(4, 9) if case['big'] else 1)
        obj = Ortho(src, dem, sc.camera(), crs=sc.crs)
        kw.update(resolution=(res, res), per_band=case['per_band'], interp='nearest')
        proc = lambda o, **k: obj.process(o, **dict(kw, **k))
    else:
        from orthority.pan_sharp import PanSharpen

        R = 4
        ms = [rs.randint(1026, 1100), rs.randint(1026, 1100)] if case.get('huge') else [rs.randint(130, 280), rs.randint(130, 280)] if case['big'] else [40, 30]
        pr = pan.Pair(pan.pan_spec(__import__('random').Random(case['seed']), bands=nb, ratio=R, ms=ms, dtype='int16' if src_dtype == 'int32' else src_dtype))
        if src_dtype == 'int32':
            pr.ms = pr.ms.astype('int32')
        for a in (pr.ms, pr.pan):
            # clear of the nodata values of all data types
            a[:] = 70 + (a - a.min()) / (float(a.max()) - float(a.min())) * 110
        if case['mask']:
            pr.hide('ms', np.s_[5:12, 8:20])
            pr.hide('pan', np.s_[-20:, :])
        has_alpha = ColorInterp.alpha in ci
        how = 'mask' if not has_alpha else None
        if has_alpha:
            k = ci.index(ColorInterp.alpha)
            pr.ms[k] = 255 if src_dtype == 'uint8' else np.iinfo(src_dtype).max if np.dtype(src_dtype).kind in 'iu' else 1
        p_, m_ = pr.write(mon.tmp, how, ms_kw=dict(colorinterp=ci))
        obj = PanSharpen(p_, m_)
        if has_alpha:
            ci = [c for c in ci if c != ColorInterp.alpha]
            nb = len(ci)
        kw['weights'] = [1.0] * len(ci)
        proc = lambda o, **k: obj.process(o, **dict(kw, **k))
    e = expect(case, src_dtype)
    err = None
    try:
        proc(out)
    except OrthorityError as ex:
        err = ex
    except Exception as ex:
        if e.get('dtype') == 'uint16' and e.get('compress') == 'jpeg':
            mon.trivial = '12 bit JPEG not supported by this build'
            return
        raise
    if 'refuse' in e:
        mon.check(err is not None, 'an unsupported data type or compression combination is accepted', why=e['refuse'], dtype=kw.get('dtype'), compress=case['compress'], src=src_dtype)
        mon.check(not out.exists(), 'a refused configuration leaves an output file')
        mon.count('refused')
        return
    if err is not None:
        raise err
    mon.count(f"{case['tool']}_files")
    files = sorted(p.name for p in out.parent.iterdir())
    mon.check([f for f in files if not f.endswith('.aux.xml')] == ['o.tif'], 'files other than the output image were created', files=files)
    with rio.open(out) as im:
        tags = im.tags(ns='IMAGE_STRUCTURE')
        mon.check(im.count == nb, 'band count', got=im.count, want=nb)
        mon.check(all(d == e['dtype'] for d in im.dtypes), 'data type', got=im.dtypes, want=e['dtype'])
        lay = tags.get('LAYOUT') == 'COG'
        mon.check(im.driver == 'GTiff' and lay == (case['driver'] == 'cog'), 'driver', got=tags, want=case['driver'])
        comp = tags.get('COMPRESSION', 'none').lower()
        ycc = 'ycbcr' in comp
        comp = comp.replace('ycbcr ', '')
        mon.check(comp == (e['compress'] or 'none'), 'compression', got=tags.get('COMPRESSION'), want=e['compress'])
        if e['compress'] == 'jpeg' and not case['co'] and e['dtype'] == 'uint8' and case['driver'] == 'gtiff':
            mon.check(ycc == (nb == 3), 'JPEG photometric interpretation', got=tags.get('COMPRESSION'), bands=nb)
        if e['dtype'] == 'uint16' and e['compress'] == 'jpeg':
            mon.check(im.tags(1, ns='IMAGE_STRUCTURE').get('NBITS') == '12', 'NBITS of 12 bit JPEG', tags=im.tags(1, ns='IMAGE_STRUCTURE'))
        if e['block']:
            mon.check(all(b == e['block'] for b in im.block_shapes), 'block shape', got=im.block_shapes, want=e['block'])
        else:
            mon.check(im.block_shapes[0][1] == im.width, 'creation options were added to those given', got=im.block_shapes)
        if case['co'] and case['co'].get('interleave'):
            mon.check('band' in str(tags.get('INTERLEAVE', 'band')).lower(), 'interleave option', got=str(tags))
        if case['co'] and 'predictor' in case['co'] and 'PREDICTOR' in tags:
            mon.check(tags['PREDICTOR'] == '2', 'predictor option', got=tags)
        # nodata and mask
        nd = im.nodata
        same = (nd is None and e['nodata'] is None) or (nd is not None and e['nodata'] is not None and (nd == e['nodata'] or (nd != nd and e['nodata'] != e['nodata'])))
        mon.check(same, 'nodata value', got=nd, want=e['nodata'], dtype=e['dtype'], wm=e['wm'])
        flags = im.mask_flag_enums
        per = all(MaskFlags.per_dataset in f and MaskFlags.alpha not in f for f in flags)
        if e['wm']:
            mon.check(per, 'no internal mask was written', flags=str(flags))
            mon.count('masks')
        else:
            mon.check(all(MaskFlags.nodata in f for f in flags), 'a mask was written when nodata should be used', flags=str(flags))
            mon.count('nodata')
        # colour interpretation
        got = list(im.colorinterp)
        want = ci
        if not ycc:
            mon.check(got == want, 'colour interpretation', got=str(got), want=str(want), compress=e['compress'], driver=case['driver'])
        # overviews
        lv = min(8, int(min(math.log2(im.height), math.log2(im.width))) - 8)
        if not case['ovw'] or lv < 1:
            mon.check(not any(im.overviews(b) for b in im.indexes), 'overviews were built when not requested or not useful', got=im.overviews(1), shape=im.shape)
        else:
            want = [2**m for m in range(1, lv + 1)]
            mon.check(all(im.overviews(b) == want for b in im.indexes), 'overview levels', got=im.overviews(1), want=want, shape=im.shape)
            mon.count('overviews')
            if lv > 3:
                mon.count('four_overview_levels')
        full, mask = im.read(), im.dataset_mask() > 0
        shape = im.shape
        nov = len(im.overviews(1))
        # invalid pixels hold nodata consistently
        if not e['wm'] and e['compress'] != 'jpeg':
            v = e['nodata']
            isnd = (full == v) if v == v else np.isnan(full)
            mon.check((isnd.any(axis=0) == isnd.all(axis=0)).mean() > 0.999, 'nodata in some bands only')
    if nov and (e['wm'] or e['compress'] != 'jpeg'):
        with rio.open(out, overview_level=0) as im:
            o, om = im.read(), im.dataset_mask() > 0
        mon.check(o.shape[1:] == (-(-shape[0] // 2), -(-shape[1] // 2)), 'overview shape', got=o.shape)
        h2, w2 = shape[0] // 2, shape[1] // 2
        blk = full[:, : h2 * 2, : w2 * 2].astype('f8').reshape(nb, h2, 2, w2, 2)
        mk = mask[: h2 * 2, : w2 * 2].reshape(h2, 2, w2, 2)
        allv = mk.all(axis=(1, 3))
        avg = blk.mean(axis=(2, 4))
        tol = 12 if e['compress'] == 'jpeg' else 0.51 + 1e-4 * np.nanmax(np.abs(avg[:, allv])) if allv.any() else 1
        if shape[0] % 2 or shape[1] % 2:
            # GDAL averages over fractional windows: allow for the spread of the neighbourhood
            p = np.pad(avg, ((0, 0), (1, 1), (1, 1)), mode='edge')
            nb9 = np.stack([p[:, i : i + h2, j : j + w2] for i in range(3) for j in range(3)])
            lo, hi = np.nanmin(nb9, axis=0), np.nanmax(nb9, axis=0)
            inner = allv.copy()
            for ax in (0, 1):
                for sh in (1, -1):
                    inner &= np.roll(allv, sh, ax)
            allv = inner
            d = np.maximum(np.maximum(lo - o[:, :h2, :w2], o[:, :h2, :w2] - hi), 0)[:, allv]
        else:
            d = np.abs(o[:, :h2, :w2] - avg)[:, allv]
        bad = d > tol
        if not d.size:
            d = np.zeros(1)
        if e['compress'] == 'jpeg':
            mon.check(np.median(d) <= tol, 'overviews are not averages of the image', worst=float(d.max()))
        else:
            odd = shape[0] % 2 or shape[1] % 2
            mon.check(bad.sum() <= (2 + 1e-3 * bad.size if odd else 0), 'overviews are not averages of the image', worst=float(d.max()), tol=float(tol), n=int(bad.sum()))
        none = ~mk.any(axis=(1, 3))
        if shape[0] % 2 or shape[1] % 2:
            for ax in (0, 1):
                for sh in (1, -1):
                    none = none & np.roll(none, sh, ax)
        mon.check(om[:h2, :w2][allv].all() and not om[:h2, :w2][none].any(), 'overview mask', n=[int((~om[:h2, :w2][allv]).sum()), int(om[:h2, :w2][none].sum())])
    # mask and nodata agree: the same image written the other way
    if not case.get('huge') and not (e['dtype'] == 'uint16' and e['compress'] == 'jpeg') and not case['co']:
        alt = {}
        for wm in (True, False):
            proc(mon.tmp / f'a{wm}.tif', write_mask=wm, compress='deflate', build_ovw=False)
            with rio.open(mon.tmp / f'a{wm}.tif') as im:
                alt[wm] = im.read(), im.dataset_mask() > 0
        eq = (alt[True][0] == alt[False][0]) | (alt[True][0] != alt[True][0])
        v = alt[True][1]
        mon.check(eq[:, v & alt[False][1]].all(), 'valid pixels differ between mask and nodata outputs')
        clash = (alt[True][0] == NODATA[e['dtype']]).all(axis=0) if NODATA[e['dtype']] == NODATA[e['dtype']] else np.zeros(v.shape, bool)
        diff = (v != alt[False][1]) & ~(v & clash)
        mon.check(not diff.any(), 'internal mask and nodata mark different pixels', n=int(diff.sum()))
        if e['wm']:
            mon.check((mask == alt[True][1]).all(), 'mask depends on compression', n=int((mask != alt[True][1]).sum()))
        elif e['compress'] != 'jpeg':
            mon.check((mask == alt[False][1]).all(), 'nodata depends on compression')
    mon.state(case['tool'], case['driver'], e['dtype'], e['compress'], e['wm'], case['ovw'], str(case['co']), str(case['ci']))
