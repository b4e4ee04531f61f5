"""Existing files and inputs are never altered unless overwriting was requested."""
import random
import warnings

import numpy as np

from vlib import pan, params, scene

ID = 'C12'
RULE = (
    'Every writing operation (ortho, pan-sharpening, interior / exterior / RPC / GCP writers, camera factory export) against existing outputs of several kinds (same, other image with sidecars, truncated, garbage, empty), '
    'with and without overwrite, inputs given as paths, OpenFile or open objects; content hashes of the whole scratch tree before and after, and of the result against a fresh write. Non-trivial always.'
)
ASSUME = ['two writes of the same image have equal pixels, masks, metadata and overviews (compressed bytes may be ordered differently by GDAL threads)']
NEED = ['refused', 'overwritten', 'fresh', 'open_inputs']
TIMEOUT = 240
OPS = ['ortho', 'pan', 'int', 'ext', 'rpc', 'gcps', 'frame_export', 'rpc_export']


def cases(rng, tier):
    n = 600 if tier == 'quick' else 3000
    out = []
    for k in range(n):
        op = OPS[k % len(OPS)]
        im = op in ('ortho', 'pan')
        out.append(dict(op=op, seed=rng.randrange(1 << 30), mode=rng.choice(['refuse', 'over', 'fresh', 'refuse']), pre=rng.choice(['same', 'other', 'sidecars', 'trunc', 'garbage', 'empty'] if im else ['same', 'longer', 'garbage', 'empty']),
                        drv=rng.choice(['gtiff', 'cog']) if im else None, path=rng.choice(['str', 'path', 'ofile']), inputs=rng.choice(['str', 'path', 'ofile', 'open']), ovw=rng.random() < 0.5,
                        ro=rng.random() < 0.2, mem=rng.random() < 0.15, fobj=(not im) and rng.random() < 0.15))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def im_state(f):
    import rasterio as rio

    with rio.open(str(f)) as im:
        return dict(profile={k: v for k, v in im.profile.items() if k != 'nodata'}, nodata=repr(im.nodata), a=im.read(), m=im.read_masks(), ov=[im.overviews(b) for b in im.indexes], ci=im.colorinterp, tags=im.tags(),
                    st=im.tags(ns='IMAGE_STRUCTURE'))


def eq(a, b):
    return all(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f') if isinstance(a[k], np.ndarray) else a[k] == b[k] for k in a)


def _run(case, mon):
    import fsspec
    import rasterio as rio
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras

    rng = random.Random(case['seed'])
    tmp = mon.tmp
    ind, outd, newd = tmp / 'in', tmp / 'out', tmp / 'new'
    for d in (ind, outd, newd):
        d.mkdir()
    op = case['op']
    opened = []

    def given(path, mode='rb'):
        """An input in the requested form."""
        k = case['inputs']
        if k == 'path':
            return path if hasattr(path, 'parts') else ind / str(path).split('/')[-1]
        if k == 'ofile':
            return fsspec.open(str(path), mode)
        if k == 'open':
            if mode == 'rb':
                d = rio.open(str(path))
            else:
                d = open(str(path), 'rt', encoding='utf-8')
            opened.append((d, mode))
            return d
        return str(path)

    image = op in ('ortho', 'pan')
    outs = None
    if op == 'ortho':
        from orthority.ortho import Ortho

        s = scene.ortho_spec(rng, size=(60, 50), oblique=0.1, dtype=rng.choice(['uint8', 'uint16', 'float32']))
        sc = scene.Scene(s, ind)
        src, dem = sc.write_src(), sc.write_dem()
        src_, dem_ = given(src), given(dem)
        o = dict(driver=case['drv'], build_ovw=case['ovw'], compress='deflate', resolution=(s['gsd'] / rng.choice([1, 5]),) * 2)
        fn = lambda f, **k: Ortho(src_, dem_, sc.camera(), crs=sc.crs).process(f, **o, **k)
        outs = ['o.tif']
    elif op == 'pan':
        from orthority.pan_sharp import PanSharpen

        pr = pan.Pair(pan.pan_spec(rng, ratio=4, ms=rng.choice([[40, 30], [150, 140]])))
        p_, m_ = (given(f) for f in pr.write(ind))
        o = dict(driver=case['drv'], build_ovw=case['ovw'], compress='deflate', weights=[1] * pr.s['bands'])
        fn = lambda f, **k: PanSharpen(p_, m_).process(f, **o, **k)
        outs = ['o.tif']
    elif op == 'int':
        d, _ = params.int_dict(rng, rng.choice([1, 3]))
        fn = lambda f, **k: param_io.write_int_param(f, d, **k)
        outs = ['p.yaml']
    elif op == 'ext':
        d = params.ext_dict(rng, rng.choice([1, 5]), ['c'])
        fn = lambda f, **k: param_io.write_ext_param(f, d, 'EPSG:32735', **k)
        outs = ['p.geojson']
    elif op == 'rpc':
        d = params.rpc_dict(rng, rng.choice([1, 3]))
        fn = lambda f, **k: param_io.write_rpc_param(f, d, **k)
        outs = ['p.yaml']
    elif op == 'gcps':
        d = params.gcp_dict(rng, ['a.tif', 'b.tif'])
        fn = lambda f, **k: param_io.write_gcps(f, d, **k)
        outs = ['p.geojson']
    elif op == 'frame_export':
        di, _ = params.int_dict(rng, 2)
        de = params.ext_dict(rng, 4, list(di))
        param_io.write_int_param(ind / 'i.yaml', di)
        param_io.write_ext_param(ind / 'e.geojson', de, 'EPSG:32735')
        a, b = given(ind / 'i.yaml', 'rt'), given(ind / 'e.geojson', 'rt')
        c = FrameCameras(a, b)
        fn = lambda f, **k: c.write_param(f, **k)
        outs = ['int_param.yaml', 'ext_param.geojson']
    else:
        dr = params.rpc_dict(rng, 2, '.tif')
        param_io.write_rpc_param(ind / 'r.yaml', dr)
        c = RpcCameras(given(ind / 'r.yaml', 'rt'))
        outs = ['rpc_param.yaml']
        if rng.random() < 0.6:
            g = {}
            for f, r in dr.items():
                g[f] = params.gcp_list(rng, (r['rpc']['long_off'], r['rpc']['lat_off']), 4, d=1e-4)
            param_io.write_gcps(ind / 'g.geojson', g)
            c.refine(given(ind / 'g.geojson', 'rt'))
            outs.append('gcps.geojson')
        fn = lambda f, **k: c.write_param(f, **k)
    export = op.endswith('_export')

    def target(d, name=None):
        f = d if export else d / name
        if case['path'] == 'str':
            return str(f)
        if case['path'] == 'ofile' and not export:
            return fsspec.open(str(f), 'wb' if image else 'wt')
        return f

    # the reference result, at a new path
    fn(target(newd, outs[0]))
    fresh = sorted(p.name for p in newd.iterdir() if not p.name.endswith('.aux.xml'))
    mon.check(fresh == sorted(outs), 'files other than the requested outputs were created', got=fresh, want=outs)
    mon.count('fresh')

    if case['mem'] and not export:
        # another file system, with the same rules
        u = f'memory://v{case["seed"]}/{outs[0]}'
        fs = fsspec.filesystem('memory')
        fn(u)
        data = fs.cat(u)
        if image:
            (tmp / 'mem.tif').write_bytes(data)
            mon.check(eq(im_state(tmp / 'mem.tif'), im_state(newd / outs[0])), 'content written through fsspec differs')
            (tmp / 'mem.tif').unlink()
            mon.count('image_to_memory')
        else:
            mon.check(data == (newd / outs[0]).read_bytes(), 'content written through fsspec differs')
        try:
            fn(u)
            mon.fail('an existing file was overwritten without the overwrite option', where='memory')
        except FileExistsError:
            pass
        mon.check(fs.cat(u) == data, 'an existing file was altered', where='memory')
        fs.rm(u)
    if case['fobj'] and not export:
        with open(tmp / 'fo.txt', 'wt', encoding='utf-8') as f:
            fn(f)
            mon.check(not f.closed, 'a file object passed open was closed')
            f.write('')
        mon.check((tmp / 'fo.txt').read_bytes() == (newd / outs[0]).read_bytes(), 'content written through a file object differs')
        (tmp / 'fo.txt').unlink()

    # pre-existing outputs
    which = outs if not export else rng.choice([outs, outs[:1], outs[-1:]])
    for name in which:
        f = outd / name
        data = (newd / name).read_bytes()
        if case['pre'] == 'same':
            f.write_bytes(data)
        elif case['pre'] == 'garbage':
            f.write_bytes(b'not an image \x00\xff' * 60)
        elif case['pre'] == 'empty':
            f.write_bytes(b'')
        elif case['pre'] == 'trunc':
            f.write_bytes(data[: len(data) * 2 // 3])
        elif case['pre'] == 'longer':
            f.write_bytes(data + b'\n# more: [\n' * 50)
        else:
            with rio.Env(GDAL_TIFF_INTERNAL_MASK=False):
                prof = dict(driver='GTiff', width=700, height=600, count=2, dtype='int16', crs='EPSG:4326', nodata=5, transform=rio.Affine(1, 0, 3, 0, -1, 4))
                with rio.open(f, 'w', **prof) as im:
                    im.write(np.ones((2, 600, 700), 'int16'))
                    im.update_tags(old='yes')
                    if case['pre'] == 'sidecars':
                        im.write_mask(np.zeros((600, 700), bool))
                if case['pre'] == 'sidecars':
                    with rio.Env(TIFF_USE_OVR=True), rio.open(f, 'r+') as im:
                        im.build_overviews([2, 4])
    if case['ro']:
        for p in outd.iterdir():
            p.chmod(0o444)
    before = params.snapshot(tmp)
    if case['mode'] != 'over':
        if image:
            # the failure may come before or after the inputs are opened
            pass
        try:
            fn(target(outd, outs[0]), **({} if rng.random() < 0.5 else dict(overwrite=False)))
            mon.fail('an existing file was overwritten without the overwrite option', op=op, pre=case['pre'])
        except FileExistsError:
            pass
        after = params.snapshot(tmp)
        if export:
            after = {k: v for k, v in after.items() if k in before or not any(k == f'out/{o}' for o in outs)}
        mon.check(after == before, 'files were altered or created by a refused operation', op=op, diff=[k for k in set(before) | set(after) if before.get(k) != after.get(k)])
        mon.count('refused')
    else:
        fn(target(outd, outs[0]), overwrite=True)
        after = params.snapshot(tmp)
        ch = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
        mon.check(all(k.startswith('out/') for k in ch), 'inputs or other files were altered', diff=ch)
        got = sorted(p.name for p in outd.iterdir() if not p.name.endswith('.aux.xml'))
        left = [g for g in got if g not in outs]
        mon.check(not left, 'files other than the requested outputs remain or were created', got=got, pre=case['pre'])
        for name in outs:
            if image:
                mon.check(eq(im_state(outd / name), im_state(newd / name)), 'overwriting gives another image than writing to a new path', op=op, pre=case['pre'])
            else:
                mon.check((outd / name).read_bytes() == (newd / name).read_bytes(), 'overwriting gives another file than writing to a new path', op=op, pre=case['pre'])
        mon.count('overwritten')
    for d, mode in opened:
        mon.check(not d.closed, 'an input passed open was closed')
        if mode == 'rb':
            d.read()
        else:
            d.seek(0)
            mon.check(len(d.read()) > 0, 'an input file object is not usable')
        d.close()
        mon.count('open_inputs')
    mon.check({k: v for k, v in params.snapshot(tmp).items() if k.startswith('in/')} == {k: v for k, v in before.items() if k.startswith('in/')}, 'inputs were altered')
    mon.state(op, case['mode'], case['pre'], case['drv'], case['path'], case['inputs'])
