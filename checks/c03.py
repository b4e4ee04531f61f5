"""RPC camera projections."""
import numpy as np

from vlib import env, gen, ref

ID = 'C03'
RULE = (
    'Synthetic RPC models plus the QuickBird model of the test data, in geographic / projected CRSs; points inside the '
    'image volume with interleaved NaNs. Non-trivial when points are compared.'
)
ASSUME = ['PROJ / GDAL coordinate transformation of rasterio is correct', 'GDAL iterates the RPC inverse to within 0.1 pixel by default']
NEED = ['reference_points', 'roundtrip_points', 'nan_points', 'refused_crs']

BAD_CRS = ['{utm}+5773', '+proj=utm {zone} +datum=WGS84 +units=m +vunits=us-ft +no_defs']


def cases(rng, tier):
    n = 1200 if tier == 'quick' else 20000
    out = []
    for k in range(n):
        if k % 12 == 0:
            rp = dict(file='rpc/rpc_param.yaml')
        else:
            rp = gen.rpc_param(rng)
        c = dict(rp=rp, seed=rng.randrange(1 << 30), tight=rng.random() < 0.6, crsobj=rng.random() < 0.3)
        if 'file' in rp:
            c['crs'] = rng.choice([None, 'EPSG:4326', 'utm', 'EPSG:3857'])
        else:
            c['crs'] = gen.rpc_crs(rng, rp)
        out.append(c)
    return out


def load(rp):
    if 'file' not in rp:
        return tuple(rp['im_size']), rp['rpc']
    import yaml

    d = yaml.safe_load((env.REPO / 'tests' / 'data' / rp['file']).read_text())
    d = list(d.values())[0]
    return tuple(d['im_size']), d['rpc']


def run(case, mon):
    from orthority.camera import RpcCamera, create_camera
    from rasterio.crs import CRS
    from rasterio.rpc import RPC

    rs = np.random.RandomState(case['seed'])
    (w, h), rpc = load(case['rp'])
    crs = gen.utm_epsg(rpc['long_off'], rpc['lat_off']) if case['crs'] == 'utm' else case['crs']
    arg = CRS.from_string(crs) if crs and case['crsobj'] else crs
    opt = dict(rpc_pixel_error_threshold=0.001, rpc_max_iterations=200) if case['tight'] else None
    r_in = RPC(**rpc) if rs.rand() < 0.5 else dict(rpc)
    kw = dict(crs=arg, rpc_options=opt)
    cam = RpcCamera((w, h), r_in, **kw) if rs.rand() < 0.5 else create_camera('rpc', im_size=(w, h), rpc=r_in, **kw)
    mon.check(tuple(cam.im_size) == (w, h), 'im_size')

    # ground points inside the normalised volume
    n = 50
    lon = rpc['long_off'] + rpc['long_scale'] * rs.uniform(-0.9, 0.9, n)
    lat = rpc['lat_off'] + rpc['lat_scale'] * rs.uniform(-0.9, 0.9, n)
    hh = rpc['height_off'] + rpc['height_scale'] * rs.uniform(-0.9, 0.9, n)
    xyz = gen.lonlat_to_crs(crs, lon, lat, hh)
    keep = xyz.copy()
    ji = cam.world_to_pixel(xyz)
    mon.check(np.array_equal(xyz, keep), 'input coordinates were modified')
    want = ref.rpc_project(rpc, lon, lat, hh)
    err = np.abs(ji - want).max()
    mon.count('reference_points', n)
    mon.check(err < 1e-4, 'world_to_pixel differs from the RPC00B model', err=err, crs=crs)

    # NaNs affect their own columns only
    x2 = xyz.copy()
    bad = rs.rand(n) < 0.3
    bad[0], bad[1] = True, False
    x2[rs.randint(0, 3, n)[bad], np.nonzero(bad)[0]] = np.nan
    ji2 = cam.world_to_pixel(x2)
    mon.count('nan_points', bad.sum())
    mon.check(np.all(np.isnan(ji2[:, bad])), 'NaN world coordinates gave pixel coordinates')
    mon.check(np.allclose(ji2[:, ~bad], ji[:, ~bad], rtol=0, atol=1e-6), 'NaN coordinates changed other points')

    # inverse
    tol = 0.003 if case['tight'] else 0.11
    ji = np.vstack([rs.uniform(0, w - 1, n), rs.uniform(0, h - 1, n)])
    z = rpc['height_off'] + rpc['height_scale'] * rs.uniform(-0.8, 0.8, n)

    def rt(jj, zz, mode):
        jk, zk = np.array(jj), np.array(zz)
        out = cam.pixel_to_world_z(jj, zz)
        mon.check(np.array_equal(jk, jj, equal_nan=True) and np.array_equal(zk, zz, equal_nan=True), 'inputs were modified', mode=mode)
        nn = max(jj.shape[1], np.size(zz))
        mon.check(out.shape == (3, nn), 'shape of world coordinates', shape=out.shape, mode=mode)
        zb = np.broadcast_to(np.asarray(zz, dtype=float), (nn,)) if np.size(zz) == 1 else np.asarray(zz, dtype=float)
        ok = ~np.isnan(zb) & ~np.isnan(np.broadcast_to(jj, (2, nn)) if jj.shape[1] == 1 else jj).any(axis=0)
        mon.check(np.abs(out[2] - zb)[ok].max() < 1e-6, 'world z is not the requested z', mode=mode, err=np.abs(out[2] - zb)[ok].max())
        g = gen.rpc_to_lonlat(crs, out[:, ok])
        back = ref.rpc_project(rpc, *g)
        want = (np.broadcast_to(jj, (2, nn)) if jj.shape[1] == 1 else jj)[:, ok]
        e = np.abs(back - want).max()
        mon.count('roundtrip_points', ok.sum())
        mon.check(e < tol, 'pixel_to_world_z is not the inverse of the RPC model', mode=mode, err=e, crs=crs)
        mon.check(np.all(np.isnan(out[:, ~ok])), 'NaN input gave world coordinates', mode=mode)
        return out

    a = rt(ji, z, 'pairwise')
    rt(ji, float(z[0]), 'one z')
    rt(ji, np.array([z[1]]), 'one z array')
    rt(ji, int(z[1]), 'int z')
    rt(ji, np.floor(z).astype('int64'), 'int z array')
    rt(np.round(ji).astype('int32'), z, 'int pixels')
    b = rt(ji[:, [3]], z, 'one pixel many z')
    c = np.hstack([cam.pixel_to_world_z(ji[:, [3]], float(v)) for v in z[:4]])
    mon.check(np.allclose(b[:, :4], c, rtol=0, atol=1e-9 * np.abs(c).max()), 'one pixel many z differs from single calls')
    perm = rs.permutation(n)
    f = cam.pixel_to_world_z(ji[:, perm], z[perm])
    mon.check(np.allclose(f, a[:, perm], rtol=0, atol=1e-9 * np.abs(a).max()), 'columns are not independent')
    jn, zn = ji.copy(), z.copy()
    jn[rs.randint(0, 2), 2] = np.nan
    zn[5] = np.nan
    d = rt(jn, zn, 'NaN')
    okc = np.ones(n, bool)
    okc[[2, 5]] = False
    mon.check(np.allclose(d[:, okc], a[:, okc], rtol=0, atol=1e-9 * np.abs(a[:, okc]).max()), 'NaN changed other columns')
    # pixel centre convention against GDAL itself
    # crs property
    want_crs = CRS.from_string(crs) if crs else CRS.from_epsg(4979)
    mon.check(cam.crs == want_crs, 'camera CRS', got=str(cam.crs))
    # refused CRS
    from orthority.errors import OrthorityError

    utm = gen.utm_epsg(rpc['long_off'], rpc['lat_off'])
    zone = f'+zone={int(utm[-2:])}' + (' +south' if utm[5:8] == '327' else '')
    for t in BAD_CRS:
        t = t.format(utm=utm, zone=zone)
        bad_crs = CRS.from_string(t)
        # only when PROJ can actually evaluate the vertical transformation here
        if abs(gen.lonlat_to_crs(t, [rpc['long_off']], [rpc['lat_off']], [1.0])[2][0] - 1) < 1e-6:
            continue
        try:
            RpcCamera((w, h), rpc, crs=bad_crs if rs.rand() < 0.5 else t)
        except OrthorityError:
            mon.count('refused_crs')
            mon.check(True, 'refused')
        else:
            mon.fail('a CRS without ellipsoidal height in metres was accepted', crs=t)
    mon.state(crs is None, crs, case['tight'], 'file' in case['rp'])
