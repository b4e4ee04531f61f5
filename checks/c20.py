"""RPC refinement is the least squares bias compensation of the GCPs."""
import copy
import random
import warnings

import numpy as np

from vlib import gen, params, ref

ID = 'C20'
RULE = (
    'Random RPC models with 0 to 40 random GCPs (exact shift / shift and scale bias, noise, gross outliers, integer pixels) refined through refine_rpc() (dictionary or RPC object, method as enum, string or default) and through RpcCameras.refine() '
    '(dictionary, parameter file; GCP dictionary, GeoJSON file, images with GCP tags; cameras taken before and after; refined again). The projections of the refined model are compared, at random points of the scene, with the closed form least squares solution in pixels. '
    'Non-trivial when at least one model was refined or refused.'
)
ASSUME = ['RPC00B equations', 'GCPs of a shift-drift refinement span at least 5% of the image in both axes (otherwise the scale is not determined)']
NEED = ['refined', 'points', 'refused', 'shift', 'shift-drift', 'exact bias', 'cameras', 'ungcp', 'exports', 'images', 'again']
TIMEOUT = 120


def cases(rng, tier):
    n = 5000 if tier == 'quick' else 60000
    out = []
    for k in range(n):
        m = rng.choice(['func', 'func', 'cams', 'cams', 'few'])
        out.append(dict(
            m=m, seed=rng.randrange(1 << 30), method=rng.choice(['shift', 'shift', 'shift-drift', 'shift-drift', None]),
            form=rng.choice(['str', 'enum']), rform=rng.choice(['dict', 'RPC', 'list']), n=rng.choice([1, 2, 3, 5, 12, 40]),
            bias=rng.choice(['shift', 'drift', 'drift']), noise=rng.choice([0, 0, 0.5, 5, 'out']), nim=rng.choice([1, 2, 3, 6]),
            src=rng.choice(['dict', 'file']), gsrc=rng.choice(['dict', 'file', 'fobj', 'images']), before=rng.random() < 0.5,
            key=rng.choice(['name', 'name', 'stem', 'gstem']), skip=rng.random() < 0.5, crs=rng.random() < 0.5, again=rng.random() < 0.4, export=rng.random() < 0.5,
        ))  # fmt: skip
    return out


def points(rng, rpc, n, spread=1.0):
    u = lambda: np.array([rng.uniform(-spread, spread) for _ in range(n)])
    return np.array([rpc['long_off'] + u() * rpc['long_scale'], rpc['lat_off'] + u() * rpc['lat_scale'], rpc['height_off'] + u() * rpc['height_scale']])


def make_gcps(rng, rpc, n, bias, noise, integer=False):
    for _ in range(100):
        xyz = points(rng, rpc, n)
        ji = ref.rpc_project(rpc, *xyz)
        if n < 2 or (np.ptp(ji, axis=1) > 0.1 * np.array([rpc['samp_scale'], rpc['line_scale']])).all():
            break
    b = np.array([[rng.uniform(-20, 20)], [rng.uniform(-20, 20)]])
    s = np.array([[1.0], [1.0]])
    if bias == 'drift':
        s = np.array([[rng.uniform(0.9, 1.1)], [rng.uniform(0.9, 1.1)]])
    got = ji * s + b
    if noise == 'out':
        got[:, rng.randrange(n)] += rng.choice([-1, 1]) * rng.uniform(50, 500)
    elif noise:
        got = got + np.array([[rng.gauss(0, noise) for _ in range(n)] for _ in range(2)])
    if integer:
        got = np.round(got)
    gcps = [
        dict(ji=tuple(int(v) if integer else float(v) for v in got[:, k]), xyz=tuple(float(v) for v in xyz[:, k]), id=rng.choice([None, f'g{k}']), info=None)
        for k in range(n)
    ]
    return gcps, xyz, got, s, b


def solution(method, ji, got):
    """Closed form least squares scale and shift per axis."""
    s, b = np.ones((2, 1)), np.zeros((2, 1))
    for a in range(2):
        x, y = ji[a], got[a]
        if method == 'shift':
            b[a] = np.sum(y - x) / len(x)
        else:
            mx, my = np.mean(x), np.mean(y)
            s[a] = np.sum((x - mx) * (y - my)) / np.sum((x - mx) ** 2)
            b[a] = my - s[a] * mx
    return s, b


def judge(mon, rng, what, rpc, new, gcps, method, exact=None):
    """The refined model ``new`` of ``rpc``."""
    xyz = np.array([g['xyz'] for g in gcps], dtype=float).T
    got = np.array([g['ji'] for g in gcps], dtype=float).T
    ji = ref.rpc_project(rpc, *xyz)
    s, b = solution(method, ji, got)
    p = points(rng, rpc, 12)
    exp = ref.rpc_project(rpc, *p) * s + b
    act = ref.rpc_project(new, *p)
    tol = 1e-6 * max(rpc['samp_scale'], rpc['line_scale'], np.abs(exp).max())
    mon.count('points', p.shape[1])
    mon.check(np.allclose(act, exp, atol=tol, rtol=0), 'refined projection is not the original followed by the least squares bias', where=what, method=method, err=float(np.abs(act - exp).max()), n=len(gcps))
    r0, r1 = np.sum((ji - got) ** 2), np.sum((ref.rpc_project(new, *xyz) - got) ** 2)
    mon.check(r1 <= r0 + 1e-6 * (1 + r0), 'refining increases the residual', where=what, before=float(r0), after=float(r1))
    if exact is not None:
        mon.count('exact bias')
        e = ref.rpc_project(new, *p) - (ref.rpc_project(rpc, *p) * exact[0] + exact[1])
        mon.check(np.abs(e).max() < tol, 'an exact bias is not recovered', where=what, err=float(np.abs(e).max()))
    keys = set(rpc) - {'samp_num_coeff', 'line_num_coeff'}
    mon.check(set(new) == set(rpc) and all(params.same(plain(new[k]), plain(rpc[k])) for k in keys), 'other parameters are not kept', where=what, diff=[k for k in keys if plain(new.get(k)) != plain(rpc[k])])
    mon.count('refined')
    mon.count(method)
    mon.state((method, len(gcps), what, exact is not None))
    return exp, p


def plain(v):
    return [float(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v


def call(rpc, gcps, method, form):
    from orthority.enums import RpcRefine
    from orthority.fit import refine_rpc

    if method is None:
        return refine_rpc(rpc, gcps)
    return refine_rpc(rpc, gcps, method=method if form == 'str' else RpcRefine(method))


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dict(func=func, cams=cams, few=few)[case['m']](case, mon)


def rpc_of(rng):
    return copy.deepcopy(next(iter(params.rpc_dict(rng, 1).values()))['rpc'])


def exact_of(case, n, method, s, b):
    if case['noise'] or (case['bias'] == 'drift' and method == 'shift'):
        return None
    return s, b


def func(case, mon):
    from rasterio.rpc import RPC

    rng = random.Random(case['seed'])
    rpc = rpc_of(rng)
    method = case['method'] or 'shift'
    n = max(case['n'], 2 if method == 'shift-drift' else 1)
    integer = case['noise'] == 0.5
    gcps, xyz, got, s, b = make_gcps(rng, rpc, n, case['bias'], case['noise'], integer)
    if case['rform'] == 'list':
        gcps = [dict(g, ji=list(g['ji']), xyz=list(g['xyz'])) for g in gcps]
    src = RPC(**rpc) if case['rform'] == 'RPC' else rpc
    keep, gkeep = copy.deepcopy(rpc), copy.deepcopy(gcps)
    okeep = copy.deepcopy(src.to_dict()) if case['rform'] == 'RPC' else None
    new = call(src, gcps, case['method'], case['form'])
    mon.check(isinstance(new, dict), 'refined parameters are not a dictionary')
    mon.check(params.same(rpc, keep) and (okeep is None or src.to_dict() == okeep), 'the input model is modified')
    mon.check(params.same(gcps, gkeep), 'the input GCPs are modified')
    exp, p = judge(mon, rng, 'refine_rpc', keep, new, gcps, method, exact_of(case, n, method, s, b))
    # the order of GCPs does not matter
    perm = list(gcps)
    rng.shuffle(perm)
    act = ref.rpc_project(call(src, perm, case['method'], case['form']), *p)
    mon.check(np.allclose(act, exp, atol=1e-6 * max(1, np.abs(exp).max())), 'refinement depends on the order of GCPs')


def few(case, mon):
    rng = random.Random(case['seed'])
    rpc = rpc_of(rng)
    method = case['method'] or 'shift'
    n = 0 if method == 'shift' else rng.choice([0, 1])
    gcps = make_gcps(rng, rpc, n, 'shift', 0)[0] if n else []
    try:
        new = call(rpc, gcps, case['method'], case['form'])
        mon.fail('too few GCPs are accepted', method=method, n=n, new=str(new)[:200])
    except ValueError:
        mon.count('refused')


def gcp_image(path, gcps, size):
    import rasterio as rio
    from rasterio.control import GroundControlPoint

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', driver='GTiff', width=size[0], height=size[1], count=1, dtype='uint8') as ds:
            # image GCPs are documented to be in the centre of pixel convention
            ds.gcps = ([GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id'] or str(k)) for k, g in enumerate(gcps)], 'EPSG:4326')


def cams(case, mon):
    from orthority import RpcCameras
    from orthority.param_io import read_oty_gcps, read_oty_rpc_param, write_gcps, write_rpc_param

    rng = random.Random(case['seed'])
    suffix = '.tif'
    rd = params.rpc_dict(rng, case['nim'], suffix)
    # distinct stems
    rd = {f'src{k}.tif': copy.deepcopy(v) for k, v in enumerate(rd.values())}
    r0 = rd['src0.tif']['rpc']
    for v in rd.values():
        # all in the area of the one world CRS
        v['rpc'].update(long_off=r0['long_off'] + rng.uniform(-0.1, 0.1), lat_off=r0['lat_off'] + rng.uniform(-0.1, 0.1))
    method = case['method'] or 'shift'
    gd, exact = {}, {}
    for k, f in enumerate(rd):
        if k == 0 and case['nim'] > 1 and case['skip']:
            continue
        n = max(rng.choice([1, 2, 4, case['n']]), 2 if method == 'shift-drift' else 1)
        g, _, _, s, b = make_gcps(rng, rd[f]['rpc'], n, case['bias'], case['noise'])
        gd[f], exact[f] = g, exact_of(case, n, method, s, b)
    items = list(gd.items())
    rng.shuffle(items)
    gd = dict(items)
    rdk = {f[:-4] if case['key'] == 'stem' else f: v for f, v in rd.items()}
    gdk = {f[:-4] if case['key'] != 'name' else f: v for f, v in gd.items()}
    keep, gkeep = copy.deepcopy(rdk), copy.deepcopy(gdk)

    cam_kwargs = {}
    if case['crs']:
        f0 = next(iter(rd))
        cam_kwargs = dict(crs=gen.rpc_crs(rng, dict(rpc=rd[f0]['rpc'])))
    rsrc = rdk
    if case['src'] == 'file':
        rsrc = mon.tmp / 'rpc.yaml'
        write_rpc_param(rsrc, rdk)
    gsrc, fo = gdk, None
    if case['gsrc'] in ('file', 'fobj'):
        gsrc = mon.tmp / 'gcps.geojson'
        write_gcps(gsrc, gdk)
        if case['gsrc'] == 'fobj':
            gsrc = fo = open(gsrc, 'rt')
    elif case['gsrc'] == 'images' and case['key'] == 'name':
        mon.count('images')
        d = mon.tmp / 'im'
        d.mkdir()
        for f, g in gd.items():
            gcp_image(d / f, g, rd[f]['im_size'])
        gsrc = rng.choice([list, tuple])([str(d / f) for f in gd])
    cams = RpcCameras(rsrc, cam_kwargs=cam_kwargs or None)
    if case['before']:
        for f in rd:
            c = cams.get(f)
            c.world_to_pixel(pcrs(cam_kwargs, points(rng, rd[f]['rpc'], 2)))
    kw = dict(fit_kwargs=dict(method=case['method'])) if case['method'] else {}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        cams.refine(gsrc, **kw)
    if fo:
        fo.close()
    mon.check(params.same(rdk, keep), "the caller's RPC parameters are modified")
    mon.check(params.same(gdk, gkeep), "the caller's GCPs are modified")
    warned = [str(w.message) for w in ws if 'GCPs' in str(w.message)]
    lost = [f for f in rd if f not in gd]
    mon.check(len(warned) == len(lost) and all(any(f[:-4] in m for m in warned) for f in lost), 'images without GCPs are not warned of', lost=lost, warned=warned)

    # files and image tags may round coordinates
    tol = 2e-3 if case['gsrc'] != 'dict' else 1e-4
    cur = {}
    for f, par in rd.items():
        rpc = par['rpc']
        p = points(rng, rpc, 8)
        s, b = np.ones((2, 1)), np.zeros((2, 1))
        if f in gd:
            g = gd[f]
            s, b = solution(method, ref.rpc_project(rpc, *np.array([x['xyz'] for x in g]).T), np.array([x['ji'] for x in g], dtype=float).T)
            mon.count('cameras')
        else:
            mon.count('ungcp')
        exp = ref.rpc_project(rpc, *p) * s + b
        cur[f] = s, b
        cam = cams.get(rng.choice([f, str(mon.tmp / f)]))
        act = cam.world_to_pixel(pcrs(cam_kwargs, p))
        mon.check(np.allclose(act, exp, atol=tol, rtol=1e-6), 'camera from refined parameters does not project as the biased model', err=float(np.abs(act - exp).max()), gcps=f in gd, **{k: case[k] for k in ('gsrc', 'before', 'key', 'crs')})
        mon.count('points', 8)
        mon.count('refined', int(f in gd))

    if case['again'] and gd:
        mon.count('again')
        # refine some images again with another bias; the others keep their refinement
        sub = rng.sample(list(gd), rng.randrange(1, len(gd) + 1))
        g2 = {}
        for f in sub:
            g2[f] = make_gcps(rng, rd[f]['rpc'], 6, 'drift', 1)[0]
        cams.refine({f[:-4] if case['key'] != 'name' else f: v for f, v in g2.items()}, **kw)
        for f in rd:
            rpc = rd[f]['rpc']
            s, b = cur[f]
            if f in g2:
                ji = ref.rpc_project(rpc, *np.array([x['xyz'] for x in g2[f]]).T) * s + b
                s2, b2 = solution(method, ji, np.array([x['ji'] for x in g2[f]], dtype=float).T)
                s, b = s * s2, s2 * b + b2
            cur[f] = s, b
            p = points(rng, rpc, 6)
            exp = ref.rpc_project(rpc, *p) * s + b
            act = cams.get(f).world_to_pixel(pcrs(cam_kwargs, p))
            mon.check(np.allclose(act, exp, atol=2 * tol, rtol=1e-6), 'camera refined again does not project as the biased model', err=float(np.abs(act - exp).max()), again=f in g2)
        gkeep = {f[:-4] if case['key'] != 'name' else f: copy.deepcopy(v) for f, v in g2.items()}

    if case['export']:
        mon.count('exports')
        out = mon.tmp / 'out'
        out.mkdir()
        cams.write_param(out)
        new = read_oty_rpc_param(out / 'rpc_param.yaml')
        mon.check(list(new) == list(rdk), 'exported parameters are not of all images', got=list(new))
        for f, k in zip(rd, rdk):
            s, b = cur[f]
            p = points(rng, rd[f]['rpc'], 4)
            act = ref.rpc_project(new[k]['rpc'], *p)
            mon.check(np.allclose(act, ref.rpc_project(rd[f]['rpc'], *p) * s + b, atol=2 * tol, rtol=1e-6), 'exported parameters are not the refined ones')
        back = read_oty_gcps(out / 'gcps.geojson')
        mon.check(set(back) == set(gkeep), 'exported GCPs are not of the refined images', got=list(back), exp=list(gkeep))
        for f in back:
            a = np.array([[*g['ji'], *g['xyz']] for g in back[f]])
            e = np.array([[*g['ji'], *g['xyz']] for g in gkeep[f]], dtype=float)
            mon.check(a.shape == e.shape and np.allclose(a, e, rtol=1e-8, atol=1e-5), 'exported GCPs are not those used')


def pcrs(kw, p):
    return gen.lonlat_to_crs(kw['crs'], *p) if kw.get('crs') else p
