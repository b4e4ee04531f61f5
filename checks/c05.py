"""Image boundaries at a height or on a DEM surface."""
import math
import warnings

import numpy as np

from vlib import gen, ref

ID = 'C05'
RULE = (
    'Random frame (4 models, distort on/off, any alpha) and RPC cameras x boundary point counts x heights x smooth DEM arrays '
    '(hills, pits, slopes, NaN holes, partial cover, terrain above the camera, fine and coarse pixels) x interpolation; every '
    'returned boundary point is compared with a fine march along its own reference ray. Non-trivial when points are compared.'
)
ASSUME = ['analytic DEM surfaces are smooth at the DEM pixel scale, so that interpolation methods agree to the stated tolerance']
NEED = ['pixel_points', 'world_points', 'surface_points', 'surface_hits', 'surface_misses', 'horizon_refused', 'dem_above_refused']


def cases(rng, tier):
    n = 900 if tier == 'quick' else 12000
    out = []
    for k in range(n):
        seed = rng.randrange(1 << 30)
        if k % 8 == 7:
            out.append(dict(kind='rpc', rp=gen.rpc_param(rng), crs=rng.random() < 0.7, seed=seed))
        elif k % 8 == 3:
            out.append(dict(kind='horizon', p=gen.frame_param(rng, model=ref.MODELS[k // 8 % 4]), tilt=rng.uniform(0.0, 1.9), az=rng.uniform(-3, 3), seed=seed, distort=rng.random() < 0.7))
        else:
            out.append(dict(kind='frame', p=gen.frame_param(rng, model=rng.choice(ref.MODELS), oblique=rng.choice([0.1, 0.4])), distort=rng.random() < 0.6,
                            alpha=rng.choice([0.0, 0.5, 1.0]), seed=seed))
    return out


def perim(ji, w, h):
    """Position along the border, clockwise from the top left pixel centre."""
    j, i = ji
    W, H = w - 1.0, h - 1.0
    e = 1e-6
    out = np.full(j.shape, np.nan)
    top, right, bottom, left = np.abs(i) < e, np.abs(j - W) < e, np.abs(i - H) < e, np.abs(j) < e
    out[left] = 2 * W + H + (H - i[left])
    out[bottom] = W + H + (W - j[bottom])
    out[right] = W + i[right]
    out[top] = j[top]
    return out


def check_pixel_boundary(cam, dist_cam, p, mon, rs, distort):
    w, h = cam.im_size
    full = None
    for n in (None, 8, int(rs.randint(12, 60)), 400):
        b = dist_cam.pixel_boundary(num_pts=n) if n else dist_cam.pixel_boundary()
        t = perim(b, w, h)
        mon.count('pixel_points', b.shape[1])
        mon.check(not np.isnan(t).any(), 'boundary points are not on the image border', n=n, bad=b[:, np.isnan(t)][:, :3])
        # in order around the border (either direction, any start), once around
        P = 2.0 * (w - 1 + h - 1)
        d = np.diff(np.concatenate([t, t[:1]])) % P
        turns = d.sum() / P
        mon.check(abs(turns - 1) < 1e-6 or abs((P * len(d) - d.sum()) / P - 1) < 1e-6, 'boundary points are not in order', n=n, turns=turns)
        gap = np.minimum(d, P - d).max()
        if n is None:
            mon.check(b.shape == (2, 8), 'default boundary has 8 points', shape=b.shape)
            want = {(j, i) for j in (0, (w - 1) / 2, w - 1) for i in (0, (h - 1) / 2, h - 1)} - {((w - 1) / 2, (h - 1) / 2)}
            got = {(round(float(x), 6), round(float(y), 6)) for x, y in b.T}
            mon.check(got == {(round(x, 6), round(y, 6)) for x, y in want}, 'default boundary is not corners and mid-points', got=sorted(got))
        elif n >= 12:
            # all four corners, about evenly spaced
            for c in ((0, 0), (w - 1, 0), (w - 1, h - 1), (0, h - 1)):
                mon.check(np.any(np.hypot(b[0] - c[0], b[1] - c[1]) < 1e-6), 'a corner is missing from the boundary', n=n, corner=c)
            mon.check(abs(b.shape[1] - n) <= 2, 'number of boundary points', n=n, got=b.shape[1])
            mon.check(gap <= 1.5 * P / n + 1e-6 or n < 20, 'boundary spacing', n=n, gap=gap, P=P)
        if not distort:
            u = cam.pixel_boundary(num_pts=n) if n else cam.pixel_boundary()
            K, _ = ref.fit_lin_K(cam, p)
            x, y = ref.undistort(p['model'], p, *ref.pixel_to_norm(p, b))
            want = np.array([np.clip(K[0] * x + K[2], 0, w - 1), np.clip(K[1] * y + K[3], 0, h - 1)])
            mon.check(u.shape == want.shape and np.abs(u - want).max() < 0.02, 'boundary of the undistorted image is not the undistorted border', n=n, err=np.abs(u - want).max() if u.shape == want.shape else u.shape)
            b = u
        full = b
    return full


class Surf:
    """Smooth DEM with an analytic surface."""

    def __init__(self, rs, bounds, z0, amp, npx, holes=False, pit=None):
        import rasterio as rio

        l, b, r, t = bounds
        self.l, self.b, self.r, self.t = bounds
        nx = npx
        ny = max(8, int(npx * (t - b) / (r - l) * rs.choice([1.0, 0.7, 1.3])))
        nx, ny = min(nx, 500), min(ny, 500)
        self.transform = rio.transform.from_bounds(l, b, r, t, nx, ny)
        if rs.rand() < 0.2:  # south up
            self.transform = self.transform * rio.Affine.translation(0, ny) * rio.Affine.scale(1, -1)
        L = max(r - l, t - b)
        px = max((r - l) / nx, (t - b) / ny)
        self.px = px
        wl = max(10 * px, L / rs.choice([1.0, 2.0, 4.0]))
        self.k = 2 * math.pi / wl * np.array([[math.cos(a), math.sin(a)] for a in rs.uniform(0, 2 * math.pi, 3)])
        self.ph = rs.uniform(0, 6.28, 3)
        self.a = amp * rs.uniform(0.2, 1, 3) / 1.5
        self.z0 = z0
        j, i = np.meshgrid(np.arange(nx), np.arange(ny))
        x, y = self.transform * (j + 0.5, i + 0.5)
        self.arr = self.height(x, y).astype('float32')
        self.cubic = float(np.abs(self.a).sum() * (2 * math.pi / wl) ** 2 * px**2)
        self.slope = float(np.abs(self.a).sum() * (2 * math.pi / wl))
        self.nan = np.zeros(self.arr.shape, bool)
        if holes:
            for _ in range(rs.randint(1, 4)):
                ci, cj = rs.randint(ny), rs.randint(nx)
                rr = rs.randint(1, max(2, nx // 6))
                self.nan |= (np.hypot(j - cj, i - ci) <= rr)
            self.arr[self.nan] = np.nan
        self.nx, self.ny = nx, ny
        # a very low outlier, away from most rays
        self.pit = np.zeros(self.arr.shape, bool)
        if pit:
            ci, cj = rs.choice([0, ny - 1]), rs.choice([0, nx - 1])
            self.pit[ci, cj] = True
            self.arr[self.pit] = z0 - pit
        # pixels whose neighbourhood contains NaN
        e = self.nan | self.pit
        for _ in range(5):
            q = np.pad(e, 1)
            e = np.any([q[1 + a : q.shape[0] - 1 + a, 1 + b : q.shape[1] - 1 + b] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)
        self.near = e

    def height(self, x, y):
        x, y = np.asarray(x, float) - self.l, np.asarray(y, float) - self.b
        return self.z0 + sum(a * np.cos(k[0] * x + k[1] * y + p) for a, k, p in zip(self.a, self.k, self.ph))

    def sample(self, x, y):
        """(height, certain, possible): certainly inside the valid surface, possibly inside."""
        inv = ~self.transform
        j, i = inv * (np.asarray(x), np.asarray(y))
        j, i = j - 0.5, i - 0.5
        m = 5.0
        ji, ii = np.clip(np.round(j).astype(int), 0, self.nx - 1), np.clip(np.round(i).astype(int), 0, self.ny - 1)
        self.ring = self.near[ii, ji] & self.pit.any()
        certain = (j >= m) & (j <= self.nx - 1 - m) & (i >= m) & (i <= self.ny - 1 - m) & ~self.near[ii, ji]
        possible = (j >= -1) & (j <= self.nx) & (i >= -1) & (i <= self.ny) & ~(self.nan[ii, ji] & False)
        return self.height(x, y), certain, possible


def check_surface(xyz, ray, surf, zmin, zmax, interp, mon, ctx):
    """``ray(k, z)`` gives reference ray points of boundary point k at heights z."""
    tolz = dict(nearest=0.75 * surf.slope * surf.px * 1.5, bilinear=0.5 * surf.cubic, cubic=0.5 * surf.cubic, lanczos=0.5 * surf.cubic, average=0.5 * surf.cubic)[interp]
    # (OpenCV quantises positions to 1/32 pixel)
    tolz += surf.slope * surf.px / 32
    tolz += 1e-4 * max(1, abs(surf.z0)) + 0.02 * (surf.arr[~surf.nan].max() - surf.arr[~surf.nan].min()) * 0.0
    for k in range(xyz.shape[1]):
        P = xyz[:, k]
        mon.count('surface_points')
        mon.check(zmin - 1e-3 <= P[2] <= zmax + 1e-3, 'surface boundary point outside the DEM height range', z=P[2], zmin=zmin, zmax=zmax, **ctx)
        on = ray(k, np.array([P[2]]))[:, 0]
        # step size along the ray
        ends = ray(k, np.array([zmax, zmin]))
        length = np.abs(ends[:2, 1] - ends[:2, 0]) / np.abs([surf.transform[0], surf.transform[4]])
        steps = max(2, int(np.ceil(length.max())) + 1)
        dz = (zmax - zmin) / (steps - 1)
        mon.check(
            np.hypot(*(on - P)[:2]) < 0.02 * surf.px + 1e-3 * np.hypot(*(ends[:2, 1] - ends[:2, 0])) + ctx['xytol'],
            'surface boundary point is off the ray of its pixel', off=np.hypot(*(on - P)[:2]), px=surf.px, k=k, **ctx,
        )
        zz = np.linspace(zmax, zmin, min(20000, (steps - 1) * 8 + 1))
        r = ray(k, zz)
        hgt, certain, possible = surf.sample(r[0], r[1])
        f = r[2] - hgt
        # (kernels are cut off at the DEM edge)
        maybe = np.nonzero(((f <= tolz + 3 * surf.slope * surf.px * ~certain) | surf.ring) & possible)[0]
        sure = np.nonzero((f <= -tolz) & certain)[0]
        z_first = zz[maybe[0]] if len(maybe) else zmin  # no intersection above this height
        # there is one of the sampled ray points within a step below a sure hit, if it stays below the surface
        z_last = zmin
        for s in sure[:2000]:
            lo = np.searchsorted(-zz, -(zz[s] - dz * 1.0001))
            seg = slice(s, min(lo + 1, len(zz)))
            if zz[s] - dz >= zmin - 1e-9 and np.all((f[seg] <= -tolz) & certain[seg]):
                z_last = zz[s] - dz
                break
        slack = dz * 0.01 + 1e-3
        if len(maybe):
            mon.count('surface_hits' if z_last > zmin else 'surface_grazes')
        else:
            mon.count('surface_misses')
        mon.check(P[2] <= z_first + slack + (dz * 0.13), 'boundary point lies above the first intersection of its ray with the surface', z=P[2], first=z_first, dz=dz, k=k, **ctx)
        mon.check(P[2] >= z_last - slack - (dz * 0.13), 'boundary point lies below the first intersection of its ray with the surface', z=P[2], last=z_last, dz=dz, k=k, **ctx)


def surface_case(cam, w, h, ray_of, z0, extent, mon, rs, ctx, ceiling=None, interps=('nearest', 'bilinear', 'cubic', 'lanczos')):
    (l, b, r, t) = extent
    W, H = r - l, t - b
    kind = rs.choice(['cover', 'cover', 'partial', 'holes', 'tiny', 'pit', 'pit'])
    if kind == 'partial':
        l, b = l + W * rs.uniform(0.1, 0.6), b + H * rs.uniform(-0.1, 0.5)
    elif kind == 'tiny':
        l, r = l + 0.4 * W, r - 0.3 * W
        b, t = b + 0.3 * H, t - 0.4 * H
    amp = ctx.pop('amp') * rs.choice([0.1, 0.4, 1.0])
    pit = ctx.pop('pit') * rs.choice([3, 10, 30]) if kind == 'pit' and 'pit' in ctx else None
    surf = Surf(rs, (l, b, r, t), z0, amp * (0.2 if pit else 1), int(rs.choice([30, 80, 200])) if not pit else int(rs.choice([24, 30, 50])), holes=kind == 'holes', pit=pit)
    ctx.pop('pit', None)
    if surf.nan.all():
        return
    arr = surf.arr.astype(rs.choice(['float32', 'float64']))
    n = int(rs.choice([8, 16, 24]))
    interp = str(rs.choice(interps))
    kw = {} if interp == 'cubic' and rs.rand() < 0.5 else dict(interp=interp)
    zmin, zmax = float(np.nanmin(arr)), float(np.nanmax(arr))
    if ceiling is not None:
        zmax = min(zmax, ceiling)
        if zmin > ceiling - 1:
            return
    keep = arr.copy()
    xyz = cam.world_boundary(arr, num_pts=n, transform=surf.transform, **kw)
    mon.check(np.array_equal(keep, arr, equal_nan=True), 'DEM array was modified')
    ji = cam.pixel_boundary(num_pts=n)
    mon.check(xyz.shape == (3, ji.shape[1]), 'shape of surface boundary', shape=xyz.shape)
    check_surface(xyz, lambda k, z: ray_of(ji[:, [k]], z), surf, zmin, zmax, interp, mon, dict(ctx, dem=str(kind), interp=interp, zr=[zmin, zmax]))
    mon.state(ctx['model'], str(kind), interp, n, str(arr.dtype))


def run_frame(case, mon, rs):
    from orthority.errors import OrthorityError

    p = case['p']
    w, h = p['im_size']
    cam = gen.make_camera(p, distort=case['distort'], alpha=case['alpha'])
    dcam = gen.make_camera(p)
    check_pixel_boundary(cam, dcam, p, mon, rs, case['distort'])
    K, _ = ref.fit_lin_K(cam, p) if not case['distort'] else (None, 0)

    def ray_of(ji, z):
        n = max(ji.shape[1], np.size(z))
        if case['distort']:
            x, y = ref.undistort(p['model'], p, *ref.pixel_to_norm(p, ji))
        else:
            x, y = (ji[0] - K[2]) / K[0], (ji[1] - K[3]) / K[1]
        x, y = np.broadcast_to(x, (n,)), np.broadcast_to(y, (n,))
        return ref.norm_to_world(p, x, y, np.asarray(z, float))

    alt = p['xyz'][2]
    for z in (alt - 60.0, int(alt) - 30, 0, -5.5, np.float64(alt - 77.7)):
        n = int(rs.choice([8, 20]))
        got = cam.world_boundary(z, num_pts=n) if rs.rand() < 0.7 else cam.world_boundary(z)
        ji = cam.pixel_boundary(num_pts=n) if got.shape[1] != 8 or n == 8 else cam.pixel_boundary()
        ji = cam.pixel_boundary() if got.shape[1] != ji.shape[1] else ji
        for cand in (cam.pixel_boundary(num_pts=n), cam.pixel_boundary()):
            if cand.shape[1] == got.shape[1]:
                e = np.abs(got - ray_of(cand, float(z))).max()
                if e < 1e-2 * (alt - float(z)) / min(ref.focal_px(p)) + 1e-6:
                    break
        want = ray_of(cand, float(z))
        gsd = (alt - float(z)) / min(ref.focal_px(p))
        err = np.abs(got - want)
        stretch = (np.linalg.norm(want - np.array(p['xyz']).reshape(3, 1), axis=0) / (alt - float(z))) ** 2
        mon.count('world_points', got.shape[1])
        mon.check(got.shape == want.shape and (err / stretch).max() < 0.02 * gsd + 1e-6, 'world boundary is not the projection of the pixel boundary', err=(err / stretch).max() / gsd, z=float(z))
        mon.check(np.abs(got[2] - float(z)).max() < 1e-6, 'world boundary height')
    # z above the camera is clipped to the camera height
    got = cam.world_boundary(alt + 10.0)
    mon.check(np.abs(got - np.array(p['xyz']).reshape(3, 1)).max() < 1e-6, 'boundary above the camera is not clipped to the camera', got=got[:, 0])

    z0 = alt - rs.choice([0.3, 0.6, 1.0]) * alt * 0.8 if alt > 0 else alt - 100
    b0 = cam.world_boundary(z0)
    W = b0[0].max() - b0[0].min()
    ext = [b0[0].min() - 0.3 * W, b0[1].min() - 0.3 * W, b0[0].max() + 0.3 * W, b0[1].max() + 0.3 * W]
    gsd = (alt - z0) / min(ref.focal_px(p))
    for _ in range(2):
        amp = (alt - z0) * (0.35 if rs.rand() < 0.8 else 1.3)
        ctx = dict(model=p['model'], distort=case['distort'], xytol=0.05 * gsd, amp=amp, pit=alt - z0)
        surface_case(cam, w, h, ray_of, z0, ext, mon, rs, ctx, ceiling=alt)
    # DEM above the camera
    try:
        cam.world_boundary(np.full((20, 20), alt + 5.0, dtype='float32'), transform=__import__('rasterio').transform.from_bounds(*ext, 20, 20))
    except (OrthorityError, ValueError):
        mon.count('dem_above_refused')
        mon.check(True, '')
    else:
        mon.fail('a boundary was returned for a DEM that is above the camera')


def run_rpc(case, mon, rs):
    from orthority.camera import RpcCamera

    rp = case['rp']
    r = rp['rpc']
    w, h = rp['im_size']
    crs = gen.utm_epsg(r['long_off'], r['lat_off']) if case['crs'] else None
    cam = RpcCamera((w, h), r, crs=crs, rpc_options=dict(rpc_pixel_error_threshold=0.001, rpc_max_iterations=200))
    check_pixel_boundary(cam, cam, None, mon, rs, True)

    def ray_of(ji, z):
        """Newton inverse of the reference RPC."""
        z = np.asarray(z, float)
        n = max(ji.shape[1], z.size)
        j, i = np.broadcast_to(ji[0], (n,)), np.broadcast_to(ji[1], (n,))
        lon, lat = np.full(n, r['long_off']), np.full(n, r['lat_off'])
        zz = np.broadcast_to(z, (n,))
        dl, dp = r['long_scale'] * 1e-5, r['lat_scale'] * 1e-5
        for _ in range(12):
            f = ref.rpc_project(r, lon, lat, zz)
            a = (ref.rpc_project(r, lon + dl, lat, zz) - f) / dl
            b = (ref.rpc_project(r, lon, lat + dp, zz) - f) / dp
            e0, e1 = f[0] - j, f[1] - i
            det = a[0] * b[1] - b[0] * a[1]
            lon = lon - (b[1] * e0 - b[0] * e1) / det
            lat = lat - (a[0] * e1 - a[1] * e0) / det
        return gen.lonlat_to_crs(crs, lon, lat, zz)

    z = r['height_off'] + 0.3 * r['height_scale']
    got = cam.world_boundary(z)
    want = ray_of(cam.pixel_boundary(), z)
    unit = rp['gsd'] if crs else rp['gsd'] / 111000
    mon.count('world_points', 8)
    mon.check(np.abs(got - want)[:2].max() < 0.02 * unit, 'world boundary is not the projection of the pixel boundary', err=np.abs(got - want)[:2].max() / unit)
    z0 = r['height_off']
    b0 = cam.world_boundary(z0)
    W, H = b0[0].max() - b0[0].min(), b0[1].max() - b0[1].min()
    ext = [b0[0].min() - 0.4 * W, b0[1].min() - 0.4 * H, b0[0].max() + 0.4 * W, b0[1].max() + 0.4 * H]
    ctx = dict(model='rpc', distort=True, xytol=0.05 * unit, amp=0.5 * r['height_scale'])
    surface_case(cam, w, h, ray_of, z0, ext, mon, rs, ctx)


def run_horizon(case, mon, rs):
    from orthority.errors import OrthorityError

    p = dict(case['p'])
    tilt, az = case['tilt'], case['az']
    w, h = p['im_size']
    j, i = [0, (w - 1) / 2, w - 1], [0, (h - 1) / 2, h - 1]
    b = np.array([(a, c) for a in j for c in i if (a, c) != (j[1], i[1])]).T
    dense = ref.border(w, h, 30)
    rays = [ref.undistort(p['model'], p, *ref.pixel_to_norm(p, pts)) for pts in (b, dense)]

    def tilted(t):
        """Camera angles for a tilt about the x axis after heading rotation, and the highest elevations of the border rays."""
        opk, out = [t * math.cos(az), t * math.sin(az) * 0.7, case['p']['opk'][2]], []
        for x, y in rays:
            v = ref.collinearity_matrix(opk).T @ np.array([x, -y, -np.ones_like(x)])
            out.append(np.degrees(np.arcsin((v / np.linalg.norm(v, axis=0))[2])).max())
        return opk, out

    if rs.rand() < 0.7:
        # a field of view that just reaches, or just misses, the horizon
        target, lo, hi = rs.choice([-4, -2, -1.2, 0.8, 2]), 0.0, 1.9
        for _ in range(30):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if tilted(mid)[1][int(target < 0)] < target else (lo, mid)
        tilt = lo
    p['opk'], elev = tilted(tilt)
    cam = gen.make_camera(p, distort=case['distort'], alpha=float(rs.choice([0, 0.5, 1])))
    z = p['xyz'][2] - 50.0
    dem = np.full((10, 10), z, dtype='float32')
    import rasterio as rio

    x0, y0 = p['xyz'][:2]
    tr = rio.transform.from_bounds(x0 - 50, y0 - 50, x0 + 50, y0 + 50, 10, 10)
    for f in (lambda: cam.world_boundary(z), lambda: cam.world_boundary(dem, transform=tr), lambda: cam.world_boundary(z, num_pts=16)):
        try:
            f()
            raised = False
        except OrthorityError:
            raised = True
        if elev[0] > 0.5:
            mon.count('horizon_refused', raised)
            mon.check(raised, 'a boundary was returned for a field of view that includes the horizon', elevation=elev, opk=p['opk'])
        elif elev[1] < -0.8:
            mon.count('below_horizon')
            mon.check(not raised, 'horizon error for a field of view below the horizon', elevation=elev, opk=p['opk'])
    mon.state(p['model'], round(tilt, 1))


def run(case, mon):
    rs = np.random.RandomState(case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, mon, rs)
