"""CSV exterior parameters are read with the right fields, units and CRS."""
import io
import math
import random
import warnings

import numpy as np

from vlib import orient, params

ID = 'C17'
RULE = (
    'Random CSV files over delimiter, line ends, quoting, header case / legacy / given field names, column order, extra and competing columns, number formats, degrees / radians, 1 - 300 rows, all position and orientation formats, '
    'world CRS given / in .prj / automatic, read through paths, OpenFile, file objects and fsspec; every row compared with an independent computation. Non-trivial always.'
)
ASSUME = ['roll, pitch, yaw in the Pix4D / aerospace convention with the camera top towards the body front', 'projections by PROJ through rasterio']
NEED = ['rows', 'rpy_rows', 'lla_rows', 'prj_read', 'auto_utm', 'crs_errors', 'legacy', 'radians']
TIMEOUT = 120
CRSS = params.PROJ[:7]
LLA = {'EPSG:4979': 1, 'EPSG:4326': 1, 'EPSG:4326+5773': 1, '+proj=longlat +ellps=intl +towgs84=-87,-98,-121 +no_defs': 1, '+proj=longlat +ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7 +no_defs': 1}


def cases(rng, tier):
    n = 1500 if tier == 'quick' else 20000
    out = []
    for k in range(n):
        pos, ori = rng.choice(['xyz', 'lla']), rng.choice(['opk', 'rpy'])
        lay = rng.choice(['header', 'header', 'header', 'fields', 'fields+header', 'legacy'])
        if lay == 'legacy':
            pos, ori = 'xyz', 'opk'
        out.append(dict(seed=rng.randrange(1 << 30), pos=pos, ori=ori, lay=lay, n=rng.choice([1, 2, 3, 5, 12, 60, 300]), delim=rng.choice([',', ',', ';', ':', ' ', '\t']), nl=rng.choice(['\n', '\r\n']), last=rng.random() < 0.8,
                        quote=rng.choice([None, None, '"', "'"]), qall=rng.random() < 0.4, radians=rng.random() < 0.4, crs=rng.choice(CRSS), crs_how=rng.choice(['arg', 'prj', 'none', 'arg+prj', 'obj']), prj_as=rng.choice(['epsg', 'wkt']),
                        lla_crs=rng.choice([None, None, *LLA]), via=rng.choice(['str', 'path', 'ofile', 'fobj', 'mem']), cam=rng.choice([None, 'one', 'many', 'empty']), extra=rng.choice([0, 0, 1, 3]), both=rng.random() < 0.2,
                        pad=rng.choice([None, None, 'ragged', 'align']), shuffle=rng.random() < 0.5, case=rng.choice(['lower', 'upper', 'title', 'spaced']), dialect=rng.random() < 0.1))
    return out


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def num(rng, v):
    """Text of a number, that parses to exactly ``v``."""
    c = rng.random()
    if v == int(v) and c < 0.5:
        return rng.choice([str(int(v)), f'{int(v)}.', f'{int(v)}.0'])
    if c < 0.6:
        return repr(v)
    if c < 0.7 and v > 0:
        return '+' + repr(v)
    return f'{v:.17g}' if c < 0.9 else f'{v:.16e}'


def _run(case, mon):
    from orthority.errors import CrsMissingError
    from orthority.param_io import CsvReader
    from rasterio.crs import CRS

    rng = random.Random(case['seed'])
    n, q = case['n'], case['quote']
    d = case['delim']
    crs = case['crs']
    # CRS of the world coordinates that applies
    has_prj = 'prj' in case['crs_how']
    arg = crs if case['crs_how'] in ('arg', 'arg+prj', 'obj') else None
    prj_crs = crs if case['crs_how'] == 'prj' else rng.choice([c for c in CRSS if c != crs])
    can_prj = case['via'] != 'fobj'
    lla_crs = case['lla_crs'] or 'EPSG:4979'
    has = {case['pos'], case['ori']}
    if case['both'] and case['lay'] != 'legacy':
        has |= set(rng.choice([['xyz', 'lla'], ['opk', 'rpy'], ['xyz', 'lla', 'opk', 'rpy']]))
    pos, ori = 'xyz' if 'xyz' in has else 'lla', 'opk' if 'opk' in has else 'rpy'
    want_err = False
    if arg:
        world = arg
    elif pos == 'xyz':
        world = prj_crs if has_prj and can_prj else None
        want_err = world is None and ori == 'rpy'
    else:
        world = 'auto' if ori == 'rpy' else None
        want_err = ori == 'opk'

    # rows
    area = world if world not in (None, 'auto') else crs
    x0, y0 = params.AREA[area]
    lon0, lat0, _ = orient.project(area, 'EPSG:4979', x0, y0, 0)[:, 0].tolist()
    if world == 'auto':
        lon0, lat0 = rng.uniform(-179, 179), rng.choice([rng.uniform(-75, -1), rng.uniform(1, 75)])
        z = (lon0 + 180) % 6
        lon0 += 1.0 if z < 0.7 else -1.0 if z > 5.3 else 0
    wide = world == 'auto' and rng.random() < 0.4
    if wide:
        # positions in different UTM zones and hemispheres, with a mean that is clear of the zone boundaries
        lon0, lat0 = 6 * rng.randrange(-28, 28) + rng.uniform(0.5, 5.5), rng.choice([rng.uniform(-1, 1), rng.uniform(-60, 60)])
        off = [(rng.uniform(-4, 4), rng.uniform(-1.5, 1.5)) for _ in range(n)]
        if rng.random() < 0.5:
            # most on one side
            off = [(rng.choice([-1, -1, -1, -1, 3.5]) + rng.uniform(-0.4, 0.4), rng.choice([-0.5, -0.5, -0.5, 1.5]) + rng.uniform(-0.2, 0.2)) for _ in range(n)]
        off = [(a - sum(o[0] for o in off) / n, b - sum(o[1] for o in off) / n) for a, b in off]
        lat0 += 0.05 * (1 if lat0 >= 0 else -1)
        mon.count('wide_auto')
    unit = 1.0 if case['radians'] else math.pi / 180
    names = params.filenames(rng, n)
    bad = {d, q or '', '"', "'"} | ({' '} if q is None and d == ' ' else set())
    if q is None or case['lay'] == 'legacy':
        # without quotes, characters of other delimiters make the layout ambiguous unless it is given
        bad |= set() if case['dialect'] else set(',;: \t')
        names = [f if not any(c and c in f for c in bad) else f'im_{k}.tif' for k, f in enumerate(names)]
    else:
        names = [f if not any(c and c in f for c in ('"', "'")) else f'im{d}{k}.tif' for k, f in enumerate(names)]
    dirs = [rng.choice(['', '', 'dir/', '/abs/path/']) if d not in '/' else '' for _ in names]
    cams = None
    if case['cam'] == 'one':
        cams = ['cam1'] * n
    elif case['cam'] == 'many':
        ids = ['DJI FC6310', 'a_b', '12', 'v2 x']
        cams = [rng.choice(ids if q else ['DJI', 'a_b', '12']) for _ in range(n)]
    elif case['cam'] == 'empty' and d not in (' ', '\t'):
        cams = [''] * n
    vals = dict(x=[], y=[], z=[], latitude=[], longitude=[], altitude=[], omega=[], phi=[], kappa=[], roll=[], pitch=[], yaw=[])
    for _ in range(n):
        sp = rng.choice([1.0, 0.01])
        vals['x'].append(x0 + rng.uniform(-5e3, 5e3) * sp)
        vals['y'].append(y0 + rng.uniform(-5e3, 5e3) * sp)
        vals['z'].append(rng.choice([rng.uniform(10, 4000), float(rng.randrange(3000))]))
        a, b = off[len(vals['latitude'])] if wide else (rng.uniform(-0.02, 0.02), rng.uniform(-0.02, 0.02))
        vals['latitude'].append(lat0 + b)
        vals['longitude'].append(lon0 + a)
        vals['altitude'].append(rng.choice([rng.uniform(10, 4000), float(rng.randrange(3000))]))
        for k, m in (('omega', 60), ('phi', 60), ('kappa', 180), ('roll', 50), ('pitch', 50), ('yaw', 180)):
            a = rng.choice([rng.uniform(-m, m), float(rng.randrange(-m, m))])
            if k == 'yaw' and rng.random() < 0.3:
                a = rng.uniform(180, 360)
            vals[k].append(a if not case['radians'] else math.radians(a))
    F = dict(xyz=['x', 'y', 'z'], lla=['latitude', 'longitude', 'altitude'], opk=['omega', 'phi', 'kappa'], rpy=['roll', 'pitch', 'yaw'])
    if case['lay'] == 'legacy':
        fields = ['filename', *F['xyz'], *F['opk']]
        cams = None
    else:
        fields = ['filename', *[f for g in ('lla', 'rpy', 'xyz', 'opk') if g in has for f in F[g]]]
        if cams:
            fields.append('camera')
        fields += [f'other{k}' for k in range(case['extra'])]
        if case['shuffle']:
            rng.shuffle(fields)
    if cams and not any(cams) and fields[-1] == 'camera' and n:
        # a trailing empty column is hard to detect in any layout
        fields = ['camera', *fields[:-1]] if len(fields) > 1 else fields
    text = dict(filename=[a + b for a, b in zip(dirs, names)], camera=cams)
    for k in range(case['extra']):
        text[f'other{k}'] = [rng.choice(['abc', '1.5', 'x1', '7']) for _ in range(n)] if k != 1 else [f'{rng.uniform(0, 1):.3f}' for _ in range(n)]

    def quoted(s, isnum):
        if q and (case['qall'] or not isnum):
            return q + s + q
        return s

    rows = []
    if case['lay'] in ('header', 'fields+header'):
        h = fields if case['lay'] == 'header' else [f'col{k}' for k in range(len(fields))]
        fmt = dict(lower=str, upper=str.upper, title=str.title, spaced=lambda s: s.title())[case['case']]
        rows.append([quoted(fmt(f), not case['qall']) for f in h])
    for k in range(n):
        rows.append([quoted(text[f][k], False) if f in text else quoted(num(rng, vals[f][k]), True) for f in fields])
    sep = d + ' ' if case['case'] == 'spaced' and d in ',;' else d
    if case['pad'] and d in ',;' and q is None:
        # spaces after the delimiter, which the automatic detection copes with for unquoted values: a varying number, or right-aligned columns
        w = [max(len(r[k]) for r in rows) for k in range(len(rows[0]))]
        rows = [[c if not k else ' ' * (rng.randrange(3) if case['pad'] == 'ragged' else w[k] - len(c)) + c for k, c in enumerate(r)] for r in rows]
        mon.count('padded_files')
    s = case['nl'].join(sep.join(r) for r in rows) + (case['nl'] if case['last'] else '')

    path = mon.tmp / rng.choice(['ext.csv', 'a.b.csv', 'ext param.txt'])
    path.write_bytes(s.encode())
    prj = None
    if has_prj:
        c = CRS.from_string(prj_crs)
        prj = c.to_wkt() if case['prj_as'] == 'wkt' else prj_crs
        path.with_suffix('.prj').write_text(prj)
    kw = dict(radians=case['radians'])
    if arg:
        kw['crs'] = CRS.from_string(arg) if case['crs_how'] == 'obj' else arg
    if case['lla_crs']:
        kw['lla_crs'] = case['lla_crs']
    if case['lay'].startswith('fields'):
        kw['fieldnames'] = [f if rng.random() < 0.8 else f' {f.upper()}' for f in fields]
    if case['dialect']:
        import csv

        kw['dialect'] = type('D', (csv.excel,), dict(delimiter=d, quotechar=q or '"', skipinitialspace=True, lineterminator=case['nl']))

    def reader():
        import fsspec

        v = case['via']
        if v == 'path':
            return CsvReader(path, **kw)
        if v == 'ofile':
            return CsvReader(fsspec.open(str(path), 'rt'), **kw)
        if v == 'fobj':
            with open(path, 'rt', newline=rng.choice([None, ''])) as f:
                return CsvReader(f, **kw)
        if v == 'mem':
            fs = fsspec.filesystem('memory')
            u = f'/v17/{case["seed"]}/{path.name}'
            fs.pipe(u, path.read_bytes())
            if prj:
                fs.pipe(u[: u.rfind('.')] + '.prj', prj.encode())
            return CsvReader('memory://' + u, **kw)
        return CsvReader(str(path), **kw)

    if want_err:
        try:
            r = reader()
            mon.fail('no error for an unknown world CRS', got=str(r.crs))
        except CrsMissingError:
            mon.count('crs_errors')
        return
    r = reader()
    got = r.read_ext_param()
    again = r.read_ext_param()
    mon.check(params.same(got, again), 'reading twice gives different parameters')
    mon.check(list(got) == names, 'images differ from the rows', got=list(got)[:4], want=names[:4], n=[len(got), n])
    if world == 'auto':
        world = orient.utm(float(np.mean(vals['latitude'])), float(np.mean(vals['longitude'])))
        mon.count('auto_utm')
    if world is None:
        mon.check(r.crs is None, 'a CRS was made up', got=str(r.crs))
    else:
        wc = CRS.from_string(world)
        mon.check(r.crs is not None and np.abs(orient.project(r.crs, 'EPSG:4979', x0, y0, 50) - orient.project(wc, 'EPSG:4979', x0, y0, 50)).max() < 1e-8, 'the world CRS is not the expected one', got=str(r.crs)[:100], want=world)
        if has_prj and not arg and pos == 'xyz':
            mon.count('prj_read')
    for k, f in enumerate(names):
        g = got[f]
        V = {a: b[k] for a, b in vals.items()}
        if pos == 'xyz':
            want = (V['x'], V['y'], V['z'])
            mon.check(tuple(g['xyz']) == want, 'position differs', got=g['xyz'], want=want)
        else:
            want = orient.project(lla_crs, world, V['longitude'], V['latitude'], V['altitude'])[:, 0]
            mon.check(np.abs(np.array(g['xyz']) - want).max() < 1e-6, 'geographic position is not projected to the world CRS', got=g['xyz'], want=want.tolist())
            mon.count('lla_rows')
        if ori == 'opk':
            want = [V[a] * unit for a in F['opk']]
            mon.check(np.abs(np.array(g['opk']) - want).max() < 1e-14, 'orientation differs', got=g['opk'], want=want)
        else:
            if pos == 'xyz':
                lon, lat, alt = orient.project(world, lla_crs, V['x'], V['y'], V['z'])[:, 0]
            else:
                lon, lat, alt = V['longitude'], V['latitude'], V['altitude']
            R = orient.rpy_camera_axes([V[a] * unit for a in F['rpy']], lat, lon, alt, world, lla_crs)
            e = np.abs(orient.rot(g['opk']) - R).max()
            mon.check(e < (1e-6 if '5773' not in lla_crs else 2e-4), 'orientation is not equivalent to roll, pitch, yaw', worst=float(e), opk=g['opk'], rpy=[V[a] * unit for a in F['rpy']])
            mon.count('rpy_rows')
        c = cams[k] if cams else None
        mon.check(g['camera'] == c or (not g['camera'] and not c), 'camera ID differs', got=g['camera'], want=c)
        mon.check(type(g['xyz']) is tuple and type(g['opk']) is tuple and all(type(v) is float for v in (*g['xyz'], *g['opk'])), 'types differ', got=[type(v).__name__ for v in (*g['xyz'], *g['opk'])])
    mon.count('rows', n)
    if case['lay'] == 'legacy':
        mon.count('legacy')
    if case['radians']:
        mon.count('radians')
    mon.state(pos, ori, case['lay'], d, q, case['nl'], case['crs_how'], case['via'], case['cam'])
