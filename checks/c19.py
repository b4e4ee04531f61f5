"""Malformed parameter files give a parameter error, never garbage or a crash."""
import copy
import io
import json
import random
import warnings

from vlib import gen, params

ID = 'C19'
RULE = (
    'Valid interior (YAML, OpenSfM), exterior (GeoJSON, OpenSfM, CSV), RPC and GCP files with one structural defect (each required item removed, or replaced by each wrong kind, at each depth), not text / JSON / YAML at all, '
    'and fuzzed bytes (truncation, deletion, duplication, swaps, binary); the reader must raise a parameter or CRS error naming the file for defects, and for fuzzed files either do that or return. Non-trivial always.'
)
ASSUME = ['files that remain valid after fuzzing may be read']
NEED = ['refused', 'fuzzed', 'fuzz_refused', 'fuzz_read', 'csv', 'int_yaml', 'osfm_int', 'osfm', 'ext', 'rpc', 'gcps', 'factory']
TIMEOUT = 60
KINDS = ['int_yaml', 'osfm_int', 'osfm', 'ext', 'rpc', 'gcps', 'csv']
SUFFIX = dict(int_yaml='.yaml', osfm_int='.json', osfm='.json', ext='.geojson', rpc='.yaml', gcps='.geojson', csv='.csv')


def cases(rng, tier):
    n = 6000 if tier == 'quick' else 80000
    return [dict(kind=KINDS[k % 7], how='defect' if (k // 7) % 2 else 'fuzz', seed=rng.randrange(1 << 40), via=rng.choice(['str', 'path', 'fobj', 'ofile', 'factory'])) for k in range(n)]


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def tree(rng, kind):
    """Valid content, and required items [(path, kind of item)]."""
    num3 = lambda s=1.0: [rng.uniform(-1, 1) * s for _ in range(3)]
    if kind == 'int_yaml':
        d, _ = params.int_dict(rng, rng.choice([1, 2]))
        d = {f'cam{k}': v for k, v in enumerate(d.values())}
        t, req = {}, []
        for k, v in d.items():
            q = dict(type=v['cam_type'].value, **{a: list(b) if isinstance(b, tuple) else b for a, b in v.items() if a != 'cam_type'})
            t[k] = q
            req += [((k,), 'entry'), ((k, 'type'), 'enum'), ((k, 'im_size'), 'list'), ((k, 'focal_len'), 'key')]
            if 'sensor_size' in q:
                req.append(((k, 'sensor_size'), 'list?'))
            # not a parameter of any model, or one of another model
            other = dict(pinhole=['k1', 'p1'], brown=['k4', 's1'], opencv=['kx'], fisheye=['p1', 'k5']).get(q['type'], [])
            req += [((k, rng.choice(['foo', 'k9', 'f', 'width', ''])), 'new'), ((k, rng.choice(['foo', *other])), 'new')]
        return t, [((), 'root'), *req]
    if kind in ('osfm_int', 'osfm'):
        cams, req = {}, []
        pre = () if kind == 'osfm_int' else (0, 'cameras')
        for k in range(rng.choice([1, 2])):
            i = f'v2 cam{k}'
            t = rng.choice(['perspective', 'brown', 'fisheye'])
            c = dict(projection_type=t, width=400, height=300, k1=0.01, k2=0.001)
            c.update(dict(focal_x=0.8, focal_y=0.81, c_x=0.0, c_y=0.0) if t == 'brown' else dict(focal=0.9))
            cams[i] = c
            req += [((*pre, i), 'entry'), ((*pre, i, 'projection_type'), 'enum'), ((*pre, i, 'width'), 'key'), ((*pre, i, 'height'), 'key'), ((*pre, i, 'focal_x' if t == 'brown' else 'focal'), 'key'), ((*pre, i, rng.choice(['foo', 'k9', ''])), 'new')]
        if kind == 'osfm_int':
            return cams, [((), 'root'), *req]
        shots = {f'im{k}.jpg': dict(rotation=num3(3), translation=num3(50), camera=rng.choice(list(cams))) for k in range(rng.choice([1, 3]))}
        t = [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=-33.1, longitude=24.5, altitude=3.5))]
        req += [((0,), 'entry'), ((0, 'cameras'), 'dict'), ((0, 'shots'), 'dict'), ((0, 'reference_lla'), 'dict'), *[((0, 'reference_lla', q), 'num') for q in ('latitude', 'longitude', 'altitude')]]
        for s in shots:
            req += [((0, 'shots', s), 'entry'), ((0, 'shots', s, 'camera'), 'str')]
            for q in ('rotation', 'translation'):
                req += [((0, 'shots', s, q), 'list3'), ((0, 'shots', s, q, rng.randrange(3)), 'item')]
        return t, [((), 'root'), *req]
    if kind == 'ext':
        n = rng.choice([1, 3])
        t = dict(type='FeatureCollection', world_crs='EPSG:32735', features=[
            dict(type='Feature', properties=dict(filename=f'im{k}.tif', camera='cam', xyz=[5e5, 6.3e6, 900.5], opk=num3()), geometry=dict(type='Point', coordinates=[24.1, -33.2, 900.5])) for k in range(n)
        ])  # fmt: skip
        req = [((), 'root'), (('type',), 'str'), (('world_crs',), 'crs'), (('features',), 'array')]
        for k in range(n):
            f = ('features', k)
            req += [(f, 'elem'), ((*f, 'properties'), 'dict'), ((*f, 'geometry'), 'dict'), ((*f, 'type'), 'str'), ((*f, 'properties', 'filename'), 'str'), ((*f, 'properties', 'camera'), 'key'), ((*f, 'properties', 'xyz'), 'list3'), ((*f, 'properties', 'opk'), 'list3'),
                    ((*f, 'properties', 'xyz', rng.randrange(3)), 'item'), ((*f, 'properties', 'opk', rng.randrange(3)), 'item')]
        return t, req
    if kind == 'gcps':
        n = rng.choice([1, 3])
        t = dict(type='FeatureCollection', features=[
            dict(type='Feature', properties=dict(ji=[10.5, 20.25], filename='a.tif', id=rng.choice(['g', None]), info=None), geometry=dict(type='Point', coordinates=[24.1, -33.2, 90.5])) for k in range(n)
        ])  # fmt: skip
        req = [((), 'root'), (('type',), 'str'), (('features',), 'array')]
        for k in range(n):
            f = ('features', k)
            req += [(f, 'elem'), ((*f, 'properties'), 'dict'), ((*f, 'geometry'), 'dict'), ((*f, 'type'), 'str'), ((*f, 'geometry', 'type'), 'str'), ((*f, 'properties', 'filename'), 'str'), ((*f, 'properties', 'id'), 'key'), ((*f, 'properties', 'info'), 'key'),
                    ((*f, 'properties', 'ji'), 'list3'), ((*f, 'properties', 'ji', rng.randrange(2)), 'item'), ((*f, 'geometry', 'coordinates'), 'list3'), ((*f, 'geometry', 'coordinates', rng.randrange(3)), 'item')]
        return t, req
    # rpc
    t, req = {}, [((), 'root')]
    for k in range(rng.choice([1, 2])):
        rp = gen.rpc_param(rng)
        r = {a: b for a, b in rp['rpc'].items() if b is not None or rng.random() < 0.5}
        f = f'im{k}.tif'
        t[f] = dict(im_size=list(rp['im_size']), rpc=r)
        req += [((f,), 'entry'), ((f, 'im_size'), 'list3'), ((f, 'rpc'), 'dict')]
        for q in r:
            if q.startswith('err'):
                continue
            if isinstance(r[q], list):
                req += [((f, 'rpc', q), 'list3'), ((f, 'rpc', q, rng.randrange(20)), 'item')]
            else:
                req.append(((f, 'rpc', q), 'num'))
    return t, req


def dump(kind, t):
    if kind in ('int_yaml', 'rpc'):
        import yaml

        return yaml.safe_dump(t, sort_keys=False, default_flow_style=None)
    return json.dumps(t, indent=1)


def mutate(rng, t, path, k):
    """Break one item: returns the new tree and a description."""
    t = copy.deepcopy(t)
    if k == 'root':
        r = rng.choice([[], 5, 'text', None, {}, [1, 2], [[]], True, [None]])
        if isinstance(t, dict) and r == {}:
            r = rng.choice([[], 'text', None])
        return r, 'root'
    o = t
    for q in path[:-1]:
        o = o[q]
    last = path[-1]
    if k == 'new':
        o[last] = rng.choice([1.5, 'x', None, [1]])
        return t, 'unsupported item'
    if k in ('elem', 'item', 'entry') or rng.random() < 0.6 and k not in ('key', 'list?') or isinstance(last, int):
        if k == 'item' and rng.random() < 0.4:
            o.pop(last)
            return t, 'item removed'
        if k == 'item' and rng.random() < 0.2:
            o.insert(last, 1.5)
            return t, 'item added'
        bad = dict(
            dict=['x', 5, None, [], [1], 'abc: def'], list=['x', 5, None, {}, 2.5], array=['x', 5, None, {}, {'a': 1}], num=['abc', None, [], {}, [1.0], '1.5'], item=['abc', None, [], {}, [1.0], '1.5'],
            str=[5, None, [], {}, 2.5], enum=['unknown', None, [], {}, 5, 'rpc', ''], crs=['EPSG:1', 'EPSG:32 35', 'EPSG:a:b', 'garbage', 5, None, [], {}, '', 'EPSG:'], elem=['x', 5, None, [], {}],
        )  # fmt: skip
        bad['entry'] = bad['dict']
        bad['list3'] = bad['list'] + [[1.0], [1.0, 'x', 2.0], [], ['a', 'b', 'c']]
        o[last] = rng.choice(bad[k])
        return t, f'wrong kind of {k}'
    if k == 'list?':
        o[last] = rng.choice(['x', 5, None, {}, 2.5])
        return t, 'wrong kind of list'
    o.pop(last)
    return t, 'item removed'


def csv_text(rng):
    h = ['filename', 'x', 'y', 'z', 'omega', 'phi', 'kappa', 'camera']
    if rng.random() < 0.5:
        h = ['filename', 'latitude', 'longitude', 'altitude', 'roll', 'pitch', 'yaw', 'camera']
    rows = [[f'im{k}.tif', *[f'{v:.4f}' for v in ((5e5 + k, 6.3e6, 900.5) if h[1] == 'x' else (-33.1 + k * 0.001, 24.2, 900.5))], *[f'{rng.uniform(-3, 3):.4f}' for _ in range(3)], 'cam'] for k in range(rng.choice([1, 3, 8]))]
    return h, rows


def csv_defect(rng):
    """A CSV with a defect."""
    h, rows = csv_text(rng)
    d = rng.choice(['column', 'number', 'short', 'empty', 'blank', 'onecol', 'text', 'prj', 'nameless'])
    if d == 'column':
        k = rng.randrange(7)
        h.pop(k)
        for r in rows:
            r.pop(k)
    elif d == 'number':
        rng.choice(rows)[rng.randrange(1, 7)] = rng.choice(['abc', '', '1.2.3', '-', '1,5' if False else '1_x'])
        if len(rows) == 1:
            # with one row a header cannot be told from values, unless it is a known one
            pass
    elif d == 'short':
        k = rng.randrange(len(rows))
        rows[k] = rows[k][: rng.randrange(1, 7)]
    elif d == 'nameless':
        # the file name is in the last column, and missing from a row
        h, rows = h[1:] + h[:1], [r[1:] + r[:1] for r in rows]
        k = rng.randrange(len(rows))
        rows[k] = rows[k][:-1]
    elif d == 'empty':
        return '', d
    elif d == 'blank':
        return rng.choice(['\n\n\n', '   \n', '\r\n']), d
    elif d == 'onecol':
        return 'filename\na\nb\nc\n', d
    elif d == 'text':
        return 'This is not a table.\nIt has some lines of text; nothing else: really.\n' * rng.choice([1, 5]), d
    return '\n'.join(','.join(r) for r in [h, *rows]) + '\n', d


def fuzz(rng, b):
    for _ in range(rng.choice([1, 1, 2, 5])):
        m = rng.choice(['trunc', 'del', 'dup', 'swap', 'byte', 'ins', 'bin', 'line'])
        if not b:
            break
        i = rng.randrange(len(b))
        j = min(len(b), i + rng.choice([1, 3, 20, 200]))
        if m == 'trunc':
            b = b[:i]
        elif m == 'del':
            b = b[:i] + b[j:]
        elif m == 'dup':
            b = b[:j] + b[i:]
        elif m == 'swap':
            k = rng.randrange(len(b))
            s = bytearray(b)
            s[i], s[k] = s[k], s[i]
            b = bytes(s)
        elif m == 'byte':
            b = b[:i] + bytes([rng.randrange(256)]) + b[i + 1 :]
        elif m == 'ins':
            b = b[:i] + rng.choice([b'{', b'[', b'"', b',', b':', b'\n', b'\t', b'null', b'- ', b'\x00', b'\xff\xfe', b'\r', b"'", b'!!python/object:os.system', b'&a *a', b'#', b'NaN', b'1e999']) + b[i:]
        elif m == 'bin':
            b = b[:i] + bytes(rng.randrange(256) for _ in range(30)) + b[i:]
        else:
            ls = b.split(b'\n')
            rng.shuffle(ls) if rng.random() < 0.3 else ls.pop(rng.randrange(len(ls)))
            b = b'\n'.join(ls)
    return b


def read(kind, file, via, rng):
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras

    if via == 'factory':
        di, _ = params.int_dict(rng, 1)
        if kind == 'int_yaml':
            return FrameCameras(file, {'a': {}})
        if kind in ('ext', 'csv', 'osfm'):
            return FrameCameras(di if kind != 'osfm' else file, file, io_kwargs=dict(crs='EPSG:32735'))
        if kind == 'rpc':
            return RpcCameras(file)
        if kind == 'gcps':
            RpcCameras(params.rpc_dict(rng, 1)).refine(file)
            return None
    if kind == 'int_yaml':
        return param_io.read_oty_int_param(file)
    if kind == 'osfm_int':
        return param_io.read_osfm_int_param(file)
    if kind == 'rpc':
        return param_io.read_oty_rpc_param(file)
    if kind == 'gcps':
        return param_io.read_oty_gcps(file)
    if kind == 'osfm':
        r = param_io.OsfmReader(file)
        return r.read_int_param(), r.read_ext_param()
    if kind == 'ext':
        return param_io.OtyReader(file).read_ext_param()
    return param_io.CsvReader(file, crs='EPSG:32735').read_ext_param()


def _run(case, mon):
    import fsspec
    from orthority.errors import CrsError, CrsMissingError, ParamError

    rng = random.Random(case['seed'])
    kind, how = case['kind'], case['how']
    desc, path = None, ()
    if kind == 'csv':
        if how == 'defect':
            s, desc = csv_defect(rng)
        else:
            h, rows = csv_text(rng)
            s = '\n'.join(','.join(r) for r in [h, *rows]) + '\n'
        b = s.encode()
    else:
        t, req = tree(rng, kind)
        if how == 'defect':
            path, k = rng.choice(req)
            if rng.random() < 0.1:
                b = rng.choice([b'', b'\x89PNG\r\n\x1a\n\x00\x00', b'{', b'[1, 2', b'a: [b', b'"', b'\xff\xfe\x00', b'%PDF-1.4', b'plain text', b'<xml/>', b'\x00' * 20])
                desc, path = 'not the format', b.hex()
            else:
                t, desc = mutate(rng, t, path, k)
                b = dump(kind, t).encode()
        else:
            b = dump(kind, t).encode()
    if how == 'fuzz':
        b = fuzz(rng, b)
    f = mon.tmp / ('bad params' + SUFFIX[kind])
    f.write_bytes(b)
    prj = kind == 'csv' and desc == 'prj'
    via = case['via']
    if prj:
        f.with_suffix('.prj').write_text(rng.choice(['garbage', '', 'EPSG:1', 'EPSG:32 735', 'EPSG:a:b', 'GEOGCS[', 'EPSG:4326', 'EPSG:4979']))
        f.write_text('filename,x,y,z,roll,pitch,yaw\na,1,2,3,4,5,6\nb,1,2,3,4,5,6\n')
    if kind == 'osfm' and via == 'factory' and how == 'defect' and rng.random() < 0.5:
        via = 'str'
    file = dict(path=f, str=str(f), factory=str(f)).get(via)
    fo = None
    if via == 'ofile':
        file = fsspec.open(str(f), 'rt')
    elif via == 'fobj':
        file = fo = open(f, 'rt', encoding='utf-8')
    try:
        if prj:
            from orthority.param_io import CsvReader

            got = CsvReader(file).read_ext_param()
        else:
            got = read(kind, file, via, rng)
        ok = True
    except (ParamError, CrsError, CrsMissingError) as ex:
        ok, err = False, str(ex)
    except Exception as ex:
        if how == 'fuzz' and type(ex).__module__.startswith('rasterio'):
            # a well formed file with values that PROJ refuses, e.g. a latitude of -333
            mon.count('fuzzed to values out of PROJ range')
            return
        mon.fail('an unrelated exception is raised for a malformed file', kind=kind, how=how, desc=desc, path=str(path), exc=f'{type(ex).__name__}: {ex}'[:200], text=b[:300].decode(errors='replace'))
        return
    finally:
        if fo:
            fo.close()
    if how == 'defect':
        # an empty mapping of images, or a header without rows, holds no parameters to be wrong
        empty = ok and got in ({}, ({}, {}))
        mon.check(not ok or empty, 'a malformed file was read', kind=kind, desc=desc, path=str(path), got=str(got)[:200] if ok else None)
    else:
        mon.count('fuzzed')
        mon.count('fuzz_read' if ok else 'fuzz_refused')
    if not ok:
        mon.check(f.name in err or (prj and 'bad params' in err), 'the error does not name the file', kind=kind, desc=desc, err=err[:200])
        mon.count('refused')
    if via == 'factory':
        mon.count('factory')
    mon.count(kind)
    mon.state(kind, how, desc, via, ok)
