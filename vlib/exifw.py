"""Images with EXIF / XMP tags: JPEG (real APP1 segments) and GeoTIFF (GDAL metadata)."""
import struct
from fractions import Fraction

import numpy as np

NS = dict(dji='http://www.dji.com/drone-dji/1.0/', sensefly='http://ns.sensefly.com/Camera/1.0/', pix4d='http://pix4d.com/camera/1.0/')
# name: (tag, type, ifd)
TAGS = dict(
    Make=(0x010F, 2, 0), Model=(0x0110, 2, 0), Orientation=(0x0112, 3, 0),
    FocalLength=(0x920A, 5, 1), PixelXDimension=(0xA002, 4, 1), PixelYDimension=(0xA003, 4, 1), FocalPlaneXResolution=(0xA20E, 5, 1), FocalPlaneYResolution=(0xA20F, 5, 1),
    FocalPlaneResolutionUnit=(0xA210, 3, 1), FocalLengthIn35mmFilm=(0xA405, 3, 1), BodySerialNumber=(0xA431, 2, 1),
    GPSLatitudeRef=(1, 2, 2), GPSLatitude=(2, 5, 2), GPSLongitudeRef=(3, 2, 2), GPSLongitude=(4, 5, 2), GPSAltitudeRef=(5, 1, 2), GPSAltitude=(6, 5, 2),
)  # fmt: skip


def exif_bytes(tags):
    """EXIF APP1 payload of {name: value}."""
    ifds = [dict(), dict(), dict()]
    for n, v in tags.items():
        t, ty, k = TAGS[n]
        ifds[k][t] = (ty, v)

    def data(ty, v):
        if ty == 2:
            b = v.encode() + b'\0'
            return len(b), b
        vs = v if isinstance(v, (list, tuple)) else [v]
        if ty == 1:
            return len(vs), bytes(vs)
        if ty == 3:
            return len(vs), b''.join(struct.pack('<H', x) for x in vs)
        if ty == 4:
            return len(vs), b''.join(struct.pack('<I', x) for x in vs)
        out = b''
        for x in vs:
            f = Fraction(x).limit_denominator(1000000)
            while f.numerator >= 1 << 32:
                f = f.limit_denominator(f.denominator // 10)
            out += struct.pack('<II', f.numerator, f.denominator)
        return len(vs), out

    def size(d):
        n = 2 + 12 * len(d) + 4
        for ty, v in d.values():
            b = data(ty, v)[1]
            if len(b) > 4:
                n += len(b) + (len(b) & 1)
        return n

    if ifds[1]:
        ifds[0][0x8769] = (4, 0)
    if ifds[2]:
        ifds[0][0x8825] = (4, 0)
    off, o = [], 8
    for d in ifds:
        off.append(o)
        o += size(d) if d else 0
    if ifds[1]:
        ifds[0][0x8769] = (4, off[1])
    if ifds[2]:
        ifds[0][0x8825] = (4, off[2])
    body = b'II*\0' + struct.pack('<I', 8)
    for d, o in zip(ifds, off):
        if not d:
            continue
        ent, ext = b'', b''
        base = o + 2 + 12 * len(d) + 4
        for t in sorted(d):
            ty, v = d[t]
            n, b = data(ty, v)
            if len(b) > 4:
                ent += struct.pack('<HHII', t, ty, n, base + len(ext))
                ext += b + (b'\0' if len(b) & 1 else b'')
            else:
                ent += struct.pack('<HHI', t, ty, n) + b.ljust(4, b'\0')
        body += struct.pack('<H', len(d)) + ent + b'\0\0\0\0' + ext
    return b'Exif\0\0' + body


def xmp_text(items, form='attr'):
    """``items``: list of (namespace key, name, text)."""
    ns = ' '.join(f'xmlns:{k}="{u}"' for k, u in NS.items())
    head = '<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>\n<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">\n'
    tail = '</rdf:RDF></x:xmpmeta>\n<?xpacket end="w"?>'
    lang = ' xml:lang="x-default"' if form == 'elem+' else ''
    if form == 'attr':
        body = f'<rdf:Description rdf:about="" {ns} ' + '\n'.join(f'{k}:{n}="{v}"' for k, n, v in items) + '/>'
    else:
        body = f'<rdf:Description rdf:about="" {ns}>' + '\n'.join(f'<{k}:{n}{lang}>{v}</{k}:{n}>' for k, n, v in items) + '</rdf:Description>'
    return head + body + tail


def gdal_tag(n, v):
    """The text GDAL gives for an EXIF tag."""
    t, ty, k = TAGS[n]
    if ty == 2:
        return v
    if ty == 1:
        return f'0x{v:02x}'
    if ty in (3, 4):
        return str(v)
    return ' '.join(f'({x:.15g})' for x in (v if isinstance(v, (list, tuple)) else [v]))


def write(path, size, tags, xmp=None, form='attr', bands=3, seed=0):
    """Write an image; format by extension."""
    import rasterio as rio

    w, h = size
    rs = np.random.RandomState(seed)
    arr = rs.randint(0, 255, (bands, h, w)).astype('uint8')
    xs = xmp_text(xmp, form) if xmp else None
    if path.suffix.lower() == '.tif':
        with rio.open(path, 'w', driver='GTiff', width=w, height=h, count=bands, dtype='uint8') as im:
            im.write(arr)
            im.update_tags(**{f'EXIF_{n}': gdal_tag(n, v) for n, v in tags.items()})
            if xs:
                im.update_tags(ns='xml:XMP', **{'xml:XMP': xs})
        return path
    with rio.open(path, 'w', driver='JPEG', width=w, height=h, count=bands, dtype='uint8') as im:
        im.write(arr)
    aux = path.with_name(path.name + '.aux.xml')
    if aux.exists():
        aux.unlink()
    b = path.read_bytes()
    seg = b''
    if tags:
        e = exif_bytes(tags)
        seg += b'\xff\xe1' + struct.pack('>H', len(e) + 2) + e
    if xs:
        e = b'http://ns.adobe.com/xap/1.0/\0' + xs.encode()
        seg += b'\xff\xe1' + struct.pack('>H', len(e) + 2) + e
    path.write_bytes(b[:2] + seg + b[2:])
    return path
