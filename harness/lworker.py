"""Performs generated histories of file readers.  usage: lworker.py PROGRAMS TRACES SCRATCH LIMIT"""
import gc
import json
import os
import shutil
import sys
import warnings

sys.path.insert(0, os.environ.get('REPO', '/repo'))
warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
from osgeo import gdal  # noqa: E402

gdal.DontUseExceptions()
gdal.PushErrorHandler('CPLQuietErrorHandler')
from delayed_image import delayed_leafs, delayed_nodes, lazy_loaders  # noqa: E402
import pathlib  # noqa: E402
import kwarray  # noqa: E402

GT = {'uint8': 1, 'uint16': 2, 'int16': 3, 'uint32': 4, 'int32': 5, 'float32': 6, 'float64': 7,
      'uint64': 12, 'int64': 13, 'int8': 14}
# the value a code is stored as: code * mul + add
ENC = {'uint8': (1, 0), 'int8': (1, -126), 'uint16': (257, 0), 'int16': (200, -20000), 'int32': (1000003, -10 ** 8),
       'uint32': (17000001, 0), 'float32': (0.25, -5), 'float64': (1 / 3, -7), 'int64': (1 << 40, 0),
       'uint64': (1 << 55, 0)}


def value(code, dt):
    if code == 254:
        return -9999
    if code == 5 and dt.startswith('float'):
        return float('nan')
    m, a = ENC[dt]
    v = code * m + a
    return float(np.dtype(dt).type(v)) if dt.startswith('float') else v


def lev(f, k):
    return (-(-f['h'] // 2 ** k), -(-f['w'] // 2 ** k))


def code0(f, lv, y, x, b):
    if f['pat'] > 0 and (y * 7 + x * 3 + b * 5 + lv) % f['pat'] == 0:
        return (y + x + 2 * b + lv) % f['sp'] + 1
    return ((y * lev(f, lv)[1] + x) * f['c'] + b + 61 * lv) % 240 + 11


def content(f, lv):
    h, w = lev(f, lv)
    out = np.zeros((h, w, f['c']), dtype=f['dt'])
    for y in range(h):
        for x in range(w):
            for b in range(f['c']):
                c = code0(f, 0, y * 2 ** lv, x * 2 ** lv, b) if f['near'] else code0(f, lv, y, x, b)
                out[y, x, b] = value(c, f['dt'])
    return out


def write(f, dpath, i):
    fmt, dt, h, w, c = f['fmt'], f['dt'], f['h'], f['w'], f['c']
    base = os.path.join(dpath, 'f%d' % i)
    src = content(f, 0)

    def fill(d, nd):
        for b in range(c):
            band = d.GetRasterBand(b + 1)
            if nd and f['nv'][b]:
                band.SetNoDataValue(value(f['nv'][b], dt))
            band.WriteArray(np.ascontiguousarray(src[..., b]))

    if fmt == 'png':
        d = gdal.GetDriverByName('MEM').Create('', w, h, c, GT[dt])
        fill(d, False)
        fn = base + '.png'
        gdal.GetDriverByName('PNG').CreateCopy(fn, d)
        return {'data': fn, 'hdr': fn}
    if fmt in ('bsq', 'bil', 'bip'):
        fn = base + '.' + fmt
        d = gdal.GetDriverByName('ENVI').Create(fn, w, h, c, GT[dt], options=['INTERLEAVE=' + fmt.upper()])
        fill(d, True)
        d = None
        return {'data': fn, 'hdr': base + '.hdr'}
    fn = base + '.tif'
    opts = ['INTERLEAVE=' + ('BAND' if fmt == 'tifband' else 'PIXEL')]
    if f['til']:
        opts += ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16', 'COMPRESS=DEFLATE']
    if f['pal']:
        opts += ['PHOTOMETRIC=PALETTE']
    d = gdal.GetDriverByName('GTiff').Create(fn, w, h, c, GT[dt], options=opts)
    if f['pal']:
        ct = gdal.ColorTable()
        for k in range(256):
            ct.SetColorEntry(k, (255 - k, k // 2, 7, 255))
        d.GetRasterBand(1).SetColorTable(ct)
    fill(d, fmt != 'vrt')
    d = None
    if f['nov']:
        d = gdal.Open(fn, gdal.GA_Update)
        d.BuildOverviews('NEAREST', [2 ** (k + 1) for k in range(f['nov'])])
        d = None
        d = gdal.Open(fn, gdal.GA_Update)
        for k in range(f['nov']):
            arr = content(f, k + 1)
            for b in range(c):
                ov = d.GetRasterBand(b + 1).GetOverview(k)
                if (ov.YSize, ov.XSize) != arr.shape[:2]:
                    raise RuntimeError('overview size')
                ov.WriteArray(np.ascontiguousarray(arr[..., b]))
        d = None
    if fmt == 'vrt':
        vn = base + '.vrt'
        d = gdal.GetDriverByName('VRT').CreateCopy(vn, gdal.Open(fn))
        for b in range(c):
            if f['nv'][b]:
                d.GetRasterBand(b + 1).SetNoDataValue(value(f['nv'][b], dt))
        d.FlushCache()
        d = None
        fn = vn
    return {'data': fn, 'hdr': fn}


TABLES = {}


def decode(a, dts):
    """codes of an array, given the types its bands were stored as"""
    masked = np.ma.getmaskarray(a) if isinstance(a, np.ma.MaskedArray) else None
    data = np.ma.getdata(a)
    out = []
    n = data.shape[2] if data.ndim == 3 else 1
    flat = data.reshape(-1)
    mk = masked.reshape(-1) if masked is not None else None
    for i, v in enumerate(flat.tolist()):
        if mk is not None and mk[i]:
            out.append(-2)
        elif v != v:
            out.append(-1)
        else:
            dt = dts[i % n] if dts else None
            if dt not in TABLES:
                TABLES[dt] = {value(c, dt): c for c in range(1, 253) if not (c == 5 and dt.startswith('float'))}
            out.append(TABLES[dt].get(v, -5))
    return out


def element(x, pt):
    t = x['t']
    if t == 'all':
        return slice(None)
    if t == 'none':
        return None
    if t == 'int':
        return x['a']
    if t == 'list':
        return list(x['l'])
    if t == 'ell':
        return Ellipsis
    return slice(None if x['a'] == 9999 else x['a'], None if x['b'] == 9999 else x['b'])


BLANK = {'err': '', 'sh': [], 'dt': '', 'ma': False, 'px': [], 'n': 0, 'k': 0}


def show(a, dts):
    return {**BLANK, 'sh': list(a.shape), 'dt': np.dtype(a.dtype).name, 'ma': isinstance(a, np.ma.MaskedArray),
            'px': decode(a, dts)}


class World:
    def __init__(self, dpath):
        self.dpath = dpath
        self.files, self.paths, self.readers, self.rfile, self.views, self.vdt = [], [], [], [], [], []

    def fast(self, r):
        lazy_loaders.GDAL_FAST_PATH = 1 if self.rfile[r][1] == 'fast' else 0

    def info(self, r):
        o = dict(BLANK)
        q = self.readers[r]
        o['sh'] = list(q.shape)
        o['n'] = q.ndim
        o['dt'] = np.dtype(q.dtype).name
        if hasattr(q, 'num_overviews'):
            o['k'] = q.num_overviews
        repr(q)
        return o

    def add(self, reader, f, be):
        self.readers.append(reader)
        self.rfile.append((f, be))
        self.fast(len(self.readers) - 1)
        return self.info(len(self.readers) - 1)

    def do(self, e):
        op = e['op']
        if op == 'file':
            self.files.append(e['file'])
            self.paths.append(None)
            self.paths[-1] = write(e['file'], self.dpath, len(self.files))
            return dict(BLANK)
        if op in ('open', 'vload'):
            f = self.files[e['f'] - 1]
            p = self.paths[e['f'] - 1]
            be = e['be']
            path = p['hdr'] if be == 'spectral' or (e['pt'] == 0 and be != 'rio') else p['data']
            if e['pt'] == 1:
                path = pathlib.Path(path)
            m = None if e['m'] == 'none' else e['m']
        if op == 'open':
            if be == 'rio':
                return self.add(lazy_loaders.LazyRasterIOFrameFile(path), e['f'], be)
            if be == 'spectral':
                return self.add(lazy_loaders.LazySpectralFrameFile(path), e['f'], be)
            r = lazy_loaders.LazyGDalFrameFile(path, nodata_method=m, overview=e['lv'] if e['lv'] or e['pt'] else None)
            return self.add(r, e['f'], be)
        r = e['r'] - 1
        if op in ('over', 'abs'):
            self.fast(r)
            q = self.readers[r]
            return self.add(q.get_overview(e['k']) if op == 'over' else q.get_absolute_overview(e['k']), *self.rfile[r])
        if op == 'setm':
            self.readers[r].nodata_method = None if e['m'] == 'none' else e['m']
            return dict(BLANK)
        if op == 'drop':
            self.readers[r] = None
            gc.collect()
            return dict(BLANK)
        if op == 'info':
            self.fast(r)
            return self.info(r)
        if op in ('read', 'arr'):
            self.fast(r)
            f = self.files[self.rfile[r][0] - 1]
            q = self.readers[r]
            if op == 'arr':
                a = q.__array__()
            else:
                ix = [element(x, e['pt']) for x in e['ix']]
                a = q[ix[0]] if len(ix) == 1 and not isinstance(ix[0], list) and e['pt'] else q[tuple(ix)]
            o = show(a, [f['dt']] * 64)
            if a.ndim == 2 and a.size:
                o['px'] = decode(a[..., None], [f['dt']])
            del a
            return o
        lazy_loaders.GDAL_FAST_PATH = 0
        v = self.views[r] if op not in ('vload', 'vnan', 'vcat') else None
        dts = self.vdt[r] if v is not None else None
        li = e['l']
        if op == 'vload':
            v = delayed_leafs.DelayedLoad(path, nodata_method=m)
            v.prepare()
            dts = [f['dt']] * f['c']
        elif op == 'vnan':
            v = delayed_leafs.DelayedNans(dsize=(li[1], li[0]), channels=li[2])
            dts = ['float64'] * li[2]
        elif op == 'vcrop':
            v = v.crop((slice(li[0], li[1]), slice(li[2], li[3]))) if e['pt'] else v[li[0]:li[1], li[2]:li[3]]
        elif op == 'vtake':
            v = v.take_channels(list(li))
            dts = [dts[i] for i in li]
        elif op == 'vshift':
            v = v.warp({'offset': (li[1], li[0])}, dsize=(li[3], li[2]))
        elif op == 'vup':
            v = v.warp({'scale': 2}, interpolation='nearest')
        elif op == 'vover':
            v = v.get_overview(e['k'])
        elif op == 'vcat':
            v = delayed_nodes.DelayedChannelConcat([self.views[i - 1] for i in li])
            dts = [d for i in li for d in self.vdt[i - 1]]
        else:
            raise RuntimeError(op)
        self.views.append(v)
        self.vdt.append(dts)
        o = dict(BLANK)
        for key, opt in (('raw', False), ('opt', True)):
            try:
                a = v.finalize(optimize=opt)
                o[key] = show(a, dts)
            except Exception as ex:
                o[key] = {**BLANK, 'err': type(ex).__name__ + ': ' + str(ex)[:200]}
        return o


def main():
    prog, out, scratch, limit = sys.argv[1:5]
    with open(prog) as f, open(out, 'w') as g:
        for line in f:
            p = json.loads(line)
            dpath = os.path.join(scratch, 'p%s' % p['id'])
            os.makedirs(dpath, exist_ok=True)
            w = World(dpath)
            ev = []
            # a shared cache of open datasets, of a few sizes, must not show
            n = p['id'] % 4
            lazy_loaders.GLOBAL_GDAL_CACHE = lazy_loaders.CacheDict(cache_len=n) if n else None
            for e in p['prog']:
                try:
                    o = w.do(e)
                except Exception as ex:
                    o = {**BLANK, 'err': type(ex).__name__ + ': ' + str(ex)[:200]}
                    while len(w.views) < len([1 for x in ev if x['e']['op'][0] == 'v']) + (e['op'][0] == 'v'):
                        w.views.append(None)
                        w.vdt.append([])
                    if e['op'] in ('open', 'over', 'abs') and len(w.readers) < 1 + len([1 for x in ev if x['e']['op'] in ('open', 'over', 'abs')]):
                        w.readers.append(None)
                        w.rfile.append((e['f'] or 1, e['be'] or 'gdal'))
                if e['op'][0] == 'v' and 'raw' not in o:
                    o['raw'] = o['opt'] = dict(o)
                ev.append({'e': e, 'o': o})
            w = None
            lazy_loaders.GLOBAL_GDAL_CACHE = None
            shutil.rmtree(dpath, ignore_errors=True)
            g.write(json.dumps({'id': p['id'], 'ev': ev}) + '\n')
            g.flush()


main()
