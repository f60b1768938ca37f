"""Runs programs generated from Delayed.tla on the real library and records
what can be observed through its public interface.

usage: dworker.py PROGRAMS.jsonl TRACES.ndjson SCRATCH [TIMEOUT]

Every program runs on two pools of sources in lock-step: in one, the value of
every source pixel is its x coordinate, in the other its y coordinate (plus an
offset naming the source band), so that one evaluation of each tells which
source location and band every output pixel shows.
"""
import contextlib
import hashlib
import io
import json
import math
import os
import pathlib
import random
import signal
import sys
import warnings
from fractions import Fraction

warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402

sys.path.insert(0, os.environ.get('REPO', '/repo'))
NONE = 9999
EPS1 = 1e-5
ALGO = ['interpolation', 'antialias', 'border_value', 'noop_eps', 'backend']


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('timeout')


def md(b):
    return hashlib.md5(b).hexdigest()[:10]


# ------------------------------------------------------------------ sources
INTS = {'u16': np.uint16, 'u16file': np.uint16, 'i16': np.int16}
FLTS = {'f32': np.float32, 'f64': np.float64, 'file': np.float32}


def ramp(e, uid, axis, k=0):
    f = 2 ** k
    w = -(-e['w'] // f)
    h = -(-e['h'] // f)
    ys, xs = np.mgrid[0:h, 0:w]
    c = (xs if axis == 0 else ys) * f + f / 2
    enc = 16 if e['ty'] in INTS else 1
    dt = INTS.get(e['ty']) or FLTS[e['ty']]
    return np.stack([((uid + b) * 512 + c) * enc for b in range(e['nb'])], axis=2).astype(dt)


def write_tif(path, e, uid, axis):
    from osgeo import gdal
    gdal.UseExceptions()
    data = ramp(e, uid, axis)
    gt = gdal.GDT_UInt16 if data.dtype == np.uint16 else gdal.GDT_Float32
    ds = gdal.GetDriverByName('GTiff').Create(
        path, e['w'], e['h'], e['nb'], gt, ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16', 'INTERLEAVE=BAND'])
    for b in range(e['nb']):
        ds.GetRasterBand(b + 1).WriteArray(data[:, :, b])
    ds.FlushCache()
    if e['ov'] > 0:
        ds.BuildOverviews('NEAREST', [2 ** k for k in range(1, e['ov'] + 1)])
        for k in range(1, e['ov'] + 1):
            data = ramp(e, uid, axis, k)
            for b in range(e['nb']):
                ds.GetRasterBand(b + 1).GetOverview(k - 1).WriteArray(data[:, :, b])
        ds.FlushCache()
    ds = None


class Pool:
    """One of the two pools"""

    def __init__(self, axis, scratch, plain=False):
        self.axis = axis
        self.plain = plain
        self.scratch = scratch
        self.views = []
        self.leafkey = {}
        self.keep = []

    def leaf(self, e, uid):
        import delayed_image as di
        from delayed_image import delayed_leafs
        chans = written(e['names'], e.get('form', 'codes')) if e['named'] else None
        ty = e['ty']
        if ty == 'nans':
            return di.DelayedNans(dsize=(e['w'], e['h']), channels=chans if e['named'] else e['nb'])
        if ty == 'nodata':
            return delayed_leafs.DelayedNodata(dsize=(e['w'], e['h']), channels=chans if e['named'] else e['nb'])
        if ty in {'file', 'u16file'}:
            key = json.dumps([e['w'], e['h'], e['nb'], ty, e['ov'], uid, self.axis])
            path = os.path.join(self.scratch, md(key.encode()) + '.tif')
            if not os.path.exists(path):
                tmp = path[:-4] + f'_{os.getpid()}.tif'
                write_tif(tmp, e, uid, self.axis)
                os.replace(tmp, path)
            self.leafkey[('f', path)] = len(self.views) + 1
            return self.load(di, path, chans, e)
        data = ramp(e, uid, self.axis)
        self.keep.append(data)
        v = di.DelayedIdentity(data, channels=chans)
        self.leafkey[('d', id(data))] = len(self.views) + 1
        return v


    def load(self, di, path, chans, e):
        """the view of a file, with more or less said about it beforehand"""
        know = 'prep' if self.plain else e.get('know', 'prep')
        size = (e['w'], e['h'])
        said = chans if chans is not None else e['nb']
        if know == 'full':
            return di.DelayedLoad(path, channels=said, dsize=size, num_overviews=max(0, e['ov']))
        if know == 'fullprep':
            return di.DelayedLoad(path, channels=said, dsize=size, num_overviews=max(0, e['ov'])).prepare()
        if know == 'noov':
            return di.DelayedLoad(path, channels=said, dsize=size)
        if know == 'noovprep':
            return di.DelayedLoad(path, channels=said, dsize=size).prepare()
        if know == 'part':
            return di.DelayedLoad(path, channels=chans, dsize=(e['w'], None)).prepare()
        if know == 'size':
            return di.DelayedLoad(path, channels=chans, dsize=size).prepare()
        if know == 'ovonly':
            return di.DelayedLoad(path, channels=chans, num_overviews=max(0, e['ov'])).prepare()
        if know == 'twice':
            v = di.DelayedLoad(path, channels=chans)
            v.prepare()
            return v.prepare()
        if know == 'nogdal':
            # a system without GDAL: the whole image is read by other means
            from delayed_image import lazy_loaders
            had = lazy_loaders.LazyGDalFrameFile.__dict__['available']
            lazy_loaders.LazyGDalFrameFile.available = classmethod(lambda cls: False)
            try:
                return di.DelayedLoad(path, channels=chans).prepare()
            finally:
                lazy_loaders.LazyGDalFrameFile.available = had
        if know == 'path':
            return di.DelayedLoad(pathlib.Path(path), channels=chans).prepare()
        return di.DelayedLoad(path, channels=chans).prepare()


def leaf_key(node):
    if 'fpath' in node.meta:
        return ('f', str(node.meta['fpath']))
    d = getattr(node, 'data', None)
    return ('d', id(d)) if d is not None else None


def kids(node):
    if hasattr(node, 'parts') and node.parts is not None:
        return list(node.parts)
    sub = getattr(node, 'subdata', None)
    return [sub] if hasattr(sub, 'meta') else []


def chan_names(node):
    c = node.channels
    return None if c is None else [str(x) for x in c.as_list()]


def mat(t):
    import kwimage
    if t is None:
        return np.eye(3)
    if isinstance(t, dict):
        t = {k: v for k, v in t.items() if k != 'type'}
    m = kwimage.Affine.coerce(t).matrix
    return np.eye(3) if m is None else np.array([[float(x) for x in r] for r in np.asarray(m)])


def six(m):
    out = []
    for v in np.asarray(m, dtype=float)[:2].ravel():
        out.append(int(max(-2 ** 20, min(2 ** 20, round(v * 1024)))) if math.isfinite(v) else 2 ** 20)
    return out


META = ['dsize', 'num_channels', 'space_slice', 'chan_idxs', 'overview', 'quantization', 'fpath',
        'nodata_method'] + ALGO


def node_meta(node):
    m = node.meta
    d = {k: m.get(k) for k in META if m.get(k) is not None}
    d = {k: repr(str(v) if k == 'fpath' else v) for k, v in d.items()}
    if m.get('transform') is not None:
        d['transform'] = repr([float(x).hex() for x in mat(m['transform']).ravel()])
    c = m.get('channels')
    if c is not None:
        d['channels'] = repr([str(x) for x in c.as_list()])
    return d


def describe(node, key=leaf_key):
    """a digest of everything a view declares, down to its sources"""
    h = hashlib.md5()

    def rec(n):
        h.update(type(n).__name__.encode())
        h.update(repr(sorted(node_meta(n).items())).encode())
        try:
            h.update(repr((tuple(int(x) for x in n.dsize), n.num_channels, chan_names(n))).encode())
        except Exception as ex:
            h.update(type(ex).__name__.encode())
        ks = kids(n)
        if not ks:
            h.update(repr(key(n)).encode())
        h.update(b'(')
        for k in ks:
            rec(k)
            h.update(b',')
        h.update(b')')
    rec(node)
    return h.hexdigest()[:10]


CV2_CODE = {'nearest': 0, 'linear': 1, 'cubic': 2, 'lanczos': 4}
CODE_NAME = {v: k for k, v in CV2_CODE.items()}


def params(node):
    m = node.meta
    b = m.get('border_value', 'auto')
    interp = m.get('interpolation', 'linear')
    interp = CODE_NAME.get(interp, interp)
    eps = m.get('noop_eps', 0)
    return {'interp': str(interp), 'aa': bool(m.get('antialias', True)),
            'border': b if isinstance(b, str) else str(int(b)),
            'eps': 0 if not eps else 1 if abs(eps - EPS1) < 1e-12 else 2,
            'backend': str(m.get('backend', 'auto'))}


def rational(m):
    """<<a,b,c,d,e,f,q>> or None"""
    frs = []
    for v in np.asarray(m, dtype=float)[:2].ravel():
        if not math.isfinite(v):
            return None
        f = Fraction(float(v)).limit_denominator(4000)
        if abs(float(f) - v) > 1e-7 * max(1, abs(v)):
            return None
        frs.append(f)
    q = 1
    for f in frs:
        q = q * f.denominator // math.gcd(q, f.denominator)
        if q > 8000:
            return None
    out = [int(f * q) for f in frs] + [q]
    if any(abs(x) > 2 ** 21 for x in out):
        return None
    return out


KT = {'DelayedCrop': 'crop', 'DelayedWarp': 'warp', 'DelayedOverview': 'ov', 'DelayedDequantize': 'deq',
      'DelayedChannelConcat': 'cat', 'DelayedAsXarray': 'xr', 'DelayedNans': 'nans', 'DelayedNodata': 'nans'}


def graph_of(root, pool):
    nodes = []
    ok = True

    def rec(n):
        nonlocal ok
        i = len(nodes)
        t = KT.get(type(n).__name__, 'leaf')
        rec_ = {'t': t, 'kids': [], 'nb': int(n.num_channels or 0), 'w': int(n.dsize[0]), 'h': int(n.dsize[1]),
                'M': [1, 0, 0, 0, 1, 0, 1], 'x0': 0, 'y0': 0, 'idx': [], 'hasidx': False, 'p': params(n), 'leaf': -1}
        nodes.append(rec_)
        if t == 'crop':
            sl = n.meta.get('space_slice')
            (sub,) = kids(n)
            if sl is not None:
                W, H = sub.dsize
                rec_['y0'] = slice_start(sl[0], H)
                rec_['x0'] = slice_start(sl[1], W)
            ci = n.meta.get('chan_idxs')
            if ci is not None:
                rec_['hasidx'] = True
                if isinstance(ci, slice):
                    ci = list(range(*ci.indices(sub.num_channels)))
                rec_['idx'] = [int(c) for c in ci]
        elif t == 'warp':
            r = rational(mat(n.meta.get('transform')))
            if r is None:
                ok = False
            else:
                rec_['M'] = r
        elif t == 'ov':
            rec_['M'] = [1, 0, 0, 0, 1, 0, 2 ** int(n.meta['overview'])]
        ks = kids(n)
        if not ks and t == 'leaf':
            rec_['leaf'] = pool.leafkey.get(leaf_key(n), -1)
        for k in ks:
            j = rec(k)
            rec_['kids'].append(j + 1)
        return i
    rec(root)
    # accumulated geometry must stay small for the model's 32 bit integers
    def acc(i, m):
        nd = nodes[i]
        a = nd['M']
        f = [[Fraction(a[0], a[6]), Fraction(a[1], a[6]), Fraction(a[2], a[6])],
             [Fraction(a[3], a[6]), Fraction(a[4], a[6]), Fraction(a[5], a[6])]]
        if nd['t'] == 'crop':
            f = [[1, 0, Fraction(-nd['x0'])], [0, 1, Fraction(-nd['y0'])]]
        p = [[m[r][0] * f[0][c] + m[r][1] * f[1][c] + (m[r][2] if c == 2 else 0) for c in range(3)] for r in range(2)]
        q = 1
        for r in p:
            for v in r:
                v = Fraction(v)
                q = q * v.denominator // math.gcd(q, v.denominator)
        big = max(abs(int(v * q)) for r in p for v in r)
        if big * 8000 > 2 ** 31 or q * 8000 > 2 ** 31 or big * q > 2 ** 30:
            return False
        return all(acc(k - 1, p) for k in nd['kids'])
    if ok:
        ok = acc(0, [[Fraction(1), Fraction(0), Fraction(0)], [Fraction(0), Fraction(1), Fraction(0)]])
    return nodes, ok


def slice_start(s, n):
    return s.indices(int(n))[0]


# ----------------------------------------------------------------- evaluate
def enc_val(v, masked):
    if masked:
        return -2
    v = float(v)
    if math.isnan(v):
        return -1
    if not math.isfinite(v):
        return -3
    r = round(v * 256)
    if -8 <= r < 0:
        r = 0
    return int(max(-2 ** 30, min(2 ** 30, r)))


def digest_array(a):
    if hasattr(a, 'values') and hasattr(a, 'dims'):
        a = a.values
    parts = [str(a.dtype).encode(), repr(a.shape).encode()]
    if isinstance(a, np.ma.MaskedArray):
        parts.append(np.ascontiguousarray(np.ma.getmaskarray(a)).tobytes())
        a = a.filled(0)
    a = np.ascontiguousarray(a)
    if a.dtype.kind == 'f':
        # one canonical nan
        a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
    parts.append(a.tobytes())
    return md(b'|'.join(parts))


def as3(a):
    if hasattr(a, 'values') and hasattr(a, 'dims'):
        a = a.values
    if a.ndim == 2:
        a = a[:, :, None]
    return a


def pick_pixels(h, w, rng):
    if h <= 0 or w <= 0:
        return []
    pts = [(0, 0), (w - 1, h - 1), (w // 2, h // 2),
           (0, h // 2), (w - 1, h // 2), (w // 2, 0), (w // 2, h - 1)]
    for fy in (1, 3, 5):
        for fx in (1, 3, 5):
            if (fx, fy) != (3, 3):
                pts.append((min(w - 1, w * fx // 6), min(h - 1, h * fy // 6)))
    for _ in range(4):
        pts.append((rng.randrange(w), rng.randrange(h)))
    return list(dict.fromkeys(pts))


# --------------------------------------------------------------- operations
def written(names, form):
    """the names as text (plain or with ranges) or as a spec"""
    from delayed_image.channel_spec import ChannelSpec, FusedChannelSpec
    s = '|'.join(names)
    if form == 'codes':
        return s
    f = FusedChannelSpec.coerce(s)
    return f if form == 'fused' else ChannelSpec.coerce(s) if form == 'spec' else f.concise().spec


def sl(a, b):
    return slice(None if a == NONE else a, None if b == NONE else b)


QUANT = {'u16': (65520, 4095), 'u16file': (65520, 4095), 'i16': (32752, 2047)}


def quantization(kind):
    qm, om = QUANT[kind]
    return {'orig_dtype': 'float32', 'orig_min': 0, 'orig_max': om, 'quant_min': 0, 'quant_max': qm, 'nodata': 0}


def affine_of(M):
    import kwimage
    q = M[6]
    return kwimage.Affine(np.array([[M[0] / q, M[1] / q, M[2] / q], [M[3] / q, M[4] / q, M[5] / q], [0, 0, 1.0]]))


def warp_kwargs(e):
    b = e['border']
    interp = e['interp']
    if (e['M'][2] + e['M'][5]) % 5 == 2:        # interpolation may also be a cv2 code
        interp = CV2_CODE.get(interp, interp)
    return {'interpolation': interp, 'antialias': e['aa'], 'border_value': b if b == 'auto' else int(b),
            'noop_eps': EPS1 if e['eps'] else 0, 'backend': e['backend']}


def apply(pool, e, uid, lazy=None, qkind='u16'):
    """returns (view, extra)"""
    import delayed_image as di
    op = e['op']
    V = pool.views
    lz = e.get('lz', False) if lazy is None else lazy
    if op == 'leaf':
        return pool.leaf(e, uid), None
    if op == 'cat':
        return di.DelayedChannelConcat([V[h - 1] for h in e['hs']]), None
    v = V[e['h'] - 1]
    if op == 'crop':
        if e.get('item') and not lz:
            t = (sl(e['y0'], e['y1']), sl(e['x0'], e['x1']))
            return v[t + (list(e['raw']),) if e['hasidx'] else t], None
        return v.crop((sl(e['y0'], e['y1']), sl(e['x0'], e['x1'])),
                      list(e['raw']) if e['hasidx'] else None, lazy=lz), None
    if op == 'pcrop':
        t, b, l, r = e['pad']
        pad = t if t == b == l == r else [(t, b), (l, r)]
        return v.crop((sl(e['y0'], e['y1']), sl(e['x0'], e['x1'])), list(e['raw']) if e['hasidx'] else None,
                      clip=False, wrap=False, pad=pad), None
    if op == 'warp':
        kw = warp_kwargs(e)
        M = e['M']
        if e['via'] == 'scale':
            s = (M[0] / M[6], M[4] / M[6])
            return v.scale(s, dsize='auto' if e['auto'] else (e['w1'], e['h1']), **kw), None
        dsize = 'auto' if e['auto'] else (e['w1'], e['h1'])
        if e['via'] == 'uniform':
            return v.scale(M[0] / M[6], dsize=dsize, **kw), None
        if e['via'] == 'matrix':
            return v.warp(np.asarray(affine_of(M)), dsize=dsize, **kw), None
        if e['via'] == 'params':
            return v.warp(dict(affine_of(M).decompose()), dsize=dsize, **kw), None
        if e['via'] == 'none':
            return v.warp(None, dsize=dsize, lazy=lz, **kw), None
        if e['via'] == 'resize':
            return v.resize((e['w1'], e['h1']), **kw), None
        return v.warp(affine_of(M), dsize='auto' if e['auto'] else (e['w1'], e['h1']), lazy=lz, **kw), None
    if op == 'ov':
        return v.get_overview(e['lvl']), None
    if op == 'deq':
        return v.dequantize(quantization(qkind)), None
    if op == 'xr':
        return v.as_xarray(), None
    if op == 'opt':
        return v.optimize(), None
    if op == 'eval':
        r = v.evaluate()
        if getattr(r, 'data', None) is not None:
            pool.keep.append(r.data)
            pool.leafkey[('d', id(r.data))] = len(V) + 1
        return r, None
    if op == 'take':
        kw = {'missing_channel_policy': e['pol']}
        if not isinstance(v, di.DelayedChannelConcat):
            kw['lazy'] = lz
        elif lz:
            return None, 'skip'
        if e['by'] == 'name':
            return v.take_channels(written(e['names'], e['form']), **kw), None
        if e['sl']:
            return v.take_channels(slice(*[None if x == NONE else x for x in e['sl']]), **kw), None
        return v.take_channels(list(e['raw']), **kw), None
    if op == 'undo':
        keep = set(e['keep'])
        allc = {'offset', 'scale', 'shearx', 'theta'}
        kw = {'remove': sorted(allc - keep)} if e['api'] == 'remove' else {'retain': sorted(keep)}
        if e['api'] == 'default' and not keep:
            kw = {}
        sq = bool(e['squash'])
        if e['part']:
            rs, ts = v.undo_warps(squash_nans=sq, return_warps=True, **kw)
            plain = v.undo_warps(squash_nans=sq, **kw)
            i = e['part'] - 1
            if len(plain) != len(rs) or describe(plain[i]) != describe(rs[i]):
                raise AssertionError('undo_warps differs with return_warps')
            pool.nparts = len(rs)
            return rs[i], ts[i]
        r, t = v.undo_warp(squash_nans=sq, return_warp=True, **kw)
        return r, t
    raise KeyError(op)


def tf_of(v):
    try:
        return six(mat(v.get_transform_from_leaf()))
    except AttributeError:
        return []


def view_obs(pools, new, e, uid, qkind):
    p = pools[0]
    v = new[0]
    names = chan_names(v)
    o = {'err': '', 'w': int(v.dsize[0]), 'h': int(v.dsize[1]), 'nb': int(v.num_channels),
         'named': names is not None, 'nm': names or [], 'tf': tf_of(v), 'same': 0, 'eqnl': True, 'uw': []}
    h = 0 if e['op'] in {'leaf', 'cat'} else e['h']
    if h and v is p.views[h - 1]:
        o['same'] = h
    if e.get('lz'):
        ref, _ = apply(p, e, uid, lazy=False, qkind=qkind)
        same = (tuple(ref.dsize) == tuple(v.dsize) and ref.num_channels == v.num_channels
                and chan_names(ref) == names and tf_of(ref) == o['tf'])
        if v is not p.views[h - 1] or not same:
            same = same and describe(ref) == describe(v)
        o['eqnl'] = bool(same)
    return o


def same_view(pool, v, twin, t):
    return describe(v, lambda n: pool.leafkey.get(leaf_key(n))) == describe(t, lambda n: twin.leafkey.get(leaf_key(n)))


def intro_obs(pool, v):
    nodes, par = [], []

    def rec(n, p):
        i = len(nodes)
        nodes.append(n)
        par.append(p)
        for k in kids(n):
            rec(k, i)
    rec(v, -1)
    walk = [type(n).__name__ for n in nodes]
    keys = ['dsize', 'space_slice', 'chan_idxs', 'overview', 'interpolation', 'border_value', 'antialias', 'quantization']

    def tok(meta, tf):
        d = {k: repr(meta.get(k)) for k in keys if meta.get(k) is not None}
        return d, tf

    def real(n):
        c = n.meta.get('channels')
        return ({k: repr(n.meta[k]) for k in keys if n.meta.get(k) is not None},
                None if n.meta.get('transform') is None else mat(n.meta['transform']),
                None if c is None else [str(x) for x in c.as_list()])

    def close(a, b):
        if a[0] != b[0] or a[2] != b[2]:
            return False
        if (a[1] is None) != (b[1] is None):
            return False
        return a[1] is None or np.allclose(a[1], b[1], atol=1e-5)
    wreal = [real(n) for n in nodes]
    # nesting
    ntypes, npar, nreal = [], [], []

    def nrec(item, p):
        import delayed_image as di
        i = len(ntypes)
        ntypes.append(item['type'])
        npar.append(p)
        m = item['meta']
        c = m.get('channels')
        if isinstance(c, str):
            c = [str(x) for x in di.FusedChannelSpec.coerce(c).as_list()]
        elif c is not None:
            c = [str(x) for x in c.as_list()]
        nreal.append(({k: repr(m[k]) for k in keys if m.get(k) is not None},
                      None if m.get('transform') is None else mat(m['transform']), c))
        for k in item.get('children', []):
            if k is not None and 'meta' in k:
                nrec(k, i)
    nrec(v.nesting(), -1)
    wmeta = [str(i) for i in range(len(wreal))]
    nmeta = [str(i) if i < len(wreal) and close(wreal[i], r) else f'!{i}' for i, r in enumerate(nreal)]
    # graph
    g = v.as_graph(fields='all')
    roots = [n for n in g.nodes if g.in_degree(n) == 0]
    gtypes, gpar, labels = [], [], True
    greal = []
    gmetas = []

    def shown(d):
        import kwimage
        m = d['meta']
        c = m.get('channels')
        t = m.get('transform')
        if c is not None:
            import delayed_image as di
            c = [str(x) for x in di.FusedChannelSpec.coerce(c).as_list()]
        if t is not None:
            t = mat(kwimage.Affine.affine(**t) if isinstance(t, dict) else t)
        return ({k: repr(m[k]) for k in keys if m.get(k) is not None}, t, c)

    def grec(n, p):
        nonlocal labels
        i = len(gtypes)
        d = g.nodes[n]
        gtypes.append(d['type'])
        gpar.append(p)
        greal.append(d['obj'])
        gmetas.append(shown(d))
        labels = labels and str(d['label']).startswith(d['type'].replace('Delayed', ''))
        for k in g.successors(n):
            grec(k, i)
    for r in roots:
        grec(r, -1)
    labels = labels and len(greal) == len(nodes) and all(a is b for a, b in zip(greal, nodes))

    def loose(a, b):
        return a[0] == b[0] and a[2] == b[2] and (a[1] is None) == (b[1] is None) and (
            a[1] is None or np.allclose(a[1], b[1], atol=1e-3, rtol=1e-4))
    gmeta = [str(i) if i < len(wreal) and loose(wreal[i], r) else f'!{i}' for i, r in enumerate(gmetas)]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        v.write_network_text(rich=False, vertical_chains=False, fields='all')
    lines = [x for x in buf.getvalue().split('\n') if x.strip()]
    for n, ln in zip(nodes, lines):
        labels = labels and type(n).__name__.replace('Delayed', '') in ln
    with contextlib.redirect_stdout(buf):
        v.print_graph(fields='auto')
    leafs = [pool.leafkey.get(leaf_key(x), 0) for x in v.leafs()]
    # nans sources have no payload: identify them by the object
    for i, x in enumerate(v.leafs()):
        if leafs[i] == 0:
            for h, y in enumerate(pool.views):
                if x is y:
                    leafs[i] = h + 1
                    break
    return {'err': '', 'walk': walk, 'nest': ntypes, 'graph': gtypes, 'wpar': par, 'gpar': gpar, 'npar': npar,
            'wmeta': wmeta, 'nmeta': nmeta, 'gmeta': gmeta, 'text': len(lines), 'labels': bool(labels), 'leafs': leafs}


VIEWS = {'leaf', 'crop', 'pcrop', 'warp', 'ov', 'deq', 'take', 'cat', 'xr', 'opt', 'eval', 'undo'}


def run_program(pid, prog, scratch):
    rng = random.Random(f'{pid}-{os.environ.get("VERIF_SEED", "1")}')
    pools = [Pool(0, scratch), Pool(1, scratch)]
    knows = [e.get('know', 'prep') for e in prog if e['op'] == 'leaf' and e['ty'] in {'file', 'u16file'}]
    twin = Pool(0, scratch, plain=True) if any(k != 'prep' for k in knows) else None
    uid = 0
    anyopt = []
    ctx = None
    kinds = []      # quantization family of each view
    evs = []

    def frame():
        return [describe(v) if v is not None else '-' for v in pools[0].views]
    for e in prog:
        op = e['op']
        try:
            if op in VIEWS:
                hs = e['hs'] if op == 'cat' else [e['h']] if op != 'leaf' else []
                qk = 'u16' if op == 'leaf' else kinds[hs[0] - 1]
                new = []
                ext = None
                for p in pools:
                    r, x = apply(p, e, uid, qkind=qk)
                    ext = x if p is pools[0] else ext
                    if x == 'skip':
                        e = dict(e, lz=False)
                        r, x = apply(p, e, uid, qkind=qk)
                    new.append(r)
                if any(r is None for r in new):
                    raise TypeError('no view returned')
                o = view_obs(pools, new, e, uid, qk)
                if op == 'undo' and ext is not None and ext != 'skip':
                    o['uw'] = six(mat(ext))
                    o['np'] = getattr(pools[0], 'nparts', 0)
                if op == 'opt':
                    g, ok = graph_of(new[0], pools[0])
                    o['g'] = g
                    o['gok'] = ok
                    d1 = describe(new[0])
                    o['idem'] = describe(new[0].optimize()) == d1
                    o['rep'] = describe(pools[0].views[e['h'] - 1].optimize()) == d1
                    # everything optimized together so far
                    if ctx is None or 'noov' in knows:
                        from delayed_image.delayed_base import OptimizeContext
                        ctx = OptimizeContext()
                    o['ctx'] = describe(pools[0].views[e['h'] - 1].optimize(ctx)) == d1
                if twin is not None:
                    t, x = apply(twin, e, uid, qkind=qk)
                    o['tw'] = same_view(pools[0], new[0], twin, t) or (
                        # what is not known cannot be used
                        'noov' in knows and (op in {'opt', 'undo', 'eval'} or any(anyopt[h - 1] for h in hs)))
                    twin.views.append(t)
                for p, r in zip(pools, new):
                    p.views.append(r)
                anyopt.append(op in {'opt', 'undo', 'eval'} or any(anyopt[h - 1] for h in hs))
                kinds.append(e['ty'] if op == 'leaf' and e['ty'] in QUANT else qk)
                if op == 'leaf' and e['ty'] not in {'nans', 'nodata'}:
                    uid += e['nb']
            elif op == 'fin':
                # preparing files again at evaluation must not matter once they are
                prep = bool(rng.random() < .7 or any(k != 'prep' for k in knows))
                res = [p.views[e['h'] - 1].finalize(optimize=e['opt'], prepare=prep) for p in pools]
                labels = []
                if hasattr(res[0], 'coords') and hasattr(res[0], 'dims'):
                    if 'c' in res[0].coords:
                        labels = [str(x) for x in res[0].coords['c'].values]
                shape = [int(x) for x in res[0].shape]
                arr = [as3(a) for a in res]
                if arr[0].shape != arr[1].shape:
                    raise ValueError('shape depends on content')
                pix = []
                masks = [np.ma.getmaskarray(a) if isinstance(a, np.ma.MaskedArray) else None for a in arr]
                for x, y in pick_pixels(arr[0].shape[0], arr[0].shape[1], rng):
                    vals = []
                    for b in range(arr[0].shape[2]):
                        pair = []
                        for a, m in zip(arr, masks):
                            pair.append(enc_val(a[y, x, b] if m is None or not m[y, x, b] else 0,
                                                m is not None and m[y, x, b]))
                        vals.append(pair)
                    pix.append([x, y, vals])
                o = {'err': '', 'shape': shape, 'pix': pix, 'dig': digest_array(res[0]) + digest_array(res[1]),
                     'dt': str(res[0].dtype), 'labels': labels, 'anyopt': anyopt[e['h'] - 1]}
                if twin is not None and not ('noov' in knows and (anyopt[e['h'] - 1] or not e['opt'])):
                    t = twin.views[e['h'] - 1].finalize(optimize=e['opt'])
                    o['tw'] = digest_array(t) == digest_array(res[0])
            elif op == 'setp':
                kw = {}
                if e['interp'] != 'keep':
                    kw['interpolation'] = e['interp']
                if e['aa'] != 'keep':
                    kw['antialias'] = e['aa'] == 'yes'
                if e['border'] != 'keep':
                    kw['border_value'] = e['border'] if e['border'] == 'auto' else int(e['border'])
                res = [p.views[e['h'] - 1].finalize(optimize=e['opt'], **kw) for p in pools]
                again = [p.views[e['h'] - 1].finalize(optimize=e['opt']) for p in pools]
                o = {'err': '', 'shape': [int(x) for x in res[0].shape],
                     'kept': all(digest_array(x) == digest_array(y) for x, y in zip(res, again))}
            elif op == 'tfrom':
                a, b = pools[0].views[e['a'] - 1], pools[0].views[e['b'] - 1]
                o = {'err': '', 'tf': six(mat(b.get_transform_from(a)))}
            elif op == 'intro':
                o = intro_obs(pools[0], pools[0].views[e['h'] - 1])
            else:
                raise KeyError(op)
            o.setdefault('tw', True)
            o['fr'] = frame()
            evs.append({'e': e, 'o': o})
        except Timeout:
            evs.append({'e': e, 'o': {'err': 'timeout'}})
            break
        except Exception as ex:
            evs.append({'e': e, 'o': {'err': f'{type(ex).__name__}: {str(ex)[:200]}'}})
            if os.environ.get('TB'):
                import traceback
                traceback.print_exc()
            if op in {'tfrom', 'intro', 'fin', 'setp'}:
                continue
            break
    return {'id': pid, 'ev': evs}


def main():
    progs, out, scratch = sys.argv[1:4]
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 30
    signal.signal(signal.SIGALRM, _alarm)
    import cv2
    cv2.setNumThreads(1)
    slow = 0
    with open(progs) as f, open(out, 'w') as g:
        for line in f:
            rec = json.loads(line)
            signal.alarm(limit)
            try:
                tr = run_program(rec['id'], rec['prog'], scratch)
            finally:
                signal.alarm(0)
            g.write(json.dumps(tr) + '\n')
            g.flush()
            slow += tr['ev'][-1]['o']['err'] == 'timeout'
            if slow >= 2:
                sys.exit(3)


if __name__ == '__main__':
    main()
