"""Performs quantizations and dequantizations.  usage: qworker.py PROGRAMS TRACES SCRATCH LIMIT"""
import copy
import json
import os
import sys
import warnings

sys.path.insert(0, os.environ.get('REPO', '/repo'))
warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
from delayed_image.delayed_leafs import DelayedIdentity  # noqa: E402
from delayed_image.helpers import dequantize, quantize_float01  # noqa: E402

DEFAULTS = {'orig_dtype': 'float32', 'orig_min': 0, 'orig_max': 1, 'quant_min': 0, 'nodata': None}


def spec_of(e, drop):
    q = e['q']
    nod = {'none': None, 'int': q['nv'], 'float': float(q['nv']), 'half': q['nv'] + .5, 'nan': float('nan')}[q['nk']]
    d = {'orig_dtype': e['od'] or 'float32', 'orig_min': q['omin'], 'orig_max': q['omax'], 'quant_min': q['qmin'],
         'quant_max': q['qmax'], 'nodata': nod}
    # a key at its default may be left out
    for k, v in DEFAULTS.items():
        if drop and d[k] == v:
            d.pop(k)
    return d


def values(a):
    v, c = [], []
    for x in np.asarray(a, dtype=np.float64).ravel():
        if np.isnan(x):
            v.append([0, 0])
            c.append(1)
        elif np.isinf(x) or abs(x) > 2e9:
            v.append([0, 0])
            c.append(2)
        else:
            i = int(np.floor(x))
            v.append([i, int(round((x - i) * 4096))])
            c.append(0)
    return v, c


def through(e, data, q):
    if e['via'] == 'helper':
        return dequantize(data, q)
    node = DelayedIdentity(data, channels='|'.join(f'c{i}' for i in range(data.shape[2])))
    node = node.dequantize(q)
    if e['via'] == 'crop':
        node = node.crop((slice(1, None), slice(0, data.shape[1] - 1)))
    if e['via'] == 'bands':
        node = node.take_channels(list(range(data.shape[2]))[::-1])
    return node.finalize(optimize=e['via'] != 'node', interpolation='nearest')


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def do(e, n):
    dims = tuple(e['dims'])
    o = {'err': '', 'fr': 1}
    if e['op'] == 'deq':
        data = np.array(e['data'], dtype=np.int64).astype(e['dt']).reshape(dims)
        q = spec_of(e, n % 2)
        d0, q0 = data.copy(), repr(q)
        out = through(e, data, q)
        o['fr'] = int(same(data, d0) and repr(q) == q0)
        o['dt'] = str(out.dtype)
    else:
        x = [np.nan if v == 99999 else np.inf if v == 88888 else -np.inf if v == -88888 else v / 64 for v in e['data']]
        data = np.array(x, dtype=e['od']).reshape(dims)
        d0 = data.copy()
        codes, q = quantize_float01(data, e['q']['omin'], e['q']['omax'], np.dtype(e['dt']).type)
        meta = quantize_float01(None, e['q']['omin'], e['q']['omax'], np.dtype(e['dt']).type)[1]
        o['fr'] = int(same(data, d0) and meta == q)
        c = [int(v) for v in codes.ravel()]
        o['qshape'], o['qdt'] = list(codes.shape), str(codes.dtype)
        o['om'] = [q['orig_min'], q['orig_max']]
        info = np.iinfo(e['dt'])
        o['ncode'] = int(info.min <= q['nodata'] <= info.max and not q['quant_min'] <= q['nodata'] <= q['quant_max'])
        o['codes'] = [1 if q['quant_min'] <= v <= q['quant_max'] else 2 if v == q['nodata'] else 0 for v in c]
        r = {v: i for i, v in enumerate(sorted(set(c)))}
        o['rank'] = [r[v] for v in c]
        k0, q0 = codes.copy(), repr(q)
        out = through(e, codes, q)
        o['fr'] = int(o['fr'] and same(codes, k0) and repr(q) == q0)
    o['shape'] = list(out.shape)
    o['v'], o['cls'] = values(out)
    return o


def main():
    prog, out, scratch, limit = sys.argv[1:5]
    with open(prog) as f, open(out, 'w') as g:
        for line in f:
            p = json.loads(line)
            ev = []
            for i, e in enumerate(p['prog']):
                try:
                    o = do(copy.deepcopy(e), i)
                except Exception as ex:
                    o = {'err': type(ex).__name__}
                ev.append({'e': e, 'o': o})
            g.write(json.dumps({'id': p['id'], 'ev': ev}) + '\n')
            g.flush()


main()
