"""Performs generated histories of channel-spec operations on the real library.

usage: cworker.py PROGRAMS TRACES SCRATCH LIMIT

Every program is performed twice: in this process, after all earlier programs,
and in a process forked from one that has performed nothing yet (the zygote).
The first run is what the trace records; `fresh` tells whether the second one
observed the same.  Within a run every operation is performed twice (`rep`).
"""
import copy
import json
import os
import pickle
import signal
import struct
import sys
import warnings

sys.path.insert(0, os.environ.get('REPO', '/repo'))
warnings.filterwarnings('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np  # noqa: E402
import delayed_image as di  # noqa: E402
from delayed_image import sensorchan_spec as ss  # noqa: E402
from delayed_image import channel_spec as cs  # noqa: E402
import kwarray  # noqa: E402,F401
import lark  # noqa: E402,F401

FC, MC, SC = cs.FusedChannelSpec, cs.ChannelSpec, ss.SensorChanSpec


class Quiet:
    """the library prints the text it fails to parse"""
    def write(self, *a):
        pass

    def flush(self):
        pass


def kind(v):
    return 'f' if isinstance(v, FC) else 'm' if isinstance(v, MC) else 's' if isinstance(v, SC) else 'other'


def pairs(v):
    return [[s.sensor.spec, list(s.chans.parsed)] for s in v.streams()]


def observe(v):
    k = kind(v)
    o = {'t': k, 'spec': '', 'sts': [], 'ps': [], 'n': 0}
    o['spec'] = str(v.spec)
    if k == 'f':
        o['sts'] = [list(v.parsed)]
    elif k == 'm':
        o['sts'] = [list(s.parsed) for s in v.streams()] if v.spec else []
        o['n'] = len(v.streams())
    elif k == 's':
        o['ps'] = pairs(v)
    return o


def digest(v):
    """what is visible of a spec without asking it to compute anything new"""
    k = kind(v)
    if k == 'f':
        return '|'.join(v.parsed)
    if k == 'm':
        return v.spec
    return v.spec


def operand(e, pool):
    h = e['how']
    if h in ('view', 'op', 'sum'):
        return pool[e['g'] - 1]
    if h == 'str':
        return '|'.join(e['tb'])
    if h == 'set':
        return set(e['tb'])
    return list(e['tb'])


def sl(x):
    return None if x == 9999 else x


def make(e, pool):
    op, how = e['op'], e['how']
    V = pool[e['h'] - 1] if pool else None
    if op in ('f', 'fint', 'm', 'mint', 's'):
        cls = {'f': FC, 'm': MC, 's': SC}[op[0]]
        if op in ('fint', 'mint'):
            return cls.coerce(int(e['n'])), None
        if how == 'list':
            arg = list(e['tb'])
            return cls.coerce(arg), None
        f = {'coerce': cls.coerce, 'parse': getattr(cls, 'parse', None), 'from_spec': cls.from_spec, 'init': cls}[how]
        return f(e['txt']), None
    if op == 'norm':
        return V.normalize(), None
    if op == 'concise':
        return V.concise(), None
    if op in ('union', 'inter', 'diff'):
        W = operand(e, pool)
        if how == 'op':
            return (V | W if op == 'union' else V & W if op == 'inter' else V - W), None
        return {'union': V.union, 'inter': V.intersection, 'diff': V.difference}[op](W), None
    if op == 'concat':
        return FC.concat([pool[i - 1] for i in e['hs']]), None
    if op == 'slice':
        return V[sl(e['a']):sl(e['b']):sl(e['n'])], None
    if op == 'take':
        return V[list(e['idx'])], None
    if op == 'late':
        if kind(V) == 's':
            Ws = [pool[i - 1] for i in e['hs']]
            if how == 'op':
                return V + Ws[0], None
            if how == 'sum':
                return sum([V] + Ws), None
            return V.late_fuse(*Ws), None
        W = operand(e, pool)
        if how == 'op':
            return V + W, None
        if how == 'sum':
            return sum([V, W]), None
        return V.late_fuse(W), None
    if op == 'fuse':
        return V.fuse(), None
    if op == 'split':
        return V.split(), None
    if op == 'stream':
        return V.streams()[e['i'] - 1], None
    if op == 'tof':
        return FC.coerce(V), None
    if op == 'tom':
        return MC.coerce(V), None
    if op == 'tos':
        return SC.coerce(V), None
    if op == 'match':
        return V.matching_sensor(e['s']), None
    if op == 'chans':
        return V.chans, None
    if op == 'pickle':
        return pickle.loads(pickle.dumps(V)), None
    if op == 'badcoerce':
        x = {'float': float(e['n']), 'none': None, 'object': object()}[e['s']]
        r = (FC if how == 'f' else MC).coerce(x)
        return None, {'r': kind(r)}
    if op == 'q':
        return None, query(e, V, pool)
    if op == 'enc':
        return None, encode(e, V)
    raise KeyError(op)


def query(e, V, pool):
    q = {'norm': '', 'conc': '', 'numel': -1, 'sizes': [], 'list': [], 'uniq': [], 'comp': [], 'items': [], 'has': [],
         'keys': [], 'sub': -1, 'sup': -1, 'len': -1, 'eq': -1, 'nn': '', 'cc': '', 'nc': '', 'cn': '', 'cps': [],
         'ncps': [], 'path': '', 'reparse': -1, 'set': [], 'oset': [], 'vals': [], 'nsizes': -1}
    k = kind(V)
    q['norm'] = V.normalize().spec
    q['conc'] = V.concise().spec
    q['numel'] = int(V.numel())
    q['nn'] = V.normalize().normalize().spec
    q['cc'] = V.concise().concise().spec
    q['nc'] = V.concise().normalize().spec
    q['cn'] = V.normalize().concise().spec
    if k == 's':
        q['cps'] = pairs(V.concise())
        q['ncps'] = pairs(V.concise().normalize())
        q['reparse'] = int(pairs(SC.from_spec(V.spec)) == pairs(V))
        return q
    q['path'] = V.path_sanitize(None) if len(V.spec) > 100 else V.path_sanitize()
    q['reparse'] = int(V.__class__.from_spec(V.spec).normalize().spec == V.normalize().spec)
    if k == 'f':
        q['sizes'] = [['', int(n)] for n in V.sizes()]
        q['list'] = list(V.as_list())
        q['set'] = sorted(V.as_set())
        q['oset'] = list(V.as_oset())
        q['uniq'] = sorted(V.unique())
        q['comp'] = sorted([c, '', s[-1].start, s[-1].stop] for c, s in V.component_indices().items())
        q['items'] = [V[i] for i in e['idx']]
        W = pool[e['g'] - 1]
        q['sub'] = int(V.issubset(W))
        q['sup'] = int(V.issuperset(W))
        q['len'] = len(V.normalize())
        q['eq'] = int(V == W)
        q['keys'] = [s.spec for s in V.streams()]
        q['vals'] = list(V.code_list())
    else:
        q['sizes'] = [[kk, int(n)] for kk, n in V.sizes().items()]
        q['uniq'] = sorted(V.unique())
        q['comp'] = sorted([c, kk, s[-1].start, s[-1].stop] for c, (kk, s) in V.component_indices().items())
        q['keys'] = list(V.keys()) if V.spec else []
        q['vals'] = [v.spec for v in V.values()]
    q['has'] = [int(b in V) for b in e['tb']]
    return q


def ids_of(x, axis):
    x = np.asarray(x)
    if x.ndim != 2:
        return [-9]
    if axis == 1:
        x = x.T
    return [int(r[0]) if (r == r[0]).all() else -8 for r in x]


def encode(e, V):
    item, base = {}, 0
    axis = e['axis']
    for key, n in zip(e['tb'], e['idx']):
        a = np.arange(base + 1, base + n + 1, dtype=float)[:, None] * np.ones((1, 3))
        item[key] = a if axis == 0 else a.T
        base += n
    enc = V.encode(item, axis=axis, mode=e['mode'])
    dec = V.decode(enc, axis=axis)
    return {'enc': sorted([k, ids_of(v, axis)] for k, v in enc.items()),
            'dec': sorted([k, ids_of(v, axis)] for k, v in dec.items())}


def perform(prog):
    pool, ev = [], []
    for e in prog:
        o = {'err': '', 'v': {'t': '', 'spec': '', 'sts': [], 'ps': [], 'n': 0}, 'q': {}, 'fr': [], 'rep': 1, 'fresh': 1}
        out = []
        for rep in range(2):
            try:
                v, q = make(copy.deepcopy(e), pool)
                if v is not None and kind(v) == 'other':
                    out.append({'err': 'TypeOf ' + type(v).__name__})
                else:
                    out.append({'err': '', 'v': observe(v) if v is not None else o['v'], 'q': q or {}, 'obj': v})
            except Exception as ex:
                out.append({'err': type(ex).__name__})
        first = out[0]
        objs = [x.pop('obj', None) for x in out]
        o['rep'] = int(out[0] == out[1])
        o['err'] = first['err']
        if not first['err']:
            o['v'], o['q'] = first['v'], first['q']
            if objs[0] is not None and e['keep']:
                pool.append(objs[0])
        o['fr'] = [digest(v) for v in pool]
        ev.append({'e': e, 'o': o})
        if first['err'] and e['keep']:
            break          # handles would no longer line up
    return ev


def zygote(rfd, wfd):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    with os.fdopen(rfd, 'rb') as r, os.fdopen(wfd, 'wb') as w:
        while True:
            h = r.read(4)
            if len(h) < 4:
                os._exit(0)
            data = r.read(struct.unpack('I', h)[0])
            a, b = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(a)
                signal.alarm(30)
                try:
                    res = json.dumps(perform(json.loads(data))).encode()
                except Exception as ex:
                    res = json.dumps({'err': repr(ex)}).encode()
                with os.fdopen(b, 'wb') as f:
                    f.write(res)
                os._exit(0)
            os.close(b)
            with os.fdopen(a, 'rb') as f:
                res = f.read()
            os.waitpid(pid, 0)
            w.write(struct.pack('I', len(res)) + res)
            w.flush()


def main():
    prog, out, scratch, limit = sys.argv[1:5]
    sys.stdout = Quiet()
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        zygote(a, d)
        os._exit(0)
    os.close(a)
    os.close(d)
    zw, zr = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')
    with open(prog) as f, open(out, 'w') as g:
        for line in f:
            p = json.loads(line)
            signal.alarm(int(limit))
            ev = perform(p['prog'])
            data = json.dumps(p['prog']).encode()
            zw.write(struct.pack('I', len(data)) + data)
            zw.flush()
            n = struct.unpack('I', zr.read(4))[0]
            fresh = json.loads(zr.read(n) or b'[]')
            signal.alarm(0)
            for i, x in enumerate(ev):
                if not isinstance(fresh, list) or i >= len(fresh) or fresh[i]['o'] != dict(x['o']):
                    x['o']['fresh'] = 0
            g.write(json.dumps({'id': p['id'], 'n': len(p['prog']), 'ev': ev}) + '\n')
            g.flush()
    zw.close()


main()
