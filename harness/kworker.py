"""Performs generated histories on the real bounded cache.  usage: kworker.py PROGRAMS TRACES SCRATCH LIMIT"""
import json
import os
import sys
import warnings

sys.path.insert(0, os.environ.get('REPO', '/repo'))
warnings.filterwarnings('ignore')
from delayed_image.lazy_loaders import CacheDict  # noqa: E402


# the numbers of the model stand for other objects: what is stored need not be
# a number, nor true
VALUE, NUMBER = {}, {}


def enc(n):
    if n not in VALUE:
        VALUE[n] = None if n == 3 else [[], {}, set(), [n], bytearray()][n % 5]
        NUMBER[id(VALUE[n])] = n
    return VALUE[n]


def dec(x):
    return NUMBER.get(id(x), -2)


def key(k):
    return (0, '', None, 'two', (3, 'x'), 5)[k]


def unkey(k):
    return [key(i) for i in range(6)].index(k)


def do(c, e):
    op, k, v = e['op'], (key(e['k']) if e['op'] != 'new' else 0), enc(e['v'])
    if op == 'set':
        c[k] = v
    elif op == 'get':
        try:
            return dec(c[k])
        except KeyError:
            return -1
    elif op == 'pop':
        r = c.pop(k, VALUE)
        return -1 if r is VALUE else dec(r)
    elif op == 'del':
        try:
            del c[k]
        except KeyError:
            return -1
    elif op == 'setdefault':
        return dec(c.setdefault(k, v))
    elif op == 'update':
        c.update([(key(a), enc(b)) for a, b in e['kvs']])
    elif op == 'has':
        return int(k in c)
    elif op == 'len':
        return len(c)
    elif op == 'popitem':
        return dec(c.popitem(last=False)[1]) if len(c) else -1
    elif op == 'clear':
        c.clear()
    elif op == 'iter':
        for kk in c:
            pass
        for kk in c.keys():
            kk in c
        list(reversed(c))
    return 0


def main():
    prog, out, scratch, limit = sys.argv[1:5]
    with open(prog) as f, open(out, 'w') as g:
        for line in f:
            p = json.loads(line)
            ev, c = [], None
            for e in p['prog']:
                o = {'err': '', 'r': 0, 'ord': [], 'n': 0}
                try:
                    if e['op'] == 'new':
                        c = CacheDict([(key(a), enc(b)) for a, b in e['kvs']], cache_len=e['k'])
                    else:
                        o['r'] = do(c, e)
                    # (dict.items of the base class: does not look entries up)
                    o['ord'] = [[unkey(k), dec(dict.__getitem__(c, k))] for k in c]
                    o['n'] = len(c)
                except Exception as ex:
                    o['err'] = type(ex).__name__
                ev.append({'e': e, 'o': o})
            g.write(json.dumps({'id': p['id'], 'ev': ev}) + '\n')
            g.flush()


main()
