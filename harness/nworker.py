"""Draws graphs as text.  usage: nworker.py PROGRAMS TRACES SCRATCH LIMIT"""
import contextlib
import io
import json
import os
import sys
import warnings

sys.path.insert(0, os.environ.get('REPO', '/repo'))
warnings.filterwarnings('ignore')
import networkx as nx  # noqa: E402
from delayed_image.util import util_network_text as T  # noqa: E402

UTF = {True: dict(last='└─╼ ', mid='├─╼ ', back=' ╾ ', vert='╽'), False: dict(last='└── ', mid='├── ', back=' ─ ', vert='│')}
ASC = {True: dict(last='L-> ', mid='|-> ', back=' <- ', vert='!'), False: dict(last='L-- ', mid='|-- ', back=' - ', vert='|')}
CONT = {False: {'╎   ': 2, '│   ': 1, '    ': 0}, True: {':   ': 2, '|   ': 1, '    ': 0}}
ROOT = {False: {'╙── ': 1, '╟── ': 0}, True: {'+-- ': 2}}


def build(e):
    g = (nx.DiGraph if e['dir'] else nx.Graph)()
    kind = e['n'] % 2
    nm = {i: (f'n{i}' if kind else i) for i in e['ord']}
    label = {}
    for i in e['ord']:
        at = {}
        if i % 2:
            at['label'] = 0 if i == 1 else f'L{i}'
        if i % 3:
            at['name'] = 0.0 if i == 1 else f'N_{i}.x'
        if i in e['coll']:
            at['collapse'] = True
        g.add_node(nm[i], **at)
        label[i] = {'default': at.get('label', nm[i]), 'attr': at.get('label', nm[i]), 'name': at.get('name', nm[i]),
                    'off': nm[i]}[e['lab']]
    for u, v in e['edges']:
        g.add_edge(nm[u], nm[v])
    return g, nm, {str(v): k for k, v in label.items()}


def draw(e, g, nm, scratch):
    """the lines, and whether every way to get them agrees"""
    wl = {'default': True, 'attr': 'label', 'name': 'name', 'off': False}[e['lab']]
    kw = dict(with_labels=wl, sources=[nm[i] for i in e['rs']] or None, ascii_only=e['ascii'])
    if e['via'] == 'forest':
        kw['with_labels'] = bool(wl)
        text = T.forest_str(g, **kw)
        got = []
        none = T.forest_str(g, write=got.append, **kw)
        return text.split('\n'), int(got == text.split('\n') and none is None)
    kw.update(max_depth=None if e['maxd'] < 0 else e['maxd'], vertical_chains=e['vert'])
    lines = list(T.generate_network_text(g, **kw))
    text = ''.join(x + '\n' for x in lines)
    via = e['via']
    if via == 'gen':
        return lines, int(lines == list(T.generate_network_text(g, **kw)))
    if via == 'callable':
        got = []
        T.write_network_text(g, got.append, end='@', **kw)
        return lines, int(got == [x + '@' for x in lines])
    if via == 'handle':
        f = io.StringIO()
        T.write_network_text(g, f, **kw)
        return lines, int(f.getvalue() == text and not f.closed)
    if via == 'path':
        # (binary file names are opened in text mode by networkx)
        p = os.path.join(scratch, 'g.txt')
        T.write_network_text(g, p, end='\n', **kw)
        return lines, int(open(p).read() == text)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        T.write_network_text(g, end=';', **kw)
    return lines, int(f.getvalue() == ''.join(x + ';' for x in lines))


def tokens(lines, e, ids):
    gl = (ASC if e['ascii'] else UTF)[e['dir']]
    out = []
    pend = False
    for t in lines:
        cont = []
        r = {'ind': 0, 'k': 'vert', 'node': -1, 'oth': [], 'cont': cont, 'rl': 2}
        root = ROOT[e['ascii']].get(t[:4])
        if root is not None:
            r.update(k='root', ind=1, rl=root)
            t = t[4:]
        else:
            while t[:4] in CONT[e['ascii']]:
                cont.append(CONT[e['ascii']][t[:4]])
                t = t[4:]
            if t == gl['vert']:
                pend = True
                continue
            for k in ('last', 'mid'):
                if t.startswith(gl[k]):
                    r['k'] = k
                    t = t[4:]
                    break
            r['ind'] = len(cont) + (r['k'] != 'vert')
            if (r['k'] == 'vert') != pend:
                r['k'] = 'broken'
        pend = False
        t, b, others = t.partition(gl['back'])
        r['node'] = 0 if t == ' ...' else ids.get(t, -1)
        r['oth'] = [ids.get(x, -1) for x in others.split(', ')] if b else []
        out.append(r)
    return out


def do(e, scratch):
    g, nm, ids = build(e)
    back = {v: k for k, v in nm.items()}
    n = e['n']
    o = {'err': '', 'lines': [], 'whole': '', 'out': 1, 'parse': {'err': 'x', 'dir': False, 'nodes': [], 'edges': []}}
    pred = g.pred if e['dir'] else g.adj
    o['succ'] = [[back[v] for v in g.adj[nm[u]]] for u in range(1, n + 1)]
    o['pred'] = [[back[v] for v in pred[nm[u]]] for u in range(1, n + 1)]
    try:
        lines, o['out'] = draw(e, g, nm, scratch)
    except Exception as ex:
        o['err'] = type(ex).__name__
        return o
    empty = '+' if e['ascii'] else '╙'
    if lines in ([empty], [empty + ' ...']):
        o['whole'] = 'empty' if lines == [empty] else '...'
        if lines == [empty]:
            p = T.parse_network_text(lines)
            o['out'] = int(o['out'] and len(p) == 0)
        return o
    o['lines'] = tokens(lines, e, ids)
    if e['maxd'] < 0 and not e['coll']:
        try:
            p = T.parse_network_text(iter(lines) if n % 3 else lines)
            o['parse'] = {'err': '', 'dir': p.is_directed(), 'nodes': [ids.get(x, -1) for x in p.nodes],
                          'edges': [[ids.get(a, -1), ids.get(b, -1)] for a, b in p.edges]}
        except Exception as ex:
            o['parse']['err'] = type(ex).__name__
    return o


def main():
    prog, out, scratch, limit = sys.argv[1:5]
    with open(prog) as f, open(out, 'w') as g:
        for line in f:
            p = json.loads(line)
            ev = [{'e': e, 'o': do(e, scratch)} for e in p['prog']]
            g.write(json.dumps({'id': p['id'], 'ev': ev}) + '\n')
            g.flush()


main()
