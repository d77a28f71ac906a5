"""Reader of the DOT language (the subset without subgraphs) and of the text graphviz shows for a label."""
import json
import re
import subprocess

_ID = re.compile(r'[A-Za-z_\u0080-\U0010ffff][\w\u0080-\U0010ffff]*|-?(?:\.\d+|\d+(?:\.\d*)?)')


class Html(str):
    """an html-like label"""


def tokens(src):
    i, n, out = 0, len(src), []
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
        elif src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
        elif src.startswith('/*', i):
            i = src.index('*/', i) + 2
        elif c == '"':
            j, buf = i + 1, []
            while src[j] != '"':
                if src[j] == '\\' and src[j + 1] == '"':
                    buf.append('"')
                    j += 2
                elif src[j] == '\\' and src[j + 1] == '\n':
                    j += 2
                elif src[j] == '\\' and src[j + 1] == '\\':
                    buf.append('\\\\')
                    j += 2
                else:
                    buf.append(src[j])
                    j += 1
            out.append(('id', ''.join(buf)))
            i = j + 1
        elif c == '<':
            depth, j = 1, i + 1
            while depth:
                depth += {'<': 1, '>': -1}.get(src[j], 0)
                j += 1
            out.append(('id', Html(src[i + 1:j - 1])))
            i = j
        elif src.startswith('->', i) or src.startswith('--', i):
            out.append(('op', '->'))
            i += 2
        elif c in '{}[]=,;:':
            out.append(('op', c))
            i += 1
        else:
            m = _ID.match(src, i)
            if not m:
                raise ValueError(f'unexpected {src[i:i + 20]!r} in DOT')
            out.append(('id', m.group(0)))
            i = m.end()
    return out


class Dot:
    def __init__(self):
        self.name = None
        self.nodes = {}   # id -> attributes
        self.edges = []   # (from, to, attributes, has ports)
        self.attrs = {}


def parse(src):
    t = tokens(src)
    g, i = Dot(), 0
    if t[i] == ('id', 'strict'):
        i += 1
    assert t[i][1].lower() == 'digraph', t[:3]
    i += 1
    if t[i][0] == 'id':
        g.name = t[i][1]
        i += 1
    assert t[i] == ('op', '{')
    i += 1

    def attr_list(i):
        attrs = {}
        while t[i] == ('op', '['):
            i += 1
            while t[i] != ('op', ']'):
                k = t[i][1]
                assert t[i + 1] == ('op', '='), t[i:i + 3]
                attrs[k] = t[i + 2][1]
                i += 3
                if t[i] in (('op', ','), ('op', ';')):
                    i += 1
            i += 1
        return attrs, i

    def node_id(i):
        assert t[i][0] == 'id', t[i:i + 3]
        name, ports = t[i][1], False
        i += 1
        while t[i] == ('op', ':'):
            ports = True
            i += 2
        return name, ports, i

    defaults = {'node': {}, 'edge': {}}
    while t[i] != ('op', '}'):
        if t[i] == ('op', ';'):
            i += 1
            continue
        if t[i][1] in ('graph', 'node', 'edge') and t[i + 1] == ('op', '['):
            kind = t[i][1]
            attrs, i = attr_list(i + 1)
            (g.attrs if kind == 'graph' else defaults[kind]).update(attrs)
            continue
        if t[i + 1] == ('op', '='):
            g.attrs[t[i][1]] = t[i + 2][1]
            i += 3
            continue
        name, ports, i = node_id(i)
        chain = [name]
        while t[i] == ('op', '->'):
            name, p, i = node_id(i + 1)
            ports = ports or p
            chain.append(name)
        attrs, i = attr_list(i)
        for x in chain:
            g.nodes.setdefault(x, dict(defaults['node']))
        if len(chain) == 1:
            g.nodes[name].update(attrs)
        else:
            for a, b in zip(chain, chain[1:]):
                g.edges.append((a, b, dict(defaults['edge'], **attrs), ports))
    return g


def shown(label, node=''):
    """text displayed for a label attribute; html-like labels give ('html', content)"""
    if label is None:
        return node
    if isinstance(label, Html):
        return 'html', str(label)
    out, i = [], 0
    while i < len(label):
        c = label[i]
        if c == '\\' and i + 1 < len(label):
            d = label[i + 1]
            out.append({'n': '\n', 'l': '\n', 'r': '\n', 'N': node}.get(d, d))
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def by_graphviz(src, engine='dot'):
    """the same, read by graphviz itself: (nodes {name: label}, edges [(from, to, label)])"""
    j = json.loads(subprocess.run(['dot', '-Tdot_json'], input=src.encode(), stdout=subprocess.PIPE, check=True).stdout.decode())
    return of_json(j)


def of_json(j):
    objs = [o for o in j.get('objects', [])]
    names = {o['_gvid']: o['name'] for o in objs}
    return {o['name']: o for o in objs}, [(names[e['tail']], names[e['head']], e) for e in j.get('edges', [])]
