"""Reads a DOT source: nodes with attributes, edges with attributes; texts as graphviz would show them."""
import re

TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<arrow>->|--)|(?P<sym>[{}\[\];,=:])|(?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))(?![A-Za-z_])|(?P<id>[A-Za-z_\x80-\uffff][A-Za-z0-9_\x80-\uffff]*)|(?P<q>"(?:\\.|[^"\\])*")|(?P<html><)''', re.S)


class Text(str):
    """Attribute value; html tells whether it is an HTML-like one."""
    html = False


def tokens(src):
    i, out = 0, []
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise ValueError('not a DOT source at %r' % src[i:i + 30])
        if m.group('html'):
            d, j = 0, i
            while True:
                d += {'<': 1, '>': -1}.get(src[j], 0)
                j += 1
                if d == 0:
                    break
            t = Text(src[i + 1:j - 1])
            t.html = True
            out.append(('val', t))
            i = j
            continue
        i = m.end()
        if m.group('arrow') or m.group('sym'):
            out.append(('sym', m.group(0)))
        elif m.group('q'):
            # the scanner of DOT only undoes \" (and joins lines after a backslash); other escapes are left to the label
            out.append(('val', Text(re.sub(r'\\\n', '', m.group('q')[1:-1]).replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\\\'))))
        elif m.group('num') or m.group('id'):
            out.append(('id', Text(m.group(0))))
    return out


def parse(src):
    """-> (nodes: {id: attrs}, edges: [(from, to, attrs)], graph attrs)"""
    ts = tokens(src)
    p = 0

    def peek(k=0):
        return ts[p + k] if p + k < len(ts) else ('end', '')

    def take(v=None):
        nonlocal p
        t = ts[p]
        if v is not None and t != ('sym', v):
            raise ValueError('expected %r, got %r' % (v, t))
        p += 1
        return t[1]

    def ident():
        if peek()[0] not in ('id', 'val'):
            raise ValueError('expected an identifier, got %r' % (peek(),))
        return take()

    def attrs():
        a = {}
        while peek() == ('sym', '['):
            take('[')
            while peek() != ('sym', ']'):
                k = ident()
                v = Text('true')
                if peek() == ('sym', '='):
                    take('=')
                    v = ident()
                a[str(k)] = v
                if peek() in (('sym', ','), ('sym', ';')):
                    take()
            take(']')
        return a
    if str(peek()[1]).lower() == 'strict':
        raise ValueError('a strict graph merges edges')
    if str(take()).lower() != 'digraph':
        raise ValueError('not a directed graph')
    if peek() != ('sym', '{'):
        ident()
    take('{')
    nodes, edges, g, nd, ed = {}, [], {}, {}, {}

    def node(n, a):
        if n not in nodes:
            nodes[n] = dict(nd)
        nodes[n].update(a)
    while peek() != ('sym', '}'):
        if peek() == ('sym', ';'):
            take()
            continue
        kind, w = peek()
        if kind == 'id' and str(w).lower() == 'subgraph' or (kind, w) == ('sym', '{'):
            raise ValueError('subgraph')
        if kind == 'id' and str(w).lower() in ('graph', 'node', 'edge'):
            take()
            {'graph': g, 'node': nd, 'edge': ed}[str(w).lower()].update(attrs())
            continue
        ids = [str(ident())]
        if peek() == ('sym', '='):
            take('=')
            g[ids[0]] = ident()
            continue

        def port():
            while peek() == ('sym', ':'):
                take(':')
                ident()
        port()
        while peek() == ('sym', '->'):
            take('->')
            ids.append(str(ident()))
            port()
        a = attrs()
        if len(ids) == 1:
            node(ids[0], a)
        for x, y in zip(ids, ids[1:]):
            node(x, {})
            node(y, {})
            edges.append((x, y, dict(ed, **a)))
    take('}')
    return nodes, edges, g


def shown(a, name, default):
    """The text graphviz shows for the label of node (or edge) `name`; None for HTML-like labels."""
    lab = a.get('label')
    if lab is None:
        return default
    if getattr(lab, 'html', False):
        return None

    def esc(m):
        c = m.group(1)
        return {'n': '\n', 'l': '\n', 'r': '\n', 'N': name, 'E': name, 'G': '<graph>', 'L': '<label>', 'T': '<tail>', 'H': '<head>'}.get(c, c)
    return re.sub(r'\\(.)', esc, str(lab), flags=re.S)
