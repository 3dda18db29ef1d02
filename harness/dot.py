"""A parser for the DOT language (as documented by Graphviz), independent of any drawing tool."""
import re

ID = re.compile(r'[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)')


class DotError(Exception):
    pass


def tokens(text):
    """[(type, value)]: type is id, html or the punctuation itself. Quoted strings keep \\ sequences other than \\" ."""
    res, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif text.startswith('//', i) or (c == '#' and (i == 0 or text[i - 1] == '\n')):
            j = text.find('\n', i)
            i = n if j < 0 else j
        elif text.startswith('/*', i):
            j = text.find('*/', i + 2)
            if j < 0:
                raise DotError('comment is not closed')
            i = j + 2
        elif c == '"':
            s, i = [], i + 1
            while True:
                if i >= n:
                    raise DotError('string is not closed')
                c = text[i]
                if c == '"':
                    i += 1
                    break
                if c == '\\' and i + 1 < n:
                    d = text[i + 1]
                    s.append({'"': '"', '\n': ''}.get(d, c + d))
                    i += 2
                else:
                    s.append(c)
                    i += 1
            res.append(('id', ''.join(s)))
        elif c == '<':
            depth, j = 0, i
            while True:
                if j >= n:
                    raise DotError('html label is not closed')
                depth += {'<': 1, '>': -1}.get(text[j], 0)
                j += 1
                if depth == 0:
                    break
            res.append(('html', text[i + 1:j - 1]))
            i = j
        elif text.startswith('->', i) or text.startswith('--', i):
            res.append((text[i:i + 2],) * 2)
            i += 2
        elif c in '{}[];,:=':
            res.append((c, c))
            i += 1
        else:
            m = ID.match(text, i)
            if not m:
                raise DotError(f'unexpected {text[i:i + 20]!r}')
            word = m.group()
            res.append(('keyword' if word.lower() in ('strict', 'graph', 'digraph', 'node', 'edge', 'subgraph') else 'id', word))
            i = m.end()
    return res


class Graph:
    def __init__(self):
        self.nodes = {}          # id -> attributes, attributes: {name: (type, value)}
        self.edges = []          # [(id, port, id, port, attributes)]


def parse(text):
    toks = tokens(text)
    pos = 0
    g = Graph()
    defaults = {'node': {}, 'edge': {}, 'graph': {}}

    def peek():
        return toks[pos][0] if pos < len(toks) else None

    def take(*types):
        nonlocal pos
        if peek() not in types:
            raise DotError(f'expected {types}, got {toks[pos:pos + 3]}')
        pos += 1
        return toks[pos - 1]

    def attributes():
        res = {}
        while peek() == '[':
            take('[')
            while peek() != ']':
                name = take('id', 'html')[1]
                take('=')
                res[name] = take('id', 'html')
                if peek() in (';', ','):
                    take(';', ',')
            take(']')
        return res

    def node_id():
        name = take('id', 'html')
        ports = []
        while peek() == ':' and len(ports) < 2:
            take(':')
            ports.append(take('id', 'html')[1])
        return name[1], (ports[0] if ports else None)

    if peek() == 'keyword' and toks[pos][1].lower() == 'strict':
        raise DotError('a strict graph drops parallel edges')
    if take('keyword')[1].lower() != 'digraph':
        raise DotError('not a directed graph')
    if peek() in ('id', 'html'):
        take('id', 'html')
    take('{')
    while peek() != '}':
        if peek() == ';':
            take(';')
        elif peek() == 'keyword':
            word = take('keyword')[1].lower()
            if word not in defaults:
                raise DotError(f'unsupported: {word}')
            defaults[word].update(attributes())
        else:
            first = node_id()
            if peek() == '=' and first[1] is None:
                take('=')
                take('id', 'html')
                continue
            chain = [first]
            while peek() == '->':
                take('->')
                chain.append(node_id())
            attrs = attributes()
            for name, _ in chain:
                g.nodes.setdefault(name, dict(defaults['node']))
            if len(chain) == 1:
                g.nodes[first[0]].update(attrs)
            for (a, p), (b, q) in zip(chain, chain[1:]):
                g.edges.append((a, p, b, q, {**defaults['edge'], **attrs}))
    take('}')
    if pos != len(toks):
        raise DotError(f'text after the graph: {toks[pos:pos + 3]}')
    return g
