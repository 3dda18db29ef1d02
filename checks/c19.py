"""C19 drawing of the web."""
import collections
import datetime
import html
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree

from hypothesis import strategies as st

import dot
import gen
import webs
from core import Violation, expect, expect_eq
from sut import World

TECHNIQUE = 'property-based testing (Hypothesis): the generated drawing is parsed back and compared with a reference graph'
RULE = ('webs of up to 10 beads with names made of quotes, markup, backslashes, control characters, any unicode; the DOT text is '
        'parsed by a separate parser (a share also by Graphviz); non-trivial: links and a name that needs quoting')
QUICK = 9000
THOROUGH = 500000
COLORS = {'PHANTOM': 'red', 'SUPERSEDED': 'grey', 'UP_TO_DATE': 'green', 'OUT_OF_DATE': 'orange'}
# characters that XML can not have at all: shown in any way, but not breaking the drawing
UNPRINTABLE = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')

NASTY = ['"', '\\', '\\"', 'a\\', '"]; x [', '\\N', '\\l', '<', '>', '</TABLE>', '<b>x', '<BR/>', '&', '&amp;', '&quot;', '&lt;b&gt;', '->',
         'a -> b', '{', '}', '//', '/*', '#', '\n#', '\\\n', 'x:y', '::', 'unique_1', 'cluster_a', 'node', 'edge', 'digraph', '%s', '{0}', '{bead_inputs}',
         'a\x01b', '\x7f', '\x1b[0m', '\ufffe', '\x85', '\u2028', ']]>', '<!--', '-->', '&#65;', '\\"\\', '""', ' ', '  x  ', '\t', '\r', '\n']


def names():
    return st.one_of(
        st.sampled_from(['a', 'b', 'c']), st.sampled_from(NASTY),
        st.text(alphabet='"\\<>&;#\n{}[]-=|:a ', min_size=1, max_size=6),
        gen.bead_names()).filter(usable)


def twins():
    """Names that differ in something that is easy to lose."""
    lost = st.sampled_from(['\n', ' ', '  ', '\xa0', '\u2028', '\x85', '\u3000', '\\n', '\\', '"', "'", '\\"', '&quot;', '&#10;', '&#x20;', '&nbsp;', '', '_', '-', '\u200b'])
    return st.tuples(st.sampled_from(['x', '', 'a\\', 'y z']), st.lists(lost, min_size=2, max_size=5, unique=True), st.sampled_from(['', 'y', '"'])).map(
        lambda t: [t[0] + x + t[2] for x in t[1]]).filter(lambda names: all(map(usable, names)))


def usable(name):
    return not set('/\0') & set(name) and name not in ('', '.', '..')


def strategy(tier):
    return webs.plans(names(), 10, {
        'names': st.one_of(*[st.lists(names(), min_size=1, max_size=6, unique=True)] * 4, twins()),
        'steps': st.lists(st.sampled_from(['color', 'heads', 'color', 'filter', 'reload']), max_size=3), 'ties': st.sampled_from([False] * 5 + [True]),
        'real dot': st.sampled_from([False] * 40 + [True]), 'cli': st.sampled_from([False] * 40 + [True])})


EXAMPLES = [
    dict(webs.ladder(20), steps=[], ties=True, **{'real dot': False, 'cli': True}),
    dict(webs.ladder(60), steps=['color'], **{'real dot': False, 'cli': True}),
    dict(webs.chain(30), steps=['color'], **{'real dot': True, 'cli': True}),
    dict(webs.chain(12, '"\\<&'), steps=['color'], **{'real dot': True, 'cli': False}),
]


def fuzzy(text):
    """What is compared of texts: control characters can be shown in any way."""
    return re.sub('[\t\n\r\ufffd]+', '\ufffd', UNPRINTABLE.sub('\ufffd', text))


def esc_string(text):
    """Text shown for an attribute of type escString"""
    res, i = [], 0
    while i < len(text):
        if text[i] == '\\' and i + 1 < len(text):
            c = text[i + 1]
            expect(c not in 'NGETHLlrn', f'the label {text!r} has an escape sequence with special meaning')
            res.append(c)
            i += 2
        else:
            res.append(text[i])
            i += 1
    return html.unescape(''.join(res))


def read_table(label):
    """The name and the rows of a cluster: [(ports, color, text)]"""
    try:
        table = xml.etree.ElementTree.fromstring(label)
    except xml.etree.ElementTree.ParseError as e:
        raise Violation(f'label is not well-formed: {e}: {label[:300]!r}')
    name, rows = None, []
    for tr in table.iter('TR'):
        ports = [(td.attrib['PORT'], td) for td in tr.iter('TD') if 'PORT' in td.attrib]
        text = ''.join(tr.itertext())
        if not ports:
            expect(name is None, 'two headings in', label[:300])
            name = fuzzy(text)
        else:
            colors = {td.attrib.get('BGCOLOR', '').split(':')[0] for _, td in ports}
            expect_eq(len(colors), 1, 'colours of a row')
            rows.append(({p for p, _ in ports}, colors.pop(), text))
    return name, rows


def check_drawing(text, model, what):
    try:
        g = dot.parse(text)
    except dot.DotError as e:
        raise Violation(f'{what}: not valid DOT: {e}')

    # clusters with their rows
    clusters, port_of = {}, {}
    for node, attrs in g.nodes.items():
        if attrs.get('label', ('', ''))[0] == 'html':
            name, rows = read_table(attrs['label'][1])
            clusters[node] = (name, rows)
    by_name = collections.defaultdict(list)
    for n in model.nodes.values():
        by_name[n.name].append(n)
    expect_eq(sorted(name or '' for name, _ in clusters.values()), sorted(fuzzy(n) for n in by_name), f'{what}: clusters')

    def row_key(color, time):
        return color, time

    candidates = collections.defaultdict(list)
    for name, nodes in by_name.items():
        candidates[fuzzy(name), tuple(sorted(row_key(COLORS[n.freshness], n.time) for n in nodes))].append(name)
    actual, alias = {}, {}
    for node, (name, rows) in clusters.items():
        got = []
        for ports, color, text in rows:
            try:
                t = datetime.datetime.fromisoformat(text.strip())
            except ValueError:
                raise Violation(f'{what}: no time in the row {text!r} of {name!r}')
            got.append(row_key(color, t))
        # names may look the same only if they have characters that can not be shown
        found = candidates[name, tuple(sorted(got))]
        if not found:
            want = [sorted(row_key(COLORS[n.freshness], n.time) for n in by_name[o]) for o in by_name if fuzzy(o) == name]
            raise Violation(f'{what}: rows of {name!r} differ\n  expected: {want}\n  got:      {sorted(got)}')
        actual[node] = found.pop()
        times = collections.defaultdict(list)
        for n in by_name[actual[node]]:
            times[n.time].append(n)
        for (ports, color, _), (_, t) in zip(rows, got):
            # beads with the same time can be told apart by their ports only
            same = times[t]
            n = next((n for n in same if any(n.content_id in p for p in ports)), None)
            if n is None:
                n = same[0]
                if len(times[t]) > 1:
                    # there is no way to tell which one it is
                    alias.update((x.ref, (x.name, t)) for x in same)
            same.remove(n)
            for p in ports:
                expect((node, p) not in port_of, f'{what}: port {p} used twice in {name!r}')
                port_of[node, p] = n.ref

    # links: paths through helper nodes
    out, into = collections.defaultdict(list), collections.defaultdict(list)
    for e in g.edges:
        out[e[0]].append(e)
        into[e[2]].append(e)
    for node, attrs in g.nodes.items():
        if node not in clusters:
            expect_eq((len(into[node]), len(out[node])), (1, 1), f'{what}: links of the helper node {node!r}')
            expect_eq(attrs.get('label', ('id', None))[1], '', f'{what}: label of the helper node {node!r}')
    links, used = [], 0
    for e in g.edges:
        if e[0] not in clusters:
            continue
        expect((e[0], e[1]) in port_of, f'{what}: link from {e[0]!r} does not start at a row: {e[1]!r}')
        labels, last = [], e
        while True:
            used += 1
            label = last[4].get('label', ('id', ''))[1]
            if label:
                labels.append(esc_string(label))
            if last[2] in clusters:
                break
            last = out[last[2]][0]
        expect((last[2], last[3]) in port_of, f'{what}: link to {last[2]!r} does not end at a row: {last[3]!r}')
        expect_eq(len(labels), 1, f'{what}: labels of a link: {labels}')
        s, d = port_of[e[0], e[1]], port_of[last[2], last[3]]
        links.append((alias.get(s, s), alias.get(d, d), fuzzy(labels[0])))
    expect_eq(used, len(g.edges), f'{what}: edges used by links')
    want = [(alias.get(s, s), alias.get(d, d), fuzzy(s[0])) for s, d in model.edges]
    got, want = collections.Counter(links), collections.Counter(want)
    expect(got == want, f'{what}: links differ\n  missing:    {list((want - got).elements())[:4]}\n  unexpected: {list((got - want).elements())[:4]}')


def run(plan, ctx):
    from bead_cli.web import sketch as sk
    beads = webs.build(plan)
    model = webs.Web.of(beads)
    sketch = sk.Sketch.from_beads(webs.dummies(plan, beads))
    colored = False
    if model.ties:
        ctx.label('same times')
    for i, step in enumerate(plan['steps']):
        if model.ties and step in ('color', 'heads'):
            continue
        if step == 'color':
            sketch.color_beads()
            model.color()
            colored = True
        elif step == 'heads':
            sketch, model = sk.heads_of(sketch).drop_deleted_inputs(), model.heads_of()
        elif step == 'filter':
            name = sorted(model.clusters)[i % len(model.clusters)]
            sketch = sk.set_sinks(sketch, [name])
            kept = {b.name for b in sketch.beads}
            model = model.keep(kept)
            if not kept:
                break
        else:
            sketch.to_file(os.path.join(ctx.dir, 'x.web'))
            sketch = sk.Sketch.from_file(os.path.join(ctx.dir, 'x.web'))
    special = re.compile(r'["\\<>&]|' + UNPRINTABLE.pattern)
    ctx.nontrivial(model.edges and any(special.search(n) for n, _ in model.nodes))
    ctx.label('coloured' if colored else '', 'links' if model.edges else '')
    text = sketch.as_dot()
    check_drawing(text, model, 'drawing')

    if plan['cli']:
        ctx.label('command line')
        w = World(os.path.join(ctx.dir, 'w'))
        sketch.to_file(w.path('x.web'))
        w.must('web', 'load', 'x.web', 'dot', 'x.dot')
        with open(w.path('x.dot'), encoding='utf-8', newline='') as f:
            check_drawing(f.read(), model, 'web load x.web dot x.dot')
        ctx.executions(1)
    # Graphviz 2.43 can not read names of ] only, though valid
    if plan['real dot'] and shutil.which('dot') and all(n.strip(']') for n in model.clusters):
        ctx.label('Graphviz')
        p = subprocess.run(['dot', '-Tdot'], input=text.encode('utf-8'), capture_output=True, timeout=300)
        expect(p.returncode == 0 and b'rror' not in p.stderr, 'Graphviz can not draw it:', p.stderr.decode(errors='replace')[:1500])
        ctx.executions(1)
