"""Random webs of beads: generator and reference model (shared by the checks of the web commands)."""
import collections
import copy

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, format_ts

T0 = 1388534400 * 10**6
REAL, PHANTOM, SUPERSEDED, UP_TO_DATE, OUT_OF_DATE = 'REAL', 'PHANTOM', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE'


def plans(names=None, max_beads=12, extra=None):
    """
    beads are made in order, so that they can have only earlier ones as inputs; their times are in any order.

    Input: [how, which bead / missing one, which name]
    link: another bead by its name; other: another bead's content under another name; missing: something unknown
    """
    inp = st.tuples(st.sampled_from(['link', 'link', 'link', 'recent', 'recent', 'other', 'missing']), st.integers(0, 30), st.integers(0, 5)).map(list)
    bead = st.fixed_dictionaries({
        'name': st.one_of(st.integers(0, 5), st.integers(0, 1)), 'late': st.integers(-4, 4), 'offset': gen.offsets(),
        'inputs': st.lists(inp, max_size=4), 'copies': st.sampled_from([1, 1, 1, 2, 3]),
        # not a new bead, but another one's file with another name
        'of': st.sampled_from([None] * 8 + [0, 1, 2, 5])})
    fields = {
        'names': st.lists(names if names is not None else st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f', 'bead', 'bead-2', 'x y', 'é', '*', '**']),
                          min_size=1, max_size=6, unique=True),
        'beads': st.lists(bead, min_size=1, max_size=max_beads),
        'order': st.integers(0, 10**6)}
    fields.update(extra or {})
    return st.fixed_dictionaries(fields)


def build(plan):
    """The beads of a plan as RefBeads"""
    names = plan['names']
    beads = []
    for i, s in enumerate(plan['beads']):
        name = names[s['name'] % len(names)]
        if s.get('of') is not None and beads:
            b = copy.copy(beads[-1 - s['of'] % len(beads)])
            b.name = name
            if not any(x.name == name and (x.content_id == b.content_id or x.freeze_time == b.freeze_time) for x in beads):
                beads.append(b)
                continue
        inputs = {}
        for how, k, n in s['inputs']:
            nick = names[n % len(names)]
            if how == 'missing' or not beads:
                # ids can be the same for long
                if k % 4 == 1:
                    # there is no bead with its name
                    nick = f'gone{k % 3}'
                cid = [f'{k:02x}' * 64, 'ab' * 63 + f'{k:02x}', f'{k:02x}' + 'cd' * 63][k % 3]
                kind, cid, t = 'missing', cid, format_ts(T0 + k * 11_000_003 + 5)
            else:
                b = beads[k % len(beads)] if how != 'recent' else beads[-1 - k % min(2, len(beads))]
                (kind, cid, t), nick = b.ref, (nick if how == 'other' else b.name)
            inputs.setdefault(nick, (kind, cid, t))
        # later is newer, mostly; never at the same time, unless that is asked for
        t = T0 + (i + s['late']) * 10_000_000 + i * 1_000
        if plan.get('ties'):
            t = T0 + (i + s['late']) // 4 * 10_000_000
        offset = s['offset']
        while any(b.name == name and b.freeze_time == format_ts(t, offset) for b in beads):
            # they can be in one box
            offset += 1 if s['offset'] < 0 else -1
        beads.append(RefBead(name, f'kind-{name}', format_ts(t, offset), inputs, code={'n': b'%d' % i}))
    return beads


def shuffled(items, seed):
    """A permutation depending on seed only."""
    items = list(items)
    res = []
    while items:
        seed, k = (seed * 6364136223846793005 + 1442695040888963407) % 2**64, (seed >> 20) % len(items)
        res.append(items.pop(k))
    return res


def dummies(plan, beads):
    """As the web code gets them: each as many times as there are boxes having it"""
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    res = []
    for s, b in zip(plan['beads'], beads):
        for c in range(s['copies']):
            res.append(Dummy(
                name=b.name, content_id=b.content_id, kind=b.kind, freeze_time_str=b.freeze_time, box_name=f'box{c}',
                inputs=[InputSpec(n, k, cid, t) for n, (k, cid, t) in b.inputs.items()]))
    return shuffled(res, plan['order'])


class Node:
    def __init__(self, name, content_id, kind, freeze_time, inputs, real):
        from sut import parse_ts
        self.ref = (name, content_id)
        self.name, self.content_id, self.kind, self.freeze_time = name, content_id, kind, freeze_time
        self.inputs = frozenset(inputs)          # (nick, kind, content id, freeze time)
        self.real = real
        self.time = parse_ts(freeze_time)
        self.freshness = SUPERSEDED if real else PHANTOM

    def __repr__(self):
        return f'{self.name!r}/{self.content_id[:6]}@{self.freeze_time[:15]}'


class Web:
    """The reference model: nodes by (name, content id) and links"""

    def __init__(self, nodes, edges):
        self.nodes = nodes
        self.edges = edges          # {(src ref, dest ref)}, labelled by the name of src

    @classmethod
    def of(cls, beads):
        nodes = {}
        for b in beads:
            nodes[b.name, b.content_id] = Node(
                b.name, b.content_id, b.kind, b.freeze_time, [(n, *spec) for n, spec in b.inputs.items()], True)
        edges = set()
        for b in beads:
            for nick, (kind, cid, t) in b.inputs.items():
                if (nick, cid) not in nodes:
                    nodes[nick, cid] = Node(nick, cid, kind, t, [], False)
                edges.add(((nick, cid), (b.name, b.content_id)))
        return cls(nodes, edges)

    def copy(self, refs, edges):
        """Part of it, with inputs that are not links left out."""
        nodes = {}
        kept = {(s, d) for s, d in edges}
        for r in refs:
            n = self.nodes[r]
            m = Node(n.name, n.content_id, n.kind, n.freeze_time, [i for i in n.inputs if ((i[0], i[2]), r) in kept], n.real)
            m.freshness = n.freshness
            nodes[r] = m
        return Web(nodes, kept)

    @property
    def clusters(self):
        res = collections.defaultdict(list)
        for n in self.nodes.values():
            res[n.name].append(n)
        return {name: sorted(ns, key=lambda n: n.time, reverse=True) for name, ns in res.items()}

    @property
    def ties(self):
        """Is there any cluster with beads of the same time? (which one is the newest of them is not defined)"""
        return any(len({n.time for n in ns}) < len(ns) for ns in self.clusters.values())

    def heads(self):
        """newest one of every name - that is there, if any is there"""
        return {name: next((n for n in ns if n.real), ns[0]) for name, ns in self.clusters.items()}

    def heads_of(self):
        heads = {n.ref for n in self.heads().values()}
        edges = {(s, d) for s, d in self.edges if d in heads}
        return self.copy(heads | {s for s, _ in edges}, edges)

    def reach(self, names, forward):
        step = collections.defaultdict(set)
        for (s, _), (d, _) in self.edges:
            step[s if forward else d].add(d if forward else s)
        seen, todo = set(), [n for n in names if n in self.clusters]
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo.extend(step[n])
        return seen

    def keep(self, names):
        """The part having the named clusters"""
        return self.copy(
            [r for r in self.nodes if r[0] in names], {(s, d) for s, d in self.edges if s[0] in names and d[0] in names})

    def linked(self, names):
        """Those of the named clusters that have a link among them"""
        return {x for s, d in self.edges if s[0] in names and d[0] in names for x in (s[0], d[0])}

    def color(self):
        """Sets freshness of nodes; returns if all is up to date"""
        newest = {ns[0].ref for ns in self.clusters.values()}
        sources = collections.defaultdict(list)
        for s, d in self.edges:
            sources[d].append(s)
        known = {}
        todo = list(self.nodes)
        while todo:
            r = todo[-1]
            n = self.nodes[r]
            if r in known:
                todo.pop()
            elif not n.real:
                known[r] = PHANTOM
            elif r not in newest:
                known[r] = SUPERSEDED
            else:
                missing = [s for s in sources[r] if s not in known]
                todo.extend(missing)
                if not missing:
                    known[r] = UP_TO_DATE if all(known[s] == UP_TO_DATE for s in sources[r]) else OUT_OF_DATE
        for r, f in known.items():
            self.nodes[r].freshness = f
        heads = {n.ref for n in self.heads().values()}
        used = {s for s, d in self.edges if d in heads}
        return all(known[r] == UP_TO_DATE for r in heads | used)


def observed(sketch):
    """A sketch of the code under test in terms of the model (nodes with freshness; edges as sorted list)"""
    nodes = sorted(
        (b.name, b.content_id, b.kind, b.freeze_time_str, tuple(sorted((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in b.inputs)),
         b.freshness.name) for b in sketch.beads)
    edges = sorted((e.src.name, e.src.content_id, e.dest.name, e.dest.content_id, e.label) for e in sketch.edges)
    return nodes, edges


def expected(web):
    nodes = sorted(
        (n.name, n.content_id, n.kind, n.freeze_time, tuple(sorted(n.inputs)), n.freshness) for n in web.nodes.values())
    edges = sorted((*s, *d, s[0]) for s, d in web.edges)
    return nodes, edges


def expect_web(sketch, web, what):
    got, want = observed(sketch), expected(web)
    for kind, g, w in zip(('beads', 'links'), got, want):
        if g != w:
            g1, w1 = collections.Counter(g), collections.Counter(w)
            expect(False, f'{what}: {kind} differ\n  missing:    {list((w1 - g1).elements())[:4]}\n  unexpected: {list((g1 - w1).elements())[:4]}')
    # the same beads at the ends of links
    by_ref = {(b.name, b.content_id): b.freshness for b in sketch.beads}
    for e in sketch.edges:
        for b in (e.src, e.dest):
            expect_eq(b.freshness, by_ref[b.name, b.content_id], f'{what}: freshness of {b.name} seen through a link')


def chain(n, name=None):
    """Plan of a chain of n beads"""
    return {'names': [f'n{i}' for i in range(n)] if name is None else [name],
            'beads': [{'name': i, 'late': 0, 'offset': 0, 'inputs': [['recent', 0, 0]] if i else [], 'copies': 1} for i in range(n)],
            'order': 7}


def ladder(n, names=None):
    """Plan of n beads, each having the two before it as inputs: the number of paths grows exponentially"""
    return {'names': [f'n{i}' for i in range(names or n)],
            'beads': [{'name': i, 'late': 0, 'offset': 0, 'inputs': [['recent', k, 0] for k in range(min(i, 2))], 'copies': 1} for i in range(n)],
            'order': 7}
