"""C06 searching boxes."""
import os

from hypothesis import strategies as st

import gen
from core import Violation, expect, expect_eq
from sut import RefBead, World, bead_key, expect_tree, format_ts, parse_ts, reset

TECHNIQUE = 'property-based testing (Hypothesis) of generated queries against a reference model of the boxes'
RULE = ('generated queries (all kinds of conditions, several of one kind, all ways of picking) over one to three generated boxes, with and '
        'without index; non-trivial: a query with a condition that keeps some, but not all of the beads')
QUICK = 9000
THOROUGH = 200000

NAMES = ['a', 'b', 'A', 'a[1]', 'a*', 'a_20200101', 'é', 'a.zip']
T0 = 1577836800 * 10**6
DELTAS = [0, 1, 2, 999_999, 1_000_000, 3_600_000_000, 7_200_000_000, 86_400_000_000]


# moments (seconds) whose microseconds a floating point number is about to run out of digits for
ERAS = [-11_000_000_000, -60_000_000, 0, 270_000_000, 540_000_000, 1_080_000_000]


def strategy(tier):
    name = st.one_of(st.sampled_from(NAMES), gen.bead_names())
    kind = st.sampled_from(['k1', 'k2', 'K1'])
    when = st.tuples(st.one_of(st.sampled_from(DELTAS), st.integers(0, 10**11)), gen.offsets()).map(list)
    # name, kind, time, content, boxes it is in, has been renamed from
    bead = st.tuples(name, kind, when, st.integers(0, 2), st.sets(st.integers(0, 2), min_size=1, max_size=3).map(sorted),
                     st.one_of(st.none(), st.none(), st.none(), st.sampled_from(NAMES))).map(list)
    # values: number of a bead to take it from, or something else
    value = st.one_of(st.integers(0, 5), st.integers(0, 5), st.just(None))
    condition = st.one_of(
        st.tuples(st.sampled_from(['by_name', 'by_kind', 'by_content_id']), value, st.just(0), st.booleans()),
        st.tuples(st.sampled_from(['at_time', 'newer_than', 'older_than', 'at_or_newer', 'at_or_older']), value, st.sampled_from([0, 0, 0, 1, -1, 3600 * 10**6]),
                  st.booleans())).map(list)
    query = st.fixed_dictionaries({
        'conditions': st.lists(condition, max_size=3),
        'unique': st.booleans(),
        'pick': st.sampled_from(['all', 'all', 'all', 'newest', 'oldest', 'first', 'newer', 'older']),
        'n': st.integers(0, 4),
        'boxes': st.sampled_from(['search', 'search', 'search', 0, 1, 2]),
    })
    return st.fixed_dictionaries({
        'beads': st.one_of(st.lists(bead, max_size=6), st.lists(bead, min_size=3, max_size=8)),
        'indexed': st.lists(st.booleans(), min_size=1, max_size=3),
        'queries': st.lists(query, min_size=2, max_size=8),
        # where times start, and whether they are next to each other
        'base': st.one_of(st.just(0), st.integers(-36 * 10**14, 10**14),
                          st.sampled_from(ERAS).flatmap(lambda s: st.integers((s - 1577836800) * 10**6, (s - 1577836800) * 10**6 + 10**13))), 'dense': st.sampled_from([False, True]),
        'gone': st.sampled_from([None, None, 0, 9]),
        # what happens to the file of a bead after it was found, before it is resolved
        'then': st.sampled_from([None, 'replaced', 'replaced', 'removed', 'renamed']),
    })


def run(plan, ctx):
    from bead.box import Box, resolve, search
    from bead.box_index import BoxIndex
    from bead.exceptions import InvalidArchive
    from bead.tech.fs import Path
    boxes, model = [], []
    dirs = []
    for i, indexed in enumerate(plan['indexed']):
        d = os.path.join(ctx.dir, f'box{i}')
        os.mkdir(d)
        dirs.append(d)
    beads = []
    stored = set()
    for name, kind, (t, off), content, where, renamed in plan['beads']:
        t = plan['base'] + (t % 5 if plan['dense'] else t)
        b = RefBead(renamed or name, kind, format_ts(T0 + t, off), {'i': ('k', 'c' * 128, format_ts(T0))} if content else {}, {},
                    {'o': b'%d' % content})
        file_name = f'{name}_{b.freeze_time}.zip'
        b.name = name     # the name of a bead is the name of its file
        beads.append(b)
        for i in where:
            if i < len(dirs) and (i, file_name) not in stored and (i, name, b.content_id) not in stored:
                stored.add((i, file_name))
                stored.add((i, name, b.content_id))
                b.write(dirs[i], file_name)
                model.append((b, f'box{i}'))
    for i, indexed in enumerate(plan['indexed']):
        if indexed:
            BoxIndex(Path(dirs[i])).rebuild()
    boxes = [Box(f'box{i}', Path(d)) for i, d in enumerate(dirs)]
    every = list(boxes)
    if plan['gone'] is not None:
        # its directory does not exist any more
        every.insert(plan['gone'], Box('gone', Path(os.path.join(ctx.dir, 'gone'))))

    def value(what, v, delta):
        bead = beads[v % len(beads)] if v is not None and beads else None
        if what == 'by_name':
            return bead.name if bead else 'no such name'
        if what == 'by_kind':
            return bead.kind if bead else 'no such kind'
        if what == 'by_content_id':
            return bead.content_id if bead else '0' * 128
        t = bead.time if bead else parse_ts(format_ts(T0))
        import datetime
        return t + datetime.timedelta(microseconds=delta)

    checks = {
        'by_name': lambda b, v: b.name == v, 'by_kind': lambda b, v: b.kind == v, 'by_content_id': lambda b, v: b.content_id == v,
        'at_time': lambda b, v: b.time == v, 'newer_than': lambda b, v: b.time > v, 'older_than': lambda b, v: b.time < v,
        'at_or_newer': lambda b, v: b.time >= v, 'at_or_older': lambda b, v: b.time <= v}

    def text(t):
        us = round((t - parse_ts(format_ts(0))).total_seconds() * 10**6)
        return f'{t:%Y%m%dT%H%M%S%f}+0000' if us else format_ts(0)

    for q in plan['queries']:
        where = q['boxes']
        if where != 'search' and where >= len(boxes):
            continue
        s = search(every) if where == 'search' else boxes[where].search()
        pool = [m for m in model if where == 'search' or m[1] == f'box{where}']
        found = pool
        what = f'{where}'
        for name, v, delta, as_text in q['conditions']:
            v = value(name, v, delta)
            what += f'.{name}({v!r})'
            found = [m for m in found if checks[name](m[0], v)]
            s = getattr(s, name)(text(v) if as_text and not isinstance(v, str) else v)
        if q['unique']:
            what += '.unique()'
            s = s.unique()
        pick, n = q['pick'], q['n']
        what += f'.{pick}({n if pick in ("newer", "older") else ""})'
        ctx.label(pick, *(c[0] for c in q['conditions']))
        ctx.nontrivial(0 < len(found) < len(pool))
        want = sorted((m[0].key(), m[1]) for m in found)
        ids = {k[2] for k, _ in want}
        by_key = {(m[0].key(), m[1]): m[0] for m in found}
        count = len(ids) if q['unique'] and pick != 'first' else len(want)
        try:
            got = s.all() if pick == 'all' else [getattr(s, pick)(n)] if pick in ('newer', 'older') else [getattr(s, pick)()]
        except LookupError as e:
            expect(pick != 'all', f'{what} fails:', e)
            expect(n >= count if pick in ('newer', 'older') else count == 0, f'{what}: nothing found, expected one of', want)
            continue
        keys = sorted((bead_key(b), b.box_name) for b in got)
        if pick == 'all':
            if q['unique']:
                expect_eq(sorted(k[2] for k, _ in keys), sorted(ids), f'{what}: content ids')
                expect(set(keys) <= set(want), f'{what}:', keys, 'expected from:', want)
            else:
                expect_eq(keys, want, what)
        else:
            expect(set(keys) <= set(want), f'{what}:', keys, 'expected one of:', want)
            expect(n < count or pick not in ('newer', 'older'), f'{what}: there are only {count}, but found', keys)
            if q['unique']:
                times = sorted({m[0].content_id: m[0].time for m in found}.values())
            else:
                times = sorted(m[0].time for m in found)
            t = by_key[keys[0]].time
            if pick != 'first':
                expect_eq(t, {'newest': lambda: times[-1], 'oldest': lambda: times[0], 'newer': lambda: times[n], 'older': lambda: times[::-1][n]}[pick](),
                          f'{what}: time of the bead found')
        for b in got[:3]:
            expect_eq(b.freeze_time, parse_ts(b.freeze_time_str), f'{what}: freeze time')
            a = resolve(boxes, b)
            expect_eq((bead_key(a), a.box_name), (bead_key(b), b.box_name), f'{what}: resolved')
            ref = by_key[bead_key(b), b.box_name]
            expect(os.path.dirname(os.path.abspath(a.location)) == dirs[int(b.box_name[3:])], f'{what}: resolved to another box:', a.location)
            a.validate()
            x = os.path.join(ctx.dir, 'x')
            a.unpack_data_to(Path(x))
            expect_tree(x, ref.output, f'{what}: data of the resolved bead')
            import shutil
            shutil.rmtree(x)
            reset()

    if plan['then']:
        found = search(boxes).all()
        for b in found[:2]:
            i = int(b.box_name[3:])
            others = [o for o in beads if o.content_id != b.content_id]
            path = os.path.join(dirs[i], resolve(boxes, b).location)
            reset()
            if plan['then'] == 'replaced':
                if others:
                    others[0].write(os.path.dirname(path), os.path.basename(path))
                else:
                    RefBead(b.name, 'new-kind', b.freeze_time_str).write(os.path.dirname(path), os.path.basename(path))
            elif plan['then'] == 'removed':
                os.unlink(path)
            else:
                os.rename(path, os.path.join(os.path.dirname(path), 'renamed'))
            try:
                a = resolve(boxes, b)
                got = bead_key(a)
            except (LookupError, InvalidArchive):
                pass
            else:
                expect_eq(got, bead_key(b), f'resolved after its file was {plan["then"]}')
            reset()
