"""C12 the list of boxes."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import expect, expect_eq
from sut import RefBead, World, expect_same, format_ts, reset, snapshot

TECHNIQUE = 'stateful property-based testing (Hypothesis) with fault injection against a map model'
RULE = ('histories of box add / forget / list over plain, aliased, relative, missing, disappearing and occupied directories, a part of them failing or '
        'killed at a generated file system operation; non-trivial: the history has a successful add, a refused add or a forget, and a '
        'fault that was hit')
QUICK = 1600
THOROUGH = 60000
ROUND = 100

DIRS = ['d0', 'd1', 'd1/sub', 'd2 é', 'link0', 'd1/../d0', './d0/', 'd1/sub/..', 'linksub', 'd[1]', 'file', 'missing', 'dangling']
SKIP = ('d0/.index.sqlite', 'd0.away/.index.sqlite')


def strategy(tier):
    names = st.lists(st.one_of(gen.bead_names(), st.sampled_from(['a__b', 'a/b', 'A', 'a', '/x', '.', 'a:b', ''])), min_size=4, max_size=4, unique=True)
    fault = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(sorted(faults.MODES)), st.integers(1, 7)).map(list))
    op = st.one_of(
        st.tuples(st.just('add'), st.integers(0, 3), st.integers(0, len(DIRS) - 1), fault),
        st.tuples(st.just('add'), st.integers(0, 3), st.integers(0, 4), fault),
        st.tuples(st.just('forget'), st.integers(0, 3), st.just(0), fault),
        st.tuples(st.just('list'), st.just(0), st.just(0), st.none()),
        # the directory goes away or comes back
        st.tuples(st.just('move'), st.just(0), st.integers(0, 3), st.none()),
    ).map(list)
    return st.fixed_dictionaries({
        'names': names,
        'ops': st.lists(op, min_size=1, max_size=10),
        'absolute': st.booleans(),
        'indexed': st.booleans(),
    })


def run(plan, ctx):
    from bead_cli.environment import Environment
    root = os.path.join(ctx.dir, 'w')
    w = World(root)
    for d in ('d0', 'd1/sub', 'd2 é', 'd[1]'):
        w.mkdir(*d.split('/'))
    os.symlink('d0', w.path('link0'))
    os.symlink(w.path('d1', 'sub'), w.path('linksub'))
    os.symlink('nowhere', w.path('dangling'))
    with open(w.path('file'), 'wb') as f:
        f.write(b'not a directory')
    # beads and other data: nobody is allowed to touch them
    for d in ('d0', 'd1', 'd1/sub'):
        RefBead('b', 'k', format_ts(1577836800 * 10**6), output={'x': b'y'}).write(w.path(d))
    with open(w.path('d0', 'private'), 'wb') as f:
        f.write(b'data')
    if plan['indexed']:
        w.must('box', 'index', '--dir', w.path('d0'))
    data = snapshot(w.home, skip=SKIP)
    model = []     # [(name, location)]

    def state():
        try:
            return [(b.name, str(b.location)) for b in Environment.from_dir(w.config).get_boxes()]
        finally:
            reset()

    added = refused = forgot = hit = False
    for kind, n, d, fault in plan['ops']:
        name = plan['names'][n]
        if kind == 'move':
            here = w.path(('d0', 'd1', 'd2 é', 'd[1]')[d])
            away = here + '.away'
            if os.path.lexists(here):
                ctx.label('directory away' + (', configured' if here in [loc for _, loc in model] else ''))
                os.rename(here, away)
            else:
                os.rename(away, here)
            expect_eq(state(), model, f'boxes after {here!r} has been moved')
            data = snapshot(w.home, skip=SKIP)
            continue
        if kind == 'list':
            r = w.must('box', 'list')
            pos = 0
            for line in (f'{a}: {b}' for a, b in model):
                at = r.out.find(line, pos)
                expect(at >= 0, 'box list does not show', repr(line), 'in order:', r)
                pos = at + len(line)
            expect(model or ':' not in r.out, 'box list shows boxes, but there are none:', r)
            continue
        after = list(model)
        if kind == 'add':
            directory = w.path(DIRS[d]) if plan['absolute'] else DIRS[d]
            location = os.path.realpath(w.path(DIRS[d]))
            possible = os.path.isdir(w.path(DIRS[d])) and name not in dict(model) and location not in [loc for _, loc in model]
            if possible:
                after.append((name, location))
            added, refused = added or possible, refused or not possible
            args = ['box', 'add', name, directory]
        else:
            after = [(a, b) for a, b in model if a != name]
            forgot = forgot or after != model
            args = ['box', 'forget', name]
        what = ' '.join(map(repr, args))
        if fault:
            mode, at = fault
            o = faults.run(root, lambda: w.cli(*args), mode, at)
            ctx.executions(1)
            what = f'{what} with {mode} at operation {at}'
            if o.hit:
                hit = True
                ctx.label('fault: ' + mode)
            got = state()
            expect(got == model or got == after, f'{what}: boxes before: {model}\nintended: {after}\ngot: {got}\n', o)
            expect(not o.ok or got == after, f'{what}: reports success, but the boxes are {got}, expected {after}\n', o)
            model = got
        else:
            r = w.cli(*args)
            ctx.executions(1)
            expect(r.exc is None, f'{what}:', r)
            expect_eq(state(), after, f'{what}: boxes\n', r, '\n')
            if after != model:
                expect(r.ok, f'{what}: done, but reports failure', r)
            model = after
        expect_same(data, snapshot(w.home, skip=SKIP), f'{what}: data of users')
    # later runs
    for name, _ in model:
        expect(Environment.from_dir(w.config).is_known_box(name), 'box is not known:', repr(name))
    ctx.nontrivial(added and hit and (refused or forgot))
