"""C11 interrupted input operations."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import expect, expect_eq
from sut import (RefBead, World, describe_tree, expect_same, expect_tree, format_ts, make_workspace, read_tree, recorded_inputs, reset,
                 snapshot, tree_of)

RULE = ('input commands on generated workspaces, each run with faults at generated or at all file system operations; non-trivial: a fault '
        'was hit while some input was loaded or being loaded from a bead with at least two output files')
QUICK = 600
THOROUGH = 30000
ROUND = 60

T = [format_ts(1577836800 * 10**6 + i * 10**9) for i in range(4)]
COMMANDS = ['add', 'add-existing', 'load', 'load-all', 'update', 'update-all', 'update-next', 'update-other', 'unload', 'unload-all', 'delete',
            'add-path']


def strategy(tier):
    output = gen.entries(4, depth=3, content=gen.contents(large=False))
    return st.fixed_dictionaries({
        'outputs': st.lists(output, min_size=4, max_size=4),
        # (bead number or 9 for a missing one, loaded)
        'x': st.tuples(st.sampled_from([0, 1, 2, 9]), st.booleans()).map(list),
        'y': st.one_of(st.none(), st.tuples(st.sampled_from([0, 1, 3]), st.booleans()).map(list)),
        'nicks': st.lists(gen.bead_names(), min_size=3, max_size=3, unique=True),
        'command': st.sampled_from(COMMANDS),
        'indexed': st.booleans(),
        'faults': faults.fault_lists(6),
        'sweep': st.just(False),
    })


_OUT = [[[['f'], 'x'], [['d', 'g'], 'yy'], [['d', 'e', 'h'], [9000, i]]] for i in range(4)]
EXAMPLES = [
    {'outputs': _OUT, 'x': x, 'y': y, 'nicks': ['x', 'y', 'z'], 'command': c, 'indexed': False, 'faults': [], 'sweep': True}
    for c in COMMANDS
    for x, y in (([[1, False], [3, False]],) if c.startswith(('add', 'load')) else ([[0, True], [1, True]],))]


def run(plan, ctx):
    root = os.path.join(ctx.dir, 'w')
    w = World(root)
    boxdir = os.path.join(root, 'box')
    w.configure_boxes([('box', boxdir)])
    outputs = [tree_of(o) for o in plan['outputs']]
    # three versions of one bead, and another
    beads = [RefBead('bead', 'kind', T[i], code={'v': b'%d' % i}, output=outputs[i]) for i in range(3)]
    beads.append(RefBead('other', 'other-kind', T[3], output=outputs[3]))
    for b in beads:
        b.write(boxdir)
    data = {b.content_id: b.output for b in beads}
    if plan['indexed']:
        w.must('box', 'index')
    ws_dir = w.path('ws')
    ws = make_workspace(ws_dir, 'ws-kind', {'own': b'code'}, {'own': b'output'})
    nx, ny, nz = plan['nicks']
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    for nick, spec in ((nx, plan['x']), (ny, plan['y'])):
        if spec is None:
            continue
        i, loaded = spec
        if i == 9:
            ws.add_input(nick, 'kind', 'f' * 128, T[0])
        elif loaded:
            ws.load(nick, ZipArchive(Path(os.path.join(boxdir, beads[i].file_name))))
        else:
            ws.add_input(nick, *beads[i].ref)
    reset()
    c = plan['command']
    dash = ['-w', ws_dir]
    args = {
        'add': ['add', nz, 'bead'], 'add-path': ['add', nz, os.path.join(boxdir, beads[0].file_name)],
        'add-existing': ['add', nx, 'other'], 'load': ['load', nx], 'load-all': ['load'],
        'update': ['update', nx], 'update-all': ['update'], 'update-next': ['update', nx, '--next'], 'update-other': ['update', nx, 'other'],
        'unload': ['unload', nx], 'unload-all': ['unload'], 'delete': ['delete', nx]}[c]

    def command():
        return w.cli('input', *args, *dash)

    old_refs = recorded_inputs(ws_dir)
    before = rest(root)
    arena = faults.Arena(root, os.path.join(ctx.dir, 'orig'))
    ctx.label('command: ' + c)

    def state():
        return {n: (read_tree(os.path.join(ws_dir, 'input', n)) if ws.is_loaded(n) else None) for n in plan['nicks']}

    def check(what):
        from bead.workspace import Workspace
        expect(Workspace(ws_dir).is_valid, f'{what}: the workspace is not valid anymore')
        refs = recorded_inputs(ws_dir)
        for n in refs.keys() | old_refs.keys() | final_refs.keys():
            allowed = {old_refs.get(n), final_refs.get(n)}
            expect(refs.get(n) in allowed, f'{what}: input {n!r} is recorded as {refs.get(n)}, neither of {allowed}')
        for n, ref in refs.items():
            if ws.is_loaded(n):
                d = os.path.join(ws_dir, 'input', n)
                want = data.get(ref[1])
                expect(want is not None, f'{what}: input {n!r} looks loaded, but its bead is not available')
                expect_tree(d, want, f'{what}: input {n!r} counts as loaded')
        for n in sorted(refs.keys() | set(plan['nicks'])):
            expect(n in refs or not ws.is_loaded(n), f'{what}: input {n!r} counts as loaded, but there is no record of what it is')
        expect_same(before, rest(root), f'{what}: other files')

    # without faults
    final_refs = {}
    out = faults.run(root, command)
    ctx.executions(1)
    expect(out.result.exc is None, out)
    final_refs = recorded_inputs(ws_dir)
    final_state = state()
    succeeds = out.ok
    check('without faults')
    interesting = any(t is not None and len(t) >= 2 for t in final_state.values()) or any(
        s and s[1] and s[0] < 4 and len(outputs[s[0]]) >= 2 for s in (plan['x'], plan['y']))

    for mode, k in faults.positions(out.ops, plan['faults'], plan['sweep'], ctx.tier):
        arena.restore()
        o = faults.run(root, command, mode, k)
        ctx.executions(1)
        what = f'{" ".join(args)!r} with {mode} at operation {k} of {out.ops}'
        check(what)
        if o.hit:
            ctx.label('fault: ' + mode)
            ctx.nontrivial(interesting)
        if o.ok and succeeds:
            expect_eq(recorded_inputs(ws_dir), final_refs, f'{what}: reports success, recorded inputs')
            expect(state() == final_state, f'{what}: reports success, but data is different')
        if c == 'update-next':
            continue    # relative to what has been recorded: doing it again is one more step
        # again, without faults
        gone = c == 'delete' and nx not in recorded_inputs(ws_dir)
        r = command()
        if gone:
            expect(r.refused, f'{what}: repeated:', r)
            continue
        expect(r.exc is None and (r.ok or not succeeds), f'{what}: repeating the command fails:', r)
        check(f'{what}, repeated')
        if succeeds:
            expect_eq(recorded_inputs(ws_dir), final_refs, f'{what}: recorded inputs after repeating it')
            got = state()
            expect(got == final_state, f'{what}: data after repeating it:',
                   {n: t and describe_tree(t) for n, t in got.items()}, 'expected', {n: t and describe_tree(t) for n, t in final_state.items()})


def rest(root):
    """Everything but the inputs and their record."""
    return {k: v for k, v in snapshot(root).items()
            if not k.startswith(('home/ws/input', 'home/ws/.bead-meta'))}
