"""C25 concurrent use of a box."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import Violation, expect, expect_eq
from sut import RefBead, World, bead_key, expect_tree, format_ts, make_workspace, read_tree, recorded_inputs, reset, tree_of, workspace_meta

TECHNIQUE = 'property-based testing (Hypothesis) over generated schedules of real processes, stopped between file system operations'
RULE = ('two to four commands (save, index, reindex, search, edit, input load) run as processes on one box, switched between at generated file system '
        'operations, reads of files and file locks; non-trivial: a save ran interleaved with another command')
QUICK = 1300
THOROUGH = 150000
ROUND = 100

T0 = 1577836800 * 10**6
COMMANDS = ['save', 'save', 'index', 'reindex', 'search', 'edit', 'load']


def strategy(tier):
    command = st.tuples(st.sampled_from(COMMANDS), st.integers(0, 1), st.integers(0, 2)).map(list)
    steps = st.one_of(st.integers(1, 6), st.integers(1, 40), st.sampled_from([0]))
    return st.fixed_dictionaries({
        'beads': st.integers(0, 3),
        'index': st.sampled_from(['none', 'fresh', 'stale', 'empty']),
        # [command, name of workspace, content of workspace]
        'commands': st.lists(command, min_size=2, max_size=4),
        'schedule': st.lists(st.tuples(st.integers(0, 3), steps).map(list), min_size=1, max_size=14),
        'last': st.permutations([0, 1, 2, 3]),
    })


EXAMPLES = []
for _c in ([['save', 0, 0], ['index', 0, 0]], [['index', 0, 0], ['save', 0, 0]], [['save', 0, 0], ['reindex', 0, 0]],
           [['reindex', 0, 0], ['save', 0, 0]], [['save', 0, 0], ['save', 0, 0]], [['search', 0, 0], ['save', 0, 0]],
           [['edit', 0, 0], ['save', 0, 0]], [['load', 0, 0], ['reindex', 0, 0]], [['edit', 0, 0], ['reindex', 0, 0]], [['load', 0, 0], ['save', 0, 0]],
           [['reindex', 0, 0], ['search', 0, 0]], [['index', 0, 0], ['reindex', 0, 0]]):
    # stop the first one everywhere, and run the other one in between
    EXAMPLES.append({'beads': 2, 'index': 'stale', 'commands': _c, 'schedule': 'sweep', 'last': [0, 1, 2, 3]})


def run(plan, ctx):
    if plan['schedule'] != 'sweep':
        one(plan, ctx, plan['schedule'], ctx.dir)
        return
    for k in range(1, 300):
        d = os.path.join(ctx.dir, str(k))
        os.makedirs(d)
        if one(plan, ctx, [[0, k], [1, 0]], d):
            return


def one(plan, ctx, schedule, directory):
    """-> did process 0 end before it could have been stopped"""
    root = os.path.join(directory, 'w')
    w = World(root)
    boxdir = os.path.join(root, 'box')
    w.configure_boxes([('box', boxdir)])
    old = [RefBead(f'b{i % 2}', 'kind', format_ts(T0 + i), {'i': ('kind', 'c' * 128, format_ts(T0))} if i else {}, {'c': b'x'}, {'o': b'%d' % i})
           for i in range(plan['beads'])]
    late = []
    if plan['index'] == 'stale' and old:
        late = [old.pop()]
    for b in old:
        b.write(boxdir)
    if plan['index'] in ('fresh', 'stale'):
        w.must('box', 'index')
    elif plan['index'] == 'empty':
        from bead.box_index import BoxIndex
        from bead.tech.fs import Path
        BoxIndex(Path(boxdir))
    for b in late:
        b.write(boxdir)
    old += late
    before = files(boxdir)
    spaces, spaces_of_loads = {}, {}
    for i, (c, name, content) in enumerate(plan['commands']):
        if c == 'save':
            d = w.path(str(i), f'b{name}')
            spaces[i] = d, [f'b{name}', f'kind{i}', {}, {'code': b'%d' % content}, {'out': b'%d' % content, 'd/out': b'z' * 70000}]
            make_workspace(d, f'kind{i}', spaces[i][1][3], spaces[i][1][4])
        elif c == 'load' and old:
            b = old[name % len(old)]
            spaces_of_loads[i] = w.path(str(i), 'user'), b
            make_workspace(spaces_of_loads[i][0], 'user').add_input('in', *b.ref)
    reset()

    def function(i):
        c, name, _ = plan['commands'][i]
        if c == 'search':
            return lambda: search(boxdir, f'b{name}')
        if c == 'edit':
            return lambda: faults.dump_result(w.cli('edit', '--review', f'b{name}', w.path(str(i), 'copy')))
        if c == 'load':
            return lambda: faults.dump_result(w.cli('input', 'load', 'in', '-w', spaces_of_loads[i][0]) if i in spaces_of_loads else w.cli('version'))
        args = ['save', '-w', spaces[i][0]] if c == 'save' else ['box', c]
        return lambda: faults.dump_result(w.cli(*args))

    processes = {}
    interleaved = set()
    free_run = False
    for p, steps in list(schedule) + [[p, 0] for p in plan['last']]:
        if p >= len(plan['commands']):
            continue
        for q, other in processes.items():
            if q != p and not other.done and not (p in processes and processes[p].done):
                interleaved |= {p, q}
        if p not in processes:
            processes[p] = faults.Process(root, function(p), steps or 10**9)
            if p == 0:
                free_run = processes[p].done
        else:
            processes[p].go(steps)
    ctx.executions(len(processes))

    known = {b.key() for b in old}
    after = files(boxdir)
    for n, c in before.items():
        expect(after.get(n) == c, 'stored bead changed or removed:', n)
    new = sorted(after.keys() - before.keys())
    saved = []
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    for n in new:
        a = ZipArchive(Path(os.path.join(boxdir, n)), 'box')
        a.validate()
        i = int(a.kind.removeprefix('kind'))
        ref = RefBead(spaces[i][1][0], a.kind, a.freeze_time_str, *spaces[i][1][2:])
        expect_eq(bead_key(a), ref.key(), 'saved bead')
        a.unpack_data_to(Path(os.path.join(directory, 'x', n)))
        expect_tree(os.path.join(directory, 'x', n), ref.output, 'saved bead: output')
        a.unpack_code_to(Path(os.path.join(directory, 'y', n)))
        expect_tree(os.path.join(directory, 'y', n), ref.code, 'saved bead: code')
        saved.append(i)
        known.add(ref.key())
    reset()
    expect_eq(sorted(saved), sorted(spaces), 'saves that are in the box, among the commands', plan['commands'])
    for i, p in processes.items():
        what = f'{i}: {plan["commands"][i]}'
        ctx.label('command: ' + plan['commands'][i][0])
        if plan['commands'][i][0] == 'search':
            if p.value is None:
                ctx.label('search failed because the index was in use')
                continue
            for k in p.value:
                expect(untuple(k) in known, f'{what}: shows what is not a stored bead:', k, 'beads:', sorted(known))
        else:
            from sut import Result
            r = Result(*p.value)
            c, name, _ = plan['commands'][i]
            if c in ('edit', 'load'):
                # the index may be in use: then it fails; it may not know all beads; otherwise it is right
                steady = plan['index'] in ('none', 'fresh') and not any(x[0] == 'reindex' for x in plan['commands'])
                failed = r.exc is not None and 'BoxIndexError' in r.exc
                expect(r.exc is None or failed, what, r)
                if c == 'load' and i in spaces_of_loads:
                    d, b = spaces_of_loads[i]
                    if not failed and steady:
                        # it is there all the time
                        expect(os.path.isdir(os.path.join(d, 'input', 'in')), f'{what}: not loaded', r)
                    if os.path.isdir(os.path.join(d, 'input', 'in')):
                        expect_tree(os.path.join(d, 'input', 'in'), b.output, f'{what}: loaded')
                    expect_eq(recorded_inputs(d), {'in': b.ref}, f'{what}: recorded')
                if c == 'edit':
                    d = w.path(str(i), 'copy')
                    there = [b for b in old if b.name == f'b{name}']
                    expect(r.ok or failed or not there or not steady, f'{what}: not found', r)
                    if r.ok:
                        kind = workspace_meta(d)['kind']
                        want = [b.output for b in there if b.kind == kind and (b.freeze_time == max(x.freeze_time for x in there) or not steady)] + [
                            x[1][4] for x in spaces.values() if x[1][1] == kind and x[1][0] == f'b{name}']
                        expect(read_tree(os.path.join(d, 'output')) in want, f'{what}: output of {kind}')
                continue
            expect(plan['commands'][i][0] != 'save' or r.ok, f'{what} failed because of the others:', r)
            expect(r.exc is None, what, r)
    for command in ('index', 'reindex'):
        shown = search(boxdir, None)
        expect(shown is not None, 'box is not searchable afterwards')
        expect(set(shown) <= known, 'afterwards: shows', set(shown) - known)
        w.must('box', command)
        shown = search(boxdir, None)
        expect(shown is not None, 'box is not searchable after indexing again')
        expect_eq(sorted(shown), sorted(known), f'beads found after {command}')
    if interleaved:
        ctx.label(f'{len(interleaved)} interleaved')
    ctx.nontrivial(interleaved & spaces.keys())
    return free_run


def untuple(k):
    k = list(k)
    k[4] = tuple(tuple(i) for i in k[4])
    return tuple(k)


def search(boxdir, name):
    """Keys of beads found, or None when the search fails"""
    from bead.box import Box
    from bead.exceptions import BoxIndexError
    from bead.tech.fs import Path
    try:
        box = Box('box', Path(boxdir))
        s = box.search()
        beads = (s.by_name(name) if name else s).all()
        return sorted(map(bead_key, beads))
    except BoxIndexError:
        return None
    finally:
        reset()


def files(d):
    res = {}
    for n in os.listdir(d):
        if n.endswith('.zip'):
            with open(os.path.join(d, n), 'rb') as f:
                res[n] = f.read()
    return res
