"""C05 saving is all or nothing."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import Violation, expect, expect_eq, short
from sut import (RefBead, World, bead_key, expect_same, expect_tree, format_ts, make_workspace, reset, snapshot, tree_of, parse_ts)

RULE = ('saves of generated workspaces into boxes with beads, each run with faults (kill before/inside an operation, I/O error, disk full, '
        'interrupt) at generated or at all file system operations; non-trivial: a fault was hit and the box had beads before')
QUICK = 1100
THOROUGH = 40000
ROUND = 60

TIME0 = 1577836800 * 10**6


def strategy(tier):
    return st.fixed_dictionaries({
        'name': gen.simple_names(),
        'old': st.lists(st.tuples(gen.simple_names(), gen.kinds(), gen.times_us(), gen.entries(2, 2, gen.small_contents())).map(list), max_size=3),
        'code': gen.code_entries(3, depth=3, content=gen.contents(large=False)),
        'output': gen.entries(3, depth=3, content=gen.contents(large=False)),
        'inputs': st.integers(0, 2),
        'index': st.sampled_from(['none', 'none', 'before', 'empty']),
        'box': st.sampled_from(['named', 'named', 'only', 'home']),
        'bad': st.sampled_from(['', '', '', '', 'dangling', 'socket', 'exists']),
        'faults': faults.fault_lists(6),
        'sweep': st.just(False),
    })


EXAMPLES = [
    {'name': 'bead', 'old': [['bead', 'kind-1', TIME0, [[['x'], 'y']]], ['other', 'kind-2', TIME0, []]], 'code': [[['a'], 'b'], [['d', 'e'], [70000, 1]]],
     'output': [[['o'], 'out']], 'inputs': 1, 'index': i, 'box': b, 'bad': '', 'faults': [], 'sweep': True}
    for i, b in [('none', 'named'), ('before', 'only'), ('none', 'home'), ('empty', 'named')]]


def listing(boxdir, raw=False):
    from bead.box import Box
    from bead.box_rawfs import RawFilesystemResolver
    from bead.tech.fs import Path
    try:
        if raw:
            return sorted(map(bead_key, RawFilesystemResolver(Path(boxdir)).get_beads([], 'box')))
        return sorted(map(bead_key, Box('box', Path(boxdir)).all_beads()))
    finally:
        reset()


def run(plan, ctx):
    root = os.path.join(ctx.dir, 'w')
    w = World(root)
    boxdir = w.path('BeadBox') if plan['box'] == 'home' else os.path.join(root, 'box')
    os.makedirs(boxdir)
    old = []
    for name, kind, t, output in plan['old']:
        b = RefBead(name, kind, format_ts(t), output=tree_of(output))
        if b.file_name not in [o.file_name for o in old]:
            b.write(boxdir)
            old.append(b)
    if plan['box'] == 'named':
        w.configure_boxes([('other', os.path.join(root, 'other')), ('box', boxdir)])
    elif plan['box'] == 'only':
        w.configure_boxes([('box', boxdir)])
    ws_dir = w.path(plan['name'])
    code, output = tree_of(plan['code']), tree_of(plan['output'])
    ws = make_workspace(ws_dir, 'the-kind', code, output)
    inputs = {}
    for i in range(plan['inputs']):
        inputs[f'i{i}'] = ('k', 'c' * 128, format_ts(TIME0))
        ws.add_input(f'i{i}', *inputs[f'i{i}'])
    if plan['index'] == 'before':
        w.must('box', 'index', '--dir', boxdir)
    elif plan['index'] == 'empty':      # an index made before the beads got there
        from bead.box_index import BoxIndex
        from bead.tech.fs import Path
        BoxIndex(Path(boxdir))
    old_keys = sorted(b.key() for b in old)
    ctx.label('index: ' + plan['index'], 'box: ' + plan['box'])

    unsavable = has_socket = False
    if plan['bad'] == 'exists':
        never_overwrite(ws, plan, boxdir, old)
        ctx.label('file exists')
    elif plan['bad'] == 'dangling' and not os.path.lexists(os.path.join(ws_dir, 'zz')):
        unsavable = True
        os.symlink('/nonexistent/target', os.path.join(ws_dir, 'zz'))
    elif plan['bad'] == 'socket' and not os.path.lexists(os.path.join(ws_dir, 'output', 'zz')):
        unsavable = has_socket = True
        import socket
        s = socket.socket(socket.AF_UNIX)
        os.chdir(os.path.join(ws_dir, 'output'))
        s.bind('zz')
        s.close()
        os.chdir(ctx.dir)
    arena = None
    before_ws = snapshot_ws(ws_dir)
    before_box = files(boxdir)
    before_listing, before_raw = listing(boxdir), listing(boxdir, raw=True)
    expect_eq(before_raw, old_keys, 'beads before')
    args = ['save'] + (['box'] if plan['box'] == 'named' else []) + ['-w', ws_dir]

    def save():
        return w.cli(*args)

    def check(out, what):
        expect_same(before_ws, snapshot_ws(ws_dir), f'{what}: workspace')
        after_box = files(boxdir)
        for n, data in before_box.items():
            expect(after_box.get(n) == data, f'{what}: stored bead changed or removed:', n)
        new_files = sorted(n for n in after_box.keys() - before_box.keys() if n.endswith('.zip'))
        expect(len(new_files) <= 1, f'{what}: new files', new_files)
        complete = False
        if new_files:
            complete = is_complete(os.path.join(boxdir, new_files[0]), plan['name'], inputs, code, output, ctx.dir)
        new_key = [complete.key()] if complete else []
        raw = listing(boxdir, raw=True)
        expect_eq(raw, sorted(old_keys + new_key), f'{what}: beads in the box')
        shown = listing(boxdir)
        expect(shown in (before_listing, sorted(before_listing + new_key)) or shown in (old_keys, raw),
               f'{what}: beads shown', shown, 'before:', before_listing)
        if out.killed:
            return
        if out.ok:
            expect(complete, f'{what}: save reports success, but there is no complete bead:', out)
            expect(not unsavable, f'{what}: save reports success for a workspace that can not be saved')
            if plan['index'] != 'none' and not out.hit:
                expect(new_key[0] in shown, f'{what}: saved into an indexed box but is not found')
        elif not (unsavable and out.hit):   # else the clean-up may be what failed: nothing could be done about it
            expect(not new_files or complete, f'{what}: failed save left {new_files} behind:', out)

    try:
        if not has_socket:      # sockets can not be cloned
            arena = faults.Arena(root, os.path.join(ctx.dir, 'orig'))
        out = faults.run(root, save)
        ctx.executions(1)
        check(out, 'save without faults')
        expect(out.ok != unsavable, 'save:', out)
        if not arena:
            return
        for mode, k in faults.positions(out.ops, plan['faults'], plan['sweep']):
            arena.restore()
            o = faults.run(root, save, mode, k)
            ctx.executions(1)
            what = f'save with {mode} at operation {k} of {out.ops}'
            check(o, what)
            if o.hit:
                ctx.label('fault: ' + mode)
                ctx.nontrivial(old)
            if o.killed:
                # the next save works
                r = save()
                expect(r.ok != unsavable, f'{what}: save after it:', r)
                n = len(listing(boxdir, raw=True))
                expect(n in (len(old) + 1 - unsavable, len(old) + 2), f'{what}: {n} beads after saving again')
    finally:
        reset()


def snapshot_ws(d):
    return {k: v for k, v in snapshot_nosock(d).items()}


def snapshot_nosock(root):
    import stat
    res = {}
    for d, dirs, names in os.walk(root):
        for n in dirs + names:
            p = os.path.join(d, n)
            st_ = os.lstat(p)
            if stat.S_ISREG(st_.st_mode):
                with open(p, 'rb') as f:
                    c = f.read()
            elif stat.S_ISLNK(st_.st_mode):
                c = os.readlink(p)
            else:
                c = None
            res[os.path.relpath(p, root)] = (st_.st_mode, c)
    return res


def files(d):
    res = {}
    for n in os.listdir(d):
        if n.endswith('.zip'):
            with open(os.path.join(d, n), 'rb') as f:
                res[n] = f.read()
    return res


def is_complete(path, name, inputs, code, output, scratch):
    """The reference of the bead that should be in the file, or None when it is not a valid archive."""
    from bead.exceptions import InvalidArchive
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    import shutil
    reset()
    try:
        try:
            a = ZipArchive(Path(path), 'box')
            a.validate()
        except InvalidArchive:
            return None
        ref = RefBead(name, 'the-kind', a.freeze_time_str, inputs, code, output)
        expect_eq(bead_key(a), ref.key(), 'a new bead is there, but it is not the saved workspace')
        out = os.path.join(scratch, 'extracted')
        shutil.rmtree(out, ignore_errors=True)
        a.unpack_data_to(Path(out))
        expect_tree(out, output, 'a new bead is there, but its output')
        shutil.rmtree(out)
        a.unpack_code_to(Path(out))
        expect_tree(out, code, 'a new bead is there, but its code')
        return ref
    finally:
        reset()


def never_overwrite(ws, plan, boxdir, old):
    """store() with a freeze time for which there is a file already"""
    from bead.box import Box
    from bead.tech.fs import Path
    t = old[0].freeze_time if old else format_ts(TIME0 + 1)
    p = os.path.join(boxdir, f'{plan["name"]}_{t}.zip')
    existed = os.path.exists(p)
    if not existed:
        with open(p, 'wb') as f:
            f.write(b'precious')
    with open(p, 'rb') as f:
        content = f.read()
    try:
        Box('box', Path(boxdir)).store(ws, t)
    except (Exception, SystemExit):
        pass
    else:
        raise Violation('storing where a file already exists reports success')
    finally:
        reset()
    expect(os.path.exists(p), 'an existing file was removed by a failing save')
    with open(p, 'rb') as f:
        expect(f.read() == content, 'an existing file was overwritten by save')
    if not existed:
        os.unlink(p)
