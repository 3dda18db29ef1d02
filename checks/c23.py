"""C23 which workspace a command acts on."""
import os
import shutil

from hypothesis import strategies as st

from core import expect, expect_eq
from sut import RefBead, World, expect_same, format_ts, make_workspace, read_zip, recorded_inputs, snapshot, diff

TECHNIQUE = 'model-based property testing (Hypothesis): nested workspaces and look-alikes against a search of enclosing directories'
RULE = ('trees of nested workspaces and directories that are nearly workspaces, commands run in any of their directories, with or without '
        'naming a workspace; non-trivial: another workspace or look-alike encloses or is inside of the right one or there is none at all')
QUICK = 3600
THOROUGH = 120000

PARTS = ['input', 'output', 'temp', '.bead-meta', '.bead-meta/bead']
TYPES = (['workspace'] * 7 + ['plain'] + [f'no {p}' for p in PARTS] + [f'other {p}' for p in PARTS] + ['renamed', 'box'])
SUBDIRS = ['', '', '', 'code', 'code/deep', 'output', 'output/x', 'temp', 'temp/y/z', '.bead-meta', 'input', 'input/base']


def strategy(tier):
    node = st.tuples(st.integers(-1, 6), st.sampled_from(['', 'code', 'output', 'temp', 'code/deep', '.bead-meta', 'output/x']),
                     st.sampled_from(TYPES)).map(list)
    command = st.fixed_dictionaries({
        'cmd': st.sampled_from(['status', 'status', 'save', 'save', 'add', 'delete', 'unload', 'load', 'update', 'discard', 'discard arg', 'discard']),
        'node': st.integers(-1, 7), 'sub': st.sampled_from(SUBDIRS),
        'explicit': st.sampled_from([None, None, None, 'node', 'node', 'relative', '.', '..', 'missing', 'sub']), 'target': st.integers(0, 7), 'link': st.sampled_from([False] * 5 + [True])})
    return st.fixed_dictionaries({
        'nodes': st.lists(node, min_size=1, max_size=6), 'commands': st.lists(command, min_size=1, max_size=5)})


SOURCE = RefBead('source', 'source-kind', format_ts(1420070400 * 10**6), code={'s': b's'}, output={'so': b'so'})
NEWER = RefBead('source', 'source-kind', format_ts(1420070500 * 10**6), code={'s': b's'}, output={'so': b'newer'})


def writable(d):
    if os.path.isdir(d):
        os.chmod(d, 0o755)


def build(plan, root, source):
    """Make the directories; returns their paths"""
    import sut
    paths = []
    for i, (parent, sub, kind) in enumerate(plan['nodes']):
        base = paths[parent % len(paths)] if parent >= 0 and paths else root
        if base != root and sub:
            base = os.path.join(base, sub)
        if os.path.lexists(base) and not os.path.isdir(base):
            base = root
        try:
            os.makedirs(base, exist_ok=True)
        except OSError:
            base = root
        d = os.path.join(base, f'n{i}')
        paths.append(d)
        if kind == 'plain':
            os.makedirs(d)
        elif kind == 'box':
            os.makedirs(d)
            SOURCE.write(d)
        else:
            ws = make_workspace(d, f'kind-{i}', {'id': b'%d' % i, 'code/deep/f': b''}, {'x/o': b'o%d' % i})
            ws.load('base', source)
            sut.reset()
            if kind == 'renamed':
                os.rename(os.path.join(d, '.bead-meta'), os.path.join(d, '.bead-Meta'))
            elif kind != 'workspace':
                how, part = kind.split(' ')
                p = os.path.join(d, part)
                if part == 'input':
                    writable(p)
                    for s in os.listdir(p):
                        writable(os.path.join(p, s))
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
                if how == 'other':
                    if part == '.bead-meta/bead':
                        os.mkdir(p)
                    else:
                        with open(p, 'w') as f:
                            f.write('{}')
    return paths


def is_workspace(d):
    """By the documentation of workspaces"""
    return all(os.path.isdir(os.path.join(d, p)) for p in PARTS[:3]) and os.path.isfile(os.path.join(d, PARTS[4]))


def enclosing(d, root):
    while len(d) >= len(root):
        if is_workspace(d):
            return d
        d = os.path.dirname(d)
    return None


def run(plan, ctx):
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    w = World(os.path.join(ctx.dir, 'w'))
    box = os.path.join(ctx.dir, 'the-box')
    w.configure_boxes([('box', box)])
    SOURCE.write(box)
    NEWER.write(box)
    root = os.path.realpath(w.home)
    paths = build(plan, root, ZipArchive(Path(os.path.join(box, SOURCE.file_name))))
    for c in plan['commands']:
        alive = [p for p in paths if os.path.isdir(p)]
        one(c, ctx, w, root, box, paths, alive)
    ctx.executions(len(plan['commands']))


def one(c, ctx, w, root, box, paths, alive):
    base = alive[c['node'] % len(alive)] if c['node'] >= 0 and alive else root
    cwd = os.path.normpath(os.path.join(base, c['sub']))
    if not os.path.isdir(cwd):
        cwd = base
    explicit = None
    how = c['explicit']
    if how == 'node' and alive:
        explicit = alive[c['target'] % len(alive)]
    elif how == 'relative' and alive:
        explicit = os.path.relpath(alive[c['target'] % len(alive)], cwd)
    elif how in ('.', '..'):
        explicit = how
    elif how == 'missing':
        explicit = 'missing'
    elif how == 'sub' and alive:
        explicit = os.path.join(alive[c['target'] % len(alive)], 'output')
    if explicit:
        target = os.path.normpath(os.path.join(cwd, explicit))
        found = target if is_workspace(target) else None
    else:
        found = enclosing(cwd, root)
    others = [p for p in paths if p != found and found and (found.startswith(p + '/') or p.startswith(found + '/'))]
    ctx.nontrivial(others or not found and (explicit or cwd != root))
    run_in = cwd
    if c['link'] and not (explicit and not os.path.isabs(explicit)):
        # the same directory by another way
        run_in = os.path.join(ctx.dir, 'way')
        if os.path.lexists(run_in):
            os.remove(run_in)
        os.symlink(cwd, run_in)
    cmd = c['cmd']
    opt = ['-w', explicit] if explicit else []
    args = {'status': ['status', *opt], 'save': ['save', 'box', *opt], 'add': ['input', 'add', 'new', 'source', *opt],
            'delete': ['input', 'delete', 'base', *opt], 'unload': ['input', 'unload', 'base', *opt], 'load': ['input', 'load', *opt],
            'update': ['input', 'update', 'base', *opt], 'discard': ['discard'] + ([explicit] if explicit else []),
            'discard arg': ['nuke'] + ([explicit] if explicit else [])}[cmd]
    before = snapshot(root)
    box_before = snapshot(box)
    inputs = recorded_inputs(found) if found else {}
    what = f'{args} in {os.path.relpath(cwd, root)}, workspace should be {found and os.path.relpath(found, root)}'
    if cmd in ('delete', 'unload', 'update') and found and 'base' not in inputs:
        ctx.label('no such input')
        args, cmd = ['status', *opt], 'status'
    r = w.cli(*args, cwd=run_in)
    expect(r.exc is None, f'{what}: crash', r)
    after, box_after = snapshot(root), snapshot(box)
    ctx.label(cmd, 'explicit' if explicit else 'by directory', 'found' if found else 'none')
    if cmd != 'save':
        expect_same(box_before, box_after, f'{what}: box')
    if cmd == 'status':
        expect(r.ok or not found, f'{what}: failed', r)
        names = [line for line in r.out.splitlines() if line.startswith('Bead Name:')]
        expect_eq(names, [f'Bead Name: {os.path.basename(found)}'] if found else [], what)
        expect_same(before, after, what)
        return
    if not found:
        expect(r.refused, f'{what}: should be refused', r)
        expect_same(before, after, what)
        expect_same(box_before, box_after, what)
        return
    expect(r.ok, f'{what}: failed', r)
    rel = os.path.relpath(found, root)
    if cmd == 'save':
        expect_same(before, after, what)
        new = sorted(set(box_after) - set(box_before))
        new = [n for n in new if n.endswith('.zip')]
        expect_eq(len(new), 1, f'{what}: new files in the box')
        expect(new[0].startswith(os.path.basename(found) + '_'), f'{what}: saved as {new[0]}')
        entries = dict(read_zip(os.path.join(box, new[0])))
        with open(os.path.join(found, 'id'), 'rb') as f:
            expect_eq(entries.get('code/id'), f.read(), f'{what}: the saved workspace')
        return
    if cmd.startswith('discard'):
        want = {k: v for k, v in before.items() if k != rel and not k.startswith(rel + '/')}
        expect_same(want, after, what)
        return
    mine = (f'{rel}/input', f'{rel}/.bead-meta/bead')
    changed = [k for k, _, _ in diff(before, after) if not (k in mine or k.startswith(mine[0] + '/'))]
    expect(not changed, f'{what}: changed {changed[:10]}')
    now = recorded_inputs(found)
    data = os.path.join(found, 'input', 'new' if cmd == 'add' else 'base')
    expect_eq(os.path.isdir(data), cmd in ('add', 'load', 'update') and ('base' in inputs or cmd != 'load'), f'{what}: input data')
    if cmd == 'add':
        expect_eq(now, {**inputs, 'new': NEWER.ref}, what)
    elif cmd == 'delete':
        expect_eq(now, {n: i for n, i in inputs.items() if n != 'base'}, what)
    elif cmd == 'update':
        expect_eq(now, {**inputs, 'base': NEWER.ref}, what)
    else:
        expect_eq(now, inputs, what)
