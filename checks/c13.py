"""C13 side effects of commands."""
import os
import shutil

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, World, content_of, diff, format_ts, make_workspace, snapshot
from core import Violation, short

TECHNIQUE = 'stateful property-based testing (Hypothesis): snapshots of everything around each command'
RULE = ('histories of commands over workspaces full of links, odd permissions and look-alike neighbours; '
        'non-trivial: at least one removing command (discard, unload, delete, update of loaded data) that succeeded '
        'in a workspace with links to elsewhere')
QUICK = 2000
THOROUGH = 150000

T0 = 1388534400 * 10**6
TARGETS = ['out/file', 'out/ro', 'out/dir', 'out/rodir', 'out/rodir/x', 'box0', 'BEAD', 'nowhere', 'other/output', 'other', 'SELF', '..']
# the index with the files SQLite keeps next to it
INDEX_FILES = ['.index.sqlite' + x for x in ('', '-journal', '-wal', '-shm')]
# other things somebody keeps in the directory of a box
NEIGHBOURS = ['notes.txt', 'data.sqlite', '.backup.sqlite', '.index.sqlite.bak', '.index.sqlite-2020', '.index', 'index.sqlite', 'broken.zip',
              'b_20200101T000000000000+0000.zip.part', 'x.tmp', '.b.zip', '.other.sqlite-journal', 'index.db', 'x.zip', 'x_20200101.zip', 'x_20200101T000000000000+0000.zip', 'y_19990101T000000000000+0000.zip', 'old']
NEIGHBOUR_KINDS = ['text', 'empty', 'empty', 'read-only', 'old', 'copy', 'directory', 'link', 'dangling', 'pipe']
PLACES = ['code', 'sub/deep/er', 'output', 'temp', 'temp/a/b', 'INPUT', '.hidden']


def strategy(tier):
    mode = st.sampled_from([0o644, 0o755, 0o444, 0o600, 0o400, 0o777, 0o000, 0o555])
    node = st.one_of(
        st.tuples(st.just('file'), st.sampled_from(PLACES), st.integers(0, 3), mode, gen.small_contents()),
        st.tuples(st.just('dir'), st.sampled_from(PLACES), st.integers(0, 3), st.sampled_from([0o755, 0o555, 0o500, 0o700, 0o777])),
        st.tuples(st.just('link'), st.sampled_from(PLACES), st.integers(0, 3), st.integers(0, len(TARGETS) - 1), st.booleans()),
        st.tuples(st.just('link'), st.sampled_from(PLACES), st.integers(0, 3), st.integers(0, len(TARGETS) - 1), st.booleans()),
        st.tuples(st.just('hard'), st.sampled_from(PLACES), st.integers(0, 3), st.sampled_from(['out/file', 'out/ro', 'out/rodir/x', 'BEAD'])),
    ).map(list)
    nick = st.sampled_from(['b', 'n', 'link'])
    i = st.integers(0, 3)
    where = st.sampled_from(['-w', 'in', 'sub', 'link'])
    op = st.one_of(
        st.tuples(st.just('save'), where),
        st.tuples(st.just('add'), where, nick, i),
        st.tuples(st.just('add'), where, nick, i),
        st.tuples(st.just('load'), where, st.one_of(st.none(), nick)),
        st.tuples(st.just('update'), where, st.one_of(st.none(), nick), st.sampled_from(['', '--next', '--prev', 'path'])),
        st.tuples(st.just('unload'), where, st.one_of(st.none(), nick)),
        st.tuples(st.just('unload'), where, nick),
        st.tuples(st.just('delete'), where, nick),
        st.tuples(st.just('discard'), where, st.booleans()),
        st.tuples(st.just('discard-other'), st.sampled_from(['out/dir', 'broken', 'nowhere', 'ws-link', 'box0'])),
        st.tuples(st.just('edit'), i, st.sampled_from(['fresh', 'other', 'out/dir', 'ws', 'wsx', '']), st.booleans()),
        st.tuples(st.just('new'), st.sampled_from(['fresh2', 'other', 'ws', 'out/dir', 'out/fresh', 'broken'])),
        st.tuples(st.just('status'), where, st.booleans()),
        st.tuples(st.just('box'), st.sampled_from([['list'], ['index', '--all'], ['reindex', '--all'], ['index', '--box', 'box1'],
                                                    ['forget', 'box1'], ['add', 'box1', 'BOX1'], ['add', 'new', 'out/dir'], ['forget', 'none']])),
        st.tuples(st.just('box'), st.sampled_from([['index', '--all'], ['reindex', '--all'], ['index', '--box', 'box0']])),
        st.tuples(st.just('web'), st.sampled_from([['save', 'web.web'], ['color', 'heads', 'dot', 'web.dot'], ['/', 'b', '..', '/', 'save', 'web.web'],
                                                    ['load', 'web.web', 'dot', 'web.dot'], ['load', 'nowhere', 'save', 'web.web']])),
        st.tuples(st.just('linkinput'), nick, st.sampled_from(['out/dir', 'out/rodir', 'other/output', 'nowhere'])),
    ).map(list)
    return st.fixed_dictionaries({
        'nodes': st.lists(node, max_size=10),
        'outnodes': st.lists(st.tuples(st.sampled_from(['out/dir', 'out/rodir', 'wsx', 'other', 'other/output']), st.integers(0, 3), mode).map(list), max_size=5),
        'neighbours': st.lists(st.tuples(st.integers(0, 1), st.one_of(st.sampled_from(NEIGHBOURS), st.sampled_from([n for n in NEIGHBOURS if n.endswith('.zip')])),
                                         st.sampled_from(NEIGHBOUR_KINDS)).map(list), max_size=5),
        'indexed': st.tuples(st.booleans(), st.booleans()).map(list),
        'ops': st.lists(op, min_size=1, max_size=9),
    })


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    dirs = [w.path('box0'), w.path('box1')]
    w.configure_boxes([('box0', dirs[0]), ('box1', dirs[1])])
    beads = []
    for i in range(4):
        b = RefBead(['b', 'b', 'b', 'n'][i], ['kind-b', 'kind-n'][i == 3], format_ts(T0 + i * 10**9),
                    code={'c': b'%d' % i}, output={'out': b'%d' % i, 'd/e': b'x'})
        b.path = b.write(dirs[i % 2])
        os.chmod(b.path, [0o644, 0o444, 0o400, 0o666][i])
        beads.append(b)
    out = w.mkdir('out')
    for box, n, what in plan['neighbours']:
        neighbour(os.path.join(dirs[box], n), what, beads[3].path, w.path('out/file'))
    for name, data in (('file', b'f'), ('ro', b'r'), ('dir/a', b'a'), ('dir/sub/b', b'b'), ('rodir/x', b'x')):
        os.makedirs(os.path.dirname(os.path.join(out, name)), exist_ok=True)
        with open(os.path.join(out, name), 'wb') as f:
            f.write(data)
    w.mkdir('wsx'), w.mkdir('broken', 'input'), w.mkdir('broken', 'output')
    other = make_workspace(w.path('other'), 'kind-other', {'keep': b'k'}, {'keep': b'k'})
    assert other.is_valid
    for d, n, mode in plan['outnodes']:
        p = w.path(d, f'n{n}')
        if not os.path.lexists(p):
            with open(p, 'wb') as f:
                f.write(b'n')
            os.chmod(p, mode)
    os.chmod(w.path('out/ro'), 0o444)
    os.chmod(w.path('out/rodir/x'), 0o400)
    os.chmod(w.path('out/rodir'), 0o555)
    ws_dir = w.path('ws')
    os.symlink('ws', w.path('ws-link'))

    def make_ws():
        """Returns whether there are links to elsewhere"""
        linked = False
        ws = make_workspace(ws_dir, 'kind-ws', {'keep': b'k', 'sub/keep': b'k'}, {'keep': b'k'})
        for node in plan['nodes']:
            kind, place, n = node[:3]
            place = {'INPUT': 'input/n', 'code': ''}.get(place, place)
            d = os.path.join(ws_dir, place)
            p = os.path.join(d, f'n{n}')
            try:
                os.makedirs(d, exist_ok=True)
            except OSError:
                continue            # a file is there
            if os.path.lexists(p):
                continue
            if kind == 'file':
                with open(p, 'wb') as f:
                    f.write(content_of(node[4]))
                os.chmod(p, node[3])
            elif kind == 'dir':
                os.mkdir(p)
                os.chmod(p, node[3])
            elif kind == 'hard':
                os.link(beads[1].path if node[3] == 'BEAD' else w.path(node[3]), p)
                linked = True
            else:
                target = TARGETS[node[3]]
                if target in ('SELF', '..') and place.split('/')[0] not in ('temp', 'input'):
                    continue        # saving such a workspace would never end
                full = {'SELF': p, '..': ws_dir, 'BEAD': beads[1].path}.get(target) or w.path(target)
                os.symlink(os.path.relpath(full, d) if node[4] else full, p)
                linked = True
        if os.path.isdir(os.path.join(ws_dir, 'input/n')):
            ws.add_input('n', *beads[3].ref)
        return linked
    linked = make_ws()
    for box, indexed in enumerate(plan['indexed']):
        if indexed:
            w.must('box', 'index', '--box', f'box{box}')
    index = [f'home/{d}/{n}' for d in ('box0', 'box1', 'out/dir') for n in INDEX_FILES]

    for op in plan['ops']:
        if not os.path.isdir(ws_dir):
            linked = make_ws()
        kind = op[0]
        what = str(op)
        ctx.label(kind)
        if kind == 'linkinput':
            # somebody puts links to other data in place of the data of an input
            p = os.path.join(ws_dir, 'input', op[1])
            if not os.path.lexists(p):
                os.chmod(os.path.join(ws_dir, 'input'), 0o755)
                os.symlink(w.path(op[2]), p)
                other_ws(ws_dir).add_input(op[1], *beads[0].ref)
                linked = True
            continue
        before = snapshot(w.base)
        args, cwd = [], None
        if len(op) > 1 and op[1] in ('-w', 'in', 'sub', 'link'):
            args = {'-w': ['-w', ws_dir], 'link': ['-w', w.path('ws-link')]}.get(op[1], [])
            cwd = {'in': ws_dir, 'sub': os.path.join(ws_dir, 'sub')}.get(op[1])
        nick = op[2] if kind in ('add', 'load', 'update', 'unload', 'delete') else None
        names = [nick] if nick else []
        inputs = ['home/ws/input/' + n for n in (names or ['b', 'n', 'link'])]
        meta = ['home/ws/.bead-meta/bead']
        gone = []
        # allowed: may change in any way (with everything below); only_self: the directory itself
        if kind == 'save':
            r = w.cli('save', 'box0', *args, cwd=cwd)
            new = [n for n in os.listdir(dirs[0]) if f'home/box0/{n}' not in before and n not in INDEX_FILES]
            expect_eq(len(new), 1 if r.ok else 0, f'{what}: new files in the box: {new} {r}')
            allowed = ['home/box0/' + n for n in new] + [i for i in index if i.startswith('home/box0/')]
        elif kind in ('add', 'load', 'update', 'unload', 'delete'):
            extra = []
            if kind == 'add':
                extra = [beads[op[3]].path] if op[3] % 2 else [beads[op[3]].name]
            elif kind == 'update' and op[3]:
                extra = [beads[0].path] if op[3] == 'path' else [op[3]]
            r = w.cli('input', kind, *names, *extra, *args, cwd=cwd)
            allowed = inputs + ([] if kind == 'unload' else meta)
            if kind in ('delete', 'unload'):
                present = [i for i in inputs if i in before]
                defined = [n for n in names or ['b', 'n', 'link'] if n in recorded(before)]
                if kind == 'unload' or nick in defined:
                    gone = [i for i in present if i.split('/')[-1] in defined and is_dir(w.base, before, i)]
                    expect(r.ok, what, r)
                    ctx.nontrivial(linked and gone)
            elif kind == 'update' and r.ok:
                ctx.nontrivial(linked and any(i in before for i in inputs))
        elif kind == 'discard':
            force = ['-f'] if op[2] else []
            a = [ws_dir] if op[1] == '-w' else [w.path('ws-link')] if op[1] == 'link' else []
            r = w.cli('discard', *force, *a, cwd=cwd)
            expect(r.ok, what, r)
            allowed = gone = ['home/ws']
            ctx.nontrivial(linked)
        elif kind == 'discard-other':
            r = w.cli('discard', w.path(op[1]))
            allowed = []
            if op[1] == 'ws-link':
                expect(r.ok, what, r)
                allowed = gone = ['home/ws']
            else:
                expect(r.refused, f'{what}: not a workspace', r)
        elif kind == 'edit':
            target = op[2]
            r = w.cli('edit', *(['--review'] if op[3] else []), '-t', beads[op[1]].freeze_time, beads[op[1]].name, *([w.path(target)] if target else []))
            allowed = ['home/' + (target or beads[op[1]].name)]
            if allowed[0] in before:
                expect(r.refused, what, r)
                allowed = []
        elif kind == 'new':
            r = w.cli('new', w.path(op[1]))
            allowed = ['home/' + op[1]]
            if allowed[0] in before:
                expect(r.refused, what, r)
                allowed = []
        elif kind == 'status':
            r = w.cli('status', *(['-v'] if op[2] else []), *args, cwd=cwd)
            expect(r.ok, what, r)
            allowed = []
        elif kind == 'box':
            a = [dirs[1] if x == 'BOX1' else w.path(x) if '/' in x else x for x in op[1]]
            r = w.cli('box', *a)
            allowed = [] if a[0] == 'list' else index if 'index' in a[0] else ['config']
        elif kind == 'web':
            r = w.cli('web', *op[1])
            allowed = ['home/' + op[1][-1]]
        ctx.executions(1)
        after = snapshot(w.base)
        for path in gone:
            expect(path not in after, f'{what}: {path} should be removed by now', r)
        parents = {'home/ws/input'} if kind in ('add', 'load', 'update', 'unload', 'delete') else set()
        bad = [d for d in diff(before, after)
               if not any(d[0] == a or d[0].startswith(a + '/') for a in allowed)
               and not (d[0] in parents and d[0] in after)]
        if bad:
            raise Violation(f'{what}: changed something else as well: {short(bad, 2500)}\n{r}')


def neighbour(path, what, bead, elsewhere):
    """Something in the directory of a box"""
    if os.path.lexists(path):
        return
    if what == 'directory':
        os.mkdir(path)
        shutil.copyfile(bead, os.path.join(path, 'x_20010101T000000000000+0000.zip'))
    elif what in ('link', 'dangling'):
        os.symlink(elsewhere if what == 'link' else 'nowhere', path)
    elif what == 'pipe':
        os.mkfifo(path)
    elif what == 'copy':
        shutil.copyfile(bead, path)
    else:
        with open(path, 'w') as f:
            f.write('' if what == 'empty' else 'theirs')
        if what == 'read-only':
            os.chmod(path, 0o400)
        elif what == 'old':
            os.utime(path, (10**9, 10**9))


def other_ws(d):
    from bead.workspace import Workspace
    return Workspace(d)


def recorded(snap):
    import json
    return json.loads(snap['home/ws/.bead-meta/bead'][2])['inputs']


def is_dir(base, snap, rel):
    if snap[rel][0] != 'link':
        return snap[rel][0] == 'dir'
    target = os.path.relpath(os.path.join(base, os.path.dirname(rel), snap[rel][2]), base)
    return snap.get(target, ('',))[0] == 'dir'
