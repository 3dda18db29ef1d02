"""C04 extraction is confined to its target."""
import os
import stat
import warnings
import zipfile

from hypothesis import strategies as st

import gen
from sut import (RefBead, World, content_of, make_workspace, ref_dumps, ref_hash, reset, snapshot, tree_of, expect_same,
                 META_VERSION)

RULE = ('archives with consistent manifests and hostile entry or input names, extracted by commands and by the API next to files '
        'that must survive; non-trivial: some entry or input name leads outside of the target when joined to it naively, or poses as a link')
QUICK = 9000
THOROUGH = 300000
LEVEL = 'exploration'

TIME = '20200102T030405000006+0000'
DEEP = ['d1', 'd2', 'd3', 'd4', 'd5', 'd6']
ABS = '@'       # stands for the absolute path of the scratch directory
COMMANDS = ['edit', 'edit-path', 'review', 'review-path', 'add', 'add-path', 'load', 'update', 'update-path', 'api-code', 'api-data',
            'api-all', 'edit-load']


def strategy(tier):
    part = st.one_of(
        st.sampled_from(['..', '..', '..', '.', '', 'a', 'b', 'ws', 'victim', 'user', '.bead-meta', 'bead', 'input', 'output',
                         'temp', '...', '.. ', ' ..', '..\\..', '\\..\\x', 'in', 'nick', '~', '%2e%2e']),
        gen.components())
    path = st.one_of(
        st.lists(part, min_size=1, max_size=6),
        # enough ups to get out, then something that exists there
        st.tuples(st.integers(1, 5), st.lists(st.sampled_from(['victim', 'user', 'own', '.bead-meta', 'bead', 'input', 'new', 'bead.zip']),
                                              min_size=1, max_size=3)).map(lambda t: ['..'] * t[0] + t[1]),
        st.tuples(st.lists(st.sampled_from(['a', 'b', '.']), min_size=1, max_size=3), st.integers(1, 5)).map(
            lambda t: t[0] + ['..'] * t[1] + ['victim']),
        st.lists(st.sampled_from(['victim', 'home', 'new', 'abs']), min_size=1, max_size=3).map(lambda t: [ABS] + t),
    ).filter(lambda p: sum(x == '..' for x in p) <= 6)
    # no separators here, but elsewhere
    windows = path.filter(lambda p: ABS not in p).map(lambda p: ['\\'.join(p)]).filter(lambda p: p[0])
    entry = st.tuples(
        st.sampled_from(['code', 'code', 'data', 'data', 'meta', 'input', '']),
        st.one_of(path, path, path, path, windows), gen.small_contents(), st.sampled_from([0, 0, 0, 0, 1, 2])).map(list)
    nick = st.one_of(gen.bead_names(), st.sampled_from(
        ['..', '.', '../..', '../../x', '../../../victim', 'a/b', '/abs', '', '../output', '../.bead-meta', '..\\x', 'x/../../y', '@', '@/made', '@/home/made',
         '../../victim/x', '../temp/x', '../../../d6', '../made', '../../made', '../' * 9 + 'made']))
    link = st.tuples(
        st.sampled_from(['code', 'data']), st.sampled_from(['l', 'l', 'd/l', 'victim']),
        st.sampled_from(['@', '@/home', '@/victim', '@/made', '@/box', '..', '../..', '../../..', '../../../..', '../../victim', '../../../victim', '.']),
        st.lists(st.sampled_from(['victim', 'own', 'made', 'l', 'user', 'x']), max_size=2)).map(list)
    hostile = st.sampled_from(['..', '../made', '@', '@/made', '@/victim', 'a/b', '../../../made', '../made_bead', '../../../made_bead', '@/made_bead', '../victim_bead', '@/home/bead'])
    return st.fixed_dictionaries({
        'freeze_name': st.one_of(st.just('bead'), st.just('bead'), hostile),
        'kind': st.one_of(*[st.just('the-kind')] * 4, hostile), 'input kind': st.one_of(*[st.just('in-kind')] * 4, hostile),
        'links': st.one_of(st.just([]), st.just([]), st.just([]), st.lists(link, min_size=1, max_size=2)),
        'command': st.sampled_from(COMMANDS),
        'good': gen.entries(2, depth=2, content=gen.small_contents()),
        'entries': st.lists(entry, max_size=4),
        'nicks': st.lists(nick, max_size=2, unique=True),
        'file_name': st.sampled_from(['bead', 'bead', 'bead', 'bead', '..', '.', '...', '.. ', '~', '-', 'x__y', 'victim']),
        'manifest': st.sampled_from(['full', 'full', 'full', 'partial']),
        'indexed': st.sampled_from([False, False, True]),
    })


EXAMPLES = [
    {'command': c, 'good': [[['g'], 'x']], 'entries': [[area, p, 'evil', 0]], 'nicks': [], 'file_name': 'bead', 'manifest': 'full',
     'indexed': False, 'links': []}
    for c in ('review', 'add', 'load', 'api-all', 'update-path')
    for area in ('code', 'data')
    for p in (['..', 'victim'], ['..\\..\\..\\made'], ['..\\made'], ['a\\..\\..\\..\\victim'], [ABS, 'victim'], ['a', '..', '..', '..', 'new'], ['', '..', 'x'], ['.', '..', '..', 'victim'])
] + [
    {'command': 'edit-load', 'good': [[['g'], 'x']], 'entries': [], 'nicks': [n], 'file_name': 'bead', 'manifest': 'full', 'indexed': False, 'links': []}
    for n in ('..', '../../victim', '../output', '@', '@/made', '../../made')
] + [
    {'command': c, 'good': [[['g'], 'x']], 'entries': [], 'nicks': [], 'file_name': 'bead', 'manifest': 'full', 'indexed': False,
     'links': [[area, 'l', target, below]]}
    for area in ('code', 'data')
    for c in ('review', 'add', 'api-all')
    for target, below in (('@', ['victim']), ('@', ['made']), ('@/victim', []), ('@/made', []), ('../..', ['victim']))
] + [
    {'command': c, 'good': [[['g'], 'x']], 'entries': [['', ['b'], 'y', 0]] * n, 'nicks': [], 'file_name': 'bead', 'manifest': 'full', 'indexed': False,
     'links': [], key: value}
    for c in ('edit', 'add', 'load') for n in (0, 1) for key in ('freeze_name', 'kind') for value in ('../made_bead', '@/made_bead', '../../made')
]


def outside(parts):
    depth = 0
    for i, p in enumerate(parts):
        if p == ABS or (p == '' and i == 0):
            return True
        if p == '..':
            depth -= 1
            if depth < 0:
                return True
        elif p not in ('', '.'):
            depth += 1
    return False


def text(plan, key, default, base):
    """A text in the metadata"""
    return plan.get(key, default).replace('@', base)


def build(path, plan, base, good):
    items = [(f'code/{p}', b, 0) for p, b in good.items()] + [(f'data/{p}', b, 0) for p, b in good.items()]
    names = {n for n, _, _ in items}
    for area, parts, content, special in plan['entries']:
        parts = [base if p == ABS else p for p in parts]
        name = '/'.join(([area] if area else []) + parts)
        if name and name not in names and not name.startswith('meta/bead') and name != 'meta/manifest':
            names.add(name)
            items.append((name, content_of(content), special))
    for area, name, target, below in plan['links']:
        # something that says to be a symbolic link, then a file to be written through it
        n = f'{area}/{name}'
        if n not in names:
            items.append((n, target.replace('@', base).encode(), 1))
            names.add(n)
        # (an archive can have the same name twice)
        items.append(('/'.join([n] + below), b'through the link', 0))
        names.add('/'.join([n] + below))
    inputs = {n.replace('@', base): {'kind': text(plan, 'input kind', 'in-kind', base), 'content_id': INPUT.content_id, 'freeze_time': INPUT.freeze_time}
              for n in plan['nicks']}
    meta = ref_dumps({'meta_version': META_VERSION, 'kind': text(plan, 'kind', 'the-kind', base), 'freeze_time': TIME, 'freeze_name': text(plan, 'freeze_name', 'bead', base),
                      'inputs': inputs}).encode()
    items.append(('meta/bead', meta, 0))
    manifest = {n: ref_hash(b) for n, b, _ in items
                if plan['manifest'] == 'full' or not any(x in n for x in ('..', '//'))}
    manifest = ref_dumps(manifest).encode()
    items.append(('meta/manifest', manifest, 0))
    with zipfile.ZipFile(path, 'w') as z:
        for n, b, special in items:
            zi = zipfile.ZipInfo('x', (2020, 1, 1, 0, 0, 0))
            zi.filename = zi.orig_filename = n
            if special == 1:    # says that it is a symbolic link
                zi.create_system = 3
                zi.external_attr = (stat.S_IFLNK | 0o777) << 16
            elif special == 2:
                zi.create_system = 3
                zi.external_attr = (stat.S_IFDIR | 0o777) << 16 | 0x10
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                z.writestr(zi, b)
    return ref_hash(manifest)


INPUT = RefBead('in', 'in-kind', '20190102T030405000006+0000', code={'c': b'code'}, output={'loaded': b'input data', 'd/e': b'!'})


def run(plan, ctx):
    w = World(ctx.dir)
    base = w.base
    boxdir = os.path.join(base, 'box')
    deep = w.mkdir(*DEEP)
    # things that must survive on every level above the targets
    d = deep
    while len(d) >= len(base):
        for n in ('victim', 'own'):
            with open(os.path.join(d, n), 'w') as f:
                f.write('precious')
        d = os.path.dirname(d)
    os.makedirs(os.path.join(deep, 'input'))
    os.makedirs(boxdir)
    user_dir = os.path.join(deep, 'user')
    names = [n.replace('@', base) for n in plan['nicks']]
    user = make_workspace(user_dir, 'user-kind', {'own': b'file', 'victim': b'v'}, {'own': b'o', 'victim': b'v'})
    INPUT.write(boxdir)
    good = tree_of(plan['good'])
    name = plan['file_name']
    path = os.path.join(boxdir, f'{name}_{TIME}.zip')
    cid = build(path, plan, base, good)
    kind = text(plan, 'kind', 'the-kind', base)
    user.add_input('orig', kind, cid, TIME)
    user.add_input('older', kind, 'unavailable', '20190101T000000000000+0000')
    w.configure_boxes([('box', boxdir)])
    if plan['indexed']:
        w.must('box', 'index')
    hostile = any(outside(p) for area, p, _, _ in plan['entries'] if area in ('code', 'data')) \
        or any('/' in n or n in ('..', '.', '') for n in names) or plan['links']
    hostile = bool(hostile or any('@' in n or '/' in n for n in (plan.get('freeze_name', ''), plan.get('kind', ''), plan.get('input kind', ''))))
    ctx.nontrivial(hostile)
    ctx.label('command: ' + plan['command'], 'hostile' if hostile else 'harmless')

    target = os.path.join(deep, 'new')
    command = plan['command']
    before = snapshot(base)
    allowed = [os.path.relpath(target, base)]

    def relevant(snap):
        return {k: v for k, v in snap.items() if k != 'config' and not any(k == a or k.startswith(a + os.sep) for a in allowed)}

    def check(what):
        expect_same(relevant(before), relevant(snapshot(base)), f'files outside of the target of {what}')
    if command in ('edit', 'edit-path', 'review', 'review-path', 'edit-load'):
        ref = path if command.endswith('path') else name
        if name.startswith('-'):
            ref = path
        args = ['edit', ref] + (['--review'] if 'review' in command else [])
        derived = len(plan['entries']) % 2 == 1
        if not derived:
            args.insert(2, target)
        else:
            allowed = [os.path.relpath(os.path.join(deep, name), base)]
            if name in ('.', '..', 'victim'):
                allowed = []
        r = w.cli(*args, cwd=deep)
        if command == 'edit-load':
            new = os.path.join(deep, name) if derived else target
            if os.path.isdir(os.path.join(new, '.bead-meta')):
                ctx.label('edited, then loaded')
                check(command)
                w.cli('input', 'load', '-w', new, cwd=deep)
                check('input load')
                for n in names:
                    for args in (['input', 'load', n], ['input', 'update', n], ['input', 'update', n, 'in'], ['status'],
                                 ['input', 'unload', n], ['input', 'add', n, 'in'], ['input', 'delete', n]):
                        w.cli(*args, '-w', new, cwd=deep)
                        check(' '.join(args))
        if not hostile and r.ok:
            ctx.label('harmless one extracted')
    elif command.startswith('api'):
        from bead.exceptions import InvalidArchive
        from bead.tech.fs import Path
        from bead.workspace import Workspace
        from bead.ziparchive import ZipArchive
        try:
            archive = ZipArchive(Path(path))
            if command == 'api-code':
                archive.unpack_code_to(Path(target))
            elif command == 'api-data':
                archive.unpack_data_to(Path(target))
            else:
                archive.unpack_to(Workspace(target))
                archive.unpack_data_to(Path(target) / 'output')
        except Exception as e:
            if not isinstance(e, InvalidArchive):
                ctx.label('extraction fails: ' + type(e).__name__)
        reset()
    else:
        nick = {'add': 'nick', 'add-path': 'nick', 'load': 'orig', 'update': 'older', 'update-path': 'older'}[command]
        ref = path if command.endswith('path') or name.startswith('-') else name
        args = {'add': ['input', 'add', nick, ref], 'load': ['input', 'load', nick], 'update': ['input', 'update', nick],
                'update-path': ['input', 'update', nick, path]}[command if command != 'add-path' else 'add']
        r = w.cli(*args, cwd=user_dir)
        allowed = [os.path.relpath(os.path.join(user_dir, 'input', nick), base),
                   os.path.relpath(os.path.join(user_dir, '.bead-meta', 'bead'), base)]
        if not hostile and r.ok:
            ctx.label('harmless one extracted')

    check(command)
