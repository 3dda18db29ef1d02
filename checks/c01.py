"""C01 save / edit round trip."""
import contextlib
import os
import zipfile

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import World, expect_same, expect_tree, read_zip, snapshot, tree_of, write_tree

RULE = ('random file trees (code, output, temp, stray input files, links) saved and edited through the command line; '
        'non-trivial: at least 3 files, among them code and output, and one nested, odd-named, empty, large or old one')
QUICK = 4000
THOROUGH = 150000


def strategy(tier):
    return st.fixed_dictionaries({
        'name': gen.simple_names(),
        'code': gen.code_entries(6),
        'output': gen.entries(4),
        'temp': gen.entries(2, content=gen.small_contents()),
        'stray': gen.entries(2, content=gen.small_contents()),
        'links': st.lists(st.tuples(st.sampled_from(['code', 'output']), gen.components(),
                                    st.integers(0, 5), st.booleans()).map(list), max_size=2),
        'compression': st.sampled_from([None, None, 'off', 'stored', 'deflated', 'nonsense']),
        'mtime': st.sampled_from([None, None, None, 0, 1, 315532799, 315532800, 1700000001, 4354819199, 4354819300]),
        'mode': st.sampled_from([None, None, 0o400, 0o444, 0o755]),
        'ref': st.sampled_from(['name', 'name', 'path', 'moved']),
        'target': st.sampled_from([None, None, 'somewhere', 'deep/er', 'dotted.dir']),
        'from': st.sampled_from(['inside', 'explicit', 'sub']),
        'named_box': st.sampled_from([False, False, True]),
        'indexed': st.sampled_from([False, False, False, True]),
        'review': st.sampled_from([[True], [True], [False], [False, True]]),
        'exists': st.sampled_from([None] * 6 + ['dir', 'file', 'full']),
        # what one plain zip file can hold: the smaller the limit, the smaller an archive is "beyond 4 GiB"
        'limit': st.sampled_from([None] * 6 + [[5000, 2], [5000, 9], [100000, 3]]),
    })


EXAMPLES = [
    {'name': 'a', 'code': [[['c'], 'x']], 'output': [[['o'], 'y']], 'temp': [], 'stray': [], 'links': [],
     'compression': None, 'mtime': 0, 'mode': None, 'ref': 'name', 'target': None, 'from': 'inside',
     'named_box': False, 'indexed': False, 'review': [False, True], 'exists': None, 'limit': None},
    # many files, deep directories
    {'name': 'a', 'code': [[['d'] * 150 + ['f'], 'x'], *([[f'c{i % 30}', f'{i}'], f'{i}'] for i in range(1500))],
     'output': [[['e'] * 150 + ['g'], 'y'], *([[f'{i}'], ''] for i in range(1500))], 'temp': [], 'stray': [], 'links': [],
     'compression': None, 'mtime': None, 'mode': None, 'ref': 'name', 'target': None, 'from': 'inside',
     'named_box': False, 'indexed': True, 'review': [True], 'exists': None, 'limit': [5000, 500]},
]


@contextlib.contextmanager
def plain_zip_limits(limit):
    '''
    Let zip files need their 64 bit form as soon as they are bigger or have more members than limit.
    (The first limit is large enough for the zipfile module's 5 % safety margin to cover compression overhead.)
    '''
    old = zipfile.ZIP64_LIMIT, zipfile.ZIP_FILECOUNT_LIMIT
    if limit is not None:
        zipfile.ZIP64_LIMIT, zipfile.ZIP_FILECOUNT_LIMIT = limit
    try:
        yield
    finally:
        zipfile.ZIP64_LIMIT, zipfile.ZIP_FILECOUNT_LIMIT = old


def run(plan, ctx):
    w = World(ctx.dir)
    name = plan['name']
    code, output = tree_of(plan['code']), tree_of(plan['output'])
    temp, stray = tree_of(plan['temp']), tree_of(plan['stray'])
    box, other = os.path.join(w.base, 'boxes', 'box'), os.path.join(w.base, 'boxes', 'other')
    w.configure_boxes([('box', box)] + ([('other', other)] if plan['named_box'] else []))
    if plan['indexed']:
        w.must('box', 'index', '--box', 'box')
    w.must('new', name)
    ws = w.path(name)

    write_tree(ws, code, plan['mtime'])
    write_tree(os.path.join(ws, 'output'), output, plan['mtime'])
    write_tree(os.path.join(ws, 'temp'), temp)
    os.chmod(os.path.join(ws, 'input'), 0o755)
    write_tree(os.path.join(ws, 'input'), stray)
    os.chmod(os.path.join(ws, 'input'), 0o555)
    for where, link, n, is_dir in plan['links']:
        files = code if where == 'code' else output
        root = ws if where == 'code' else os.path.join(ws, 'output')
        if not files or link in gen.RESERVED_TOP or any(p.split('/')[0] == link for p in files):
            continue
        target = sorted(files)[n % len(files)]
        if is_dir:
            target = target.split('/')[0]
            if not os.path.isdir(os.path.join(root, target)) or target in gen.RESERVED_TOP:
                continue
            files.update({link + p[len(target):]: b for p, b in list(files.items()) if p.startswith(target + '/')})
        else:
            files[link] = files[target]
        os.symlink(os.path.join(root, target) if n % 2 else target, os.path.join(root, link))
        ctx.label('link')
    if plan['mode'] is not None:
        for p in code:
            if not os.path.islink(os.path.join(ws, p)):
                os.chmod(os.path.join(ws, p), plan['mode'])

    before = snapshot(ws)
    if plan['compression']:
        os.environ['BEAD_ZIP_COMPRESSION'] = plan['compression']
    sub = os.path.join(ws, 'temp', '.sub')
    box_arg = ['box'] if plan['named_box'] else []
    with plain_zip_limits(plan['limit']):
        if plan['from'] == 'inside':
            w.must('save', *box_arg, cwd=ws)
        elif plan['from'] == 'explicit':
            w.must('save', *box_arg, '-w', ws)
        else:
            os.makedirs(sub, exist_ok=True)
            before = snapshot(ws)
            w.must('save', *box_arg, cwd=sub)
    expect_same(before, snapshot(ws), 'save changed the workspace')

    zips = [f for f in os.listdir(box) if f != '.index.sqlite']
    expect(len(zips) == 1, 'save must create exactly one file in the box:', zips)
    if plan['named_box']:
        expect_eq(os.listdir(other), [], 'files in the other box')
    archive = os.path.join(box, zips[0])
    stored = read_zip(archive)
    want = {f'code/{p}': b for p, b in code.items()}
    want.update({f'data/{p}': b for p, b in output.items()})
    got = [(n, b) for n, b in stored if n not in ('meta/bead', 'meta/manifest')]
    expect_eq(sorted(n for n, _ in got), sorted(want), 'archived paths')
    for n, b in got:
        expect(b == want[n], 'archived content differs:', repr(n))

    ref = name
    if plan['ref'] == 'path':
        ref = archive
    elif plan['ref'] == 'moved':
        moved = os.path.join(w.base, 'moved.zip')
        os.rename(archive, moved)
        ref, archive = moved, moved
    derived = 'moved' if plan['ref'] == 'moved' else name

    for review in plan['review']:
        where = w.mkdir('edit-review' if review else 'edit')
        target = os.path.join(where, plan['target'] or derived)
        args = ['--review'] if review else []
        if plan['target']:
            os.makedirs(os.path.dirname(target), exist_ok=True)
            args = [ref, plan['target']] + args
        else:
            args = args + [ref]
        if plan['exists']:
            if plan['exists'] == 'file':
                write_tree(where, {os.path.relpath(target, where): b'precious'})
            else:
                os.makedirs(target)
                if plan['exists'] == 'full':
                    write_tree(target, {'precious': b'1', 'output/precious': b'2'})
            b4 = snapshot(where)
            r = w.cli('edit', *args, cwd=where)
            expect(r.refused or (r.exc and plan['exists'] == 'file'),
                   'edit into something existing must be refused:\n', r)
            expect_same(b4, snapshot(where), 'refused edit')
            ctx.label('exists')
            continue
        w.must('edit', *args, cwd=where)
        expect(os.path.isdir(target), 'edit did not create', target)
        files = dict(code)
        if review:
            files.update({f'output/{p}': b for p, b in output.items()})
        meta = open(os.path.join(target, '.bead-meta', 'bead'), 'rb').read()
        files['.bead-meta/bead'] = meta
        expect_tree(target, files, 'edit --review' if review else 'edit')
        for d in ('input', 'output', 'temp'):
            expect(os.path.isdir(os.path.join(target, d)), 'missing directory', d)
        expect_eq(sorted(os.listdir(where)), sorted({os.path.relpath(target, where).split('/')[0]}), 'edit created')

    sizes = [len(b) for b in [*code.values(), *output.values()]]
    odd = [p for p in [*code, *output] if '/' in p or not p.isascii() or p.startswith('.')]
    if any(s > 2**20 for s in sizes):
        ctx.label('file > 1 MiB')
    if any(s == 0 for s in sizes):
        ctx.label('empty file')
    if any(set(p.split('/')[1:]) & gen.RESERVED_TOP for p in code):
        ctx.label('reserved name nested in code')
    if plan['mtime'] is not None and plan['mtime'] < 315532800:
        ctx.label('mtime before 1980')
    if plan['indexed']:
        ctx.label('indexed')
    if plan['limit'] is not None and (sum(sizes) > plan['limit'][0] or len(sizes) > plan['limit'][1]):
        ctx.label('beyond plain zip limits')
    ctx.label('ref by ' + plan['ref'])
    ctx.nontrivial(len(sizes) >= 3 and code and output
                   and (odd or 0 in sizes or max(sizes) > 8192 or plan['mtime'] == 0))
