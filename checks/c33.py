"""C33 size of beads."""
import hashlib
import os
import subprocess
import sys

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import Result, World, workspace_meta

TECHNIQUE = 'property-based testing (Hypothesis) of real processes with limited memory, working with generated big files and many files'
RULE = ('histories of save, edit, input and box commands with files of up to 80 MB (sparse, periodic or irregular, one of more than 2 GiB) and up to 66000 files, '
        'each command in a process that may use 24 MB more than what it needs to start; non-trivial: a file or a bead larger than that')
QUICK = 36
THOROUGH = 4000
ROUND = 12

MB = 2**20
ALLOWED = 24 * MB

COMMAND = '''
import resource, sys
import bead_cli.main
import sqlite3, zipfile, json, tempfile, zlib, bead.box_index
allowed = int(sys.argv.pop(1))
if allowed:
    with open('/proc/self/status') as f:
        used = next(int(line.split()[1]) * 1024 for line in f if line.startswith('VmData:'))
    resource.setrlimit(resource.RLIMIT_DATA, (used + allowed, used + allowed))
sys.argv[0] = 'bead'
bead_cli.main.main()
'''


def strategy(tier):
    big = st.one_of(st.tuples(st.sampled_from([30, 40, 50, 65, 80]), st.integers(0, 2)), st.tuples(st.integers(1, 40), st.integers(0, 2))).map(list)
    op = st.one_of(
        st.tuples(st.just('edit'), st.booleans(), st.booleans()), st.tuples(st.just('edit'), st.just(True), st.booleans()),
        st.tuples(st.just('add'), st.booleans()), st.tuples(st.just('add'), st.booleans()),
        st.tuples(st.sampled_from(['unload', 'load', 'update', 'delete', 'status', 'web', 'index', 'reindex'])),
        st.tuples(st.sampled_from(['load', 'update', 'save again']))).map(list)
    return st.fixed_dictionaries({
        'output': st.lists(big, min_size=1, max_size=2), 'code': st.lists(big, max_size=1),
        'many': st.sampled_from([0, 0, 0, 10, 1000, 2500]), 'depth': st.integers(1, 6), 'compression': st.sampled_from([None, None, 'off']),
        'index': st.booleans(), 'ops': st.lists(op, min_size=1, max_size=4)})


EXAMPLES = [
    # more than what simple zip files can have
    {'output': [[0, 0]], 'code': [], 'many': 66000, 'depth': 2, 'compression': None, 'index': False, 'ops': [['edit', True, False]], 'free': True},
    {'output': [[2200, 0]], 'code': [], 'many': 1, 'depth': 1, 'compression': None, 'index': False, 'ops': [['edit', False, False]]},
    {'output': [[80, 1], [60, 2]], 'code': [[50, 1]], 'many': 1000, 'depth': 3, 'compression': None, 'index': True,
     'ops': [['edit', True, True], ['add', True], ['unload'], ['load'], ['save again'], ['update'], ['status'], ['web'], ['reindex']]},
]


def block(k, i):
    """Irregular, half of it can be compressed"""
    h = hashlib.sha256(b'%d %d' % (k, i)).digest()
    return (hashlib.shake_128(h).digest(1024) + h * 32) * 512


def write_big(path, mb, pattern, salt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        if pattern == 0:
            # mostly a hole
            f.truncate(max(mb * MB - 13, 0))
            f.seek(0, 2)
            f.write(b'%d' % salt)
        else:
            for i in range(mb):
                f.write(block(salt, i if pattern == 2 else i % 7))
            f.write(b'x' * (pattern - 1))


def digests(root):
    res = {}
    for d, _, files in os.walk(root):
        for n in files:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                res[os.path.relpath(p, root)] = os.fstat(f.fileno()).st_size, hashlib.file_digest(f, 'blake2b').hexdigest()
    return res


class User:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w = World(os.path.join(ctx.dir, 'w'))
        self.box = os.path.join(ctx.dir, 'box')
        self.w.configure_boxes([('box', self.box)])
        self.env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        self.env.update(HOME=self.w.home, XDG_CONFIG_HOME=os.path.join(ctx.dir, 'cfg'), PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        self.env.pop('BEAD_ZIP_COMPRESSION', None)
        if plan['compression']:
            self.env['BEAD_ZIP_COMPRESSION'] = plan['compression']

    def must(self, *args, cwd=None):
        p = subprocess.run([sys.executable, '-c', COMMAND, '0' if self.plan.get('free') else str(ALLOWED), *args], cwd=cwd or self.w.home,
                           env=self.env, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        self.ctx.executions(1)
        expect(p.returncode == 0, f'command failed, with {ALLOWED // MB} MB of memory:\n', Result(list(args), p.returncode, p.stdout, p.stderr, None))
        return p.stdout + p.stderr


def run(plan, ctx):
    u = User(plan, ctx)
    w = u.w
    u.must('box', 'add', 'box', u.box)
    data = w.path('data')
    u.must('new', data)
    for n, (mb, pattern) in enumerate(plan['output']):
        write_big(os.path.join(data, 'output', *['d'] * (n % plan['depth']), f'big{n}'), mb, pattern % 3, n)
    for n, (mb, pattern) in enumerate(plan['code']):
        write_big(os.path.join(data, *['src'] * (plan['depth'] - 1), f'big{n}'), mb, pattern % 3, n + 100)
    if plan['many']:
        os.makedirs(os.path.join(data, 'output', 'many'), exist_ok=True)
    for n in range(plan['many']):
        with open(os.path.join(data, 'output', 'many', str(n)), 'w') as f:
            f.write(str(n) if n % 3 else '')
    size = max([mb for mb, _ in plan['output'] + plan['code']])
    ctx.nontrivial(size * MB > ALLOWED or plan['many'] > 10000)
    ctx.label('files larger than memory' if size * MB > ALLOWED else '', 'thousands of files' if plan['many'] > 999 else '')
    if plan['index']:
        u.must('box', 'index')
    code, output = contents(data)
    u.must('save', 'box', cwd=data)
    expect_eq(contents(data) == (code, output), True, 'the workspace is the same after save')
    versions = [(code, output)]
    user, loaded, has = w.path('user'), None, False
    u.must('new', user)
    for n, (op, *how) in enumerate(plan['ops']):
        ctx.label(op)
        what = f'{n}: {op} {how}'
        code, output = versions[-1]
        if op == 'edit':
            review, by_file = how
            ref = max(os.path.join(u.box, f) for f in os.listdir(u.box) if f.endswith('.zip')) if by_file else 'data'
            d = w.path(f'copy{n}')
            u.must('edit', *(['--review'] if review else []), ref, d)
            got = contents(d)
            expect(got[0] == code, f'{what}: code differs')
            expect(got[1] == (output if review else {}), f'{what}: output differs: {list(got[1].items())[:3]}')
            u.must('discard', d)
        elif op == 'add':
            if not has:
                u.must('input', 'add', 'in', 'data', cwd=user)
                has, loaded = True, output
        elif op == 'unload':
            u.must('input', 'unload', cwd=user)
            loaded = None
        elif op == 'load' and has:
            u.must('input', 'load', 'in', cwd=user)
            # what is recorded: it may be an older version
            loaded = next(o for i, (c, o) in enumerate(versions) if i == u.recorded)
        elif op == 'update' and has:
            u.must('input', 'update', 'in', cwd=user)
            loaded = output
        elif op == 'delete' and has:
            u.must('input', 'delete', 'in', cwd=user)
            has, loaded = False, None
        elif op == 'status':
            out = u.must('status', '-v', '-w', user)
            expect(not has or 'Bead:        data #' in out, f'{what}: bead is not found:', out)
        elif op == 'web':
            out = u.must('web', 'save', w.path('x.web'))
        elif op in ('index', 'reindex'):
            u.must('box', op)
        elif op == 'save again':
            with open(os.path.join(data, 'output', f'more{n}'), 'w') as f:
                f.write(what)
            versions.append(contents(data))
            u.must('save', 'box', '-w', data)
        if has and op in ('add', 'update') and loaded is output:
            u.recorded = len(versions) - 1
        d = os.path.join(user, 'input', 'in')
        expect_eq(os.path.isdir(d), loaded is not None, f'{what}: is the input loaded')
        if loaded is not None and op in ('add', 'update', 'load'):
            expect(digests(d) == loaded, f'{what}: loaded data differs')
        expect_eq(set(workspace_meta(user)['inputs']), {'in'} if has else set(), f'{what}: inputs')


def contents(workspace):
    """Code and output"""
    files = digests(workspace)
    output = {p.removeprefix('output/'): h for p, h in files.items() if p.startswith('output/')}
    code = {p: h for p, h in files.items() if p.split('/')[0] not in gen.RESERVED_TOP}
    return code, output
