"""C30 boxes that can not be accessed."""
import json
import os
import re
import shutil

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, World, bead_key, expect_same, format_ts, make_workspace, read_zip, recorded_inputs, reset, snapshot, workspace_meta

TECHNIQUE = 'metamorphic property-based testing (Hypothesis): the same commands with a box that can not be accessed and with an empty one instead'
RULE = ('histories of commands over 2-4 boxes, one or two of which are missing, unmounted, replaced or without permissions; non-trivial: a box that can not be '
        'accessed had a bead that at least one command would have used')
QUICK = 700
THOROUGH = 60000
ROUND = 100

T0 = 1577836800 * 10**6
# how a box can become inaccessible
PERMISSIONS = ['dir 000', 'dir 444', 'dir 644', 'dir 300', 'parent 000', 'parent 644', 'index 000']
OTHERS = ['gone', 'parent gone', 'file', 'dangling', 'loop', 'unmounted', 'parent is file']
NAMES = ['a', 'b', 'c']


def strategy(tier):
    name = st.sampled_from(NAMES)
    bead = st.fixed_dictionaries({
        'name': name, 'kind': st.integers(0, 2), 'time': st.integers(0, 6), 'inputs': st.lists(st.integers(0, 8), max_size=2),
        'boxes': st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)})
    time = st.one_of(st.none(), st.none(), st.integers(-1, 7))
    step = st.one_of(
        st.tuples(st.just('edit'), name, time), st.tuples(st.just('add'), name, name, time), st.tuples(st.just('add'), name, name, time),
        st.tuples(st.sampled_from(['load', 'unload', 'update', 'next', 'prev', 'delete']), st.one_of(name, name, st.none())),
        st.tuples(st.sampled_from(['status', 'web', 'list', 'index', 'reindex', 'index one', 'new', 'save bad', 'save good', 'forget', 'add again', 'add new']), st.integers(0, 3))).map(list)
    return st.fixed_dictionaries({
        'n': st.integers(2, 4),
        'beads': st.lists(bead, min_size=2, max_size=7),
        'indexed': st.lists(st.booleans(), min_size=4, max_size=4),
        'bad': st.lists(st.tuples(st.integers(0, 3), st.sampled_from(PERMISSIONS + PERMISSIONS + OTHERS)).map(list), min_size=1, max_size=2),
        'ws inputs': st.lists(st.tuples(name, st.integers(0, 6), st.booleans()).map(list), max_size=3, unique_by=lambda t: t[0]),
        'steps': st.lists(step, min_size=2, max_size=7),
    })


_BEADS = [{'name': 'a', 'kind': 0, 'time': 1, 'inputs': [], 'boxes': [0, 1]}, {'name': 'a', 'kind': 0, 'time': 2, 'inputs': [], 'boxes': [1]},
          {'name': 'b', 'kind': 1, 'time': 3, 'inputs': [0], 'boxes': [0]}, {'name': 'b', 'kind': 1, 'time': 1, 'inputs': [1], 'boxes': [1, 2]}]
_STEPS = [['status', 0], ['load', None], ['add', 'c', 'a', None], ['update', None], ['edit', 'b', None], ['web', 0], ['list', 0], ['new', 0], ['save good', 0],
          ['save bad', 0], ['index', 0], ['status', 0], ['add new', 0], ['forget', 0], ['edit', 'a', None]]
EXAMPLES = [{'n': 3, 'beads': _BEADS, 'indexed': [i, i, False, False], 'bad': [[1, bad]], 'ws inputs': [['a', 0, False], ['b', 2, True]],
             'steps': _STEPS} for i in (False, True) for bad in PERMISSIONS + OTHERS]


def make_bad(d, how):
    """Make a directory inaccessible; returns what makes it accessible again"""
    parent = os.path.dirname(d)
    what, _, mode = how.partition(' ')
    away = d + '.away'
    if what in ('dir', 'parent', 'index') and mode.isdigit():
        path = {'dir': d, 'parent': parent, 'index': os.path.join(d, '.index.sqlite')}[what]
        if not os.path.lexists(path):
            # no index in this box
            path = d
        os.chmod(path, int(mode, 8))
        return lambda: os.chmod(path, 0o644 if what == 'index' and path != d else 0o755)
    if what == 'parent':
        d, away = parent, parent + '.away'
    os.rename(d, away)
    if how in ('file', 'parent is file'):
        with open(d, 'w'):
            pass
    elif how in ('dangling', 'loop'):
        os.symlink('nowhere' if how == 'dangling' else os.path.basename(d), d)
    elif how == 'unmounted':
        os.mkdir(d)

    def restore():
        if os.path.isdir(d) and not os.path.islink(d):
            # whatever has been put there meanwhile
            shutil.rmtree(d)
        elif os.path.lexists(d):
            os.unlink(d)
        os.rename(away, d)
    return restore


def masked(text):
    """Without the times of beads saved by the commands (all others are in 2020)"""
    return re.sub(r'(?!2020)[0-9]{8}T[0-9]{12}[-+][0-9]{4}', 'TIME', text)


class Side:
    """One of the two worlds: with inaccessible boxes, or with empty ones instead"""

    def __init__(self, plan, ctx, accessible):
        self.plan, self.ctx = plan, ctx
        self.root = os.path.join(ctx.dir, 'w')
        self.w = World(self.root)
        n = plan['n']
        self.dirs = [os.path.join(ctx.dir, 'boxes', f'p{i}', 'box') for i in range(n)]
        self.bad = {i % n: how for i, how in plan['bad']}
        if len(self.bad) == n:
            self.bad.popitem()
        for i, how in self.bad.items():
            if how == 'dir 300' and plan['indexed'][i]:
                # the beads are found with the index
                self.bad[i] = 'dir 000'
        self.good = [i for i in range(n) if i not in self.bad]
        self.w.configure_boxes([(f'box{i}', d) for i, d in enumerate(self.dirs)])
        self.pool, self.where = [], []
        for i, s in enumerate(plan['beads']):
            inputs = {}
            for k in s['inputs']:
                if self.pool:
                    b = self.pool[k % len(self.pool)]
                    inputs[b.name] = b.ref
            b = RefBead(s['name'], f'kind{s["kind"]}', format_ts(T0 + s['time'] * 10**9 + i), inputs, {'c': b'%d' % i}, {'o': b'out %d' % i})
            self.pool.append(b)
            self.where.append({k % n for k in s['boxes']})
            for k in self.where[-1]:
                if k in self.good or not accessible:
                    b.write(self.dirs[k])
        for i, d in enumerate(self.dirs):
            if plan['indexed'][i] and (i in self.good or not accessible):
                self.w.must('box', 'index', '--box', f'box{i}')
        self.ws = self.w.path('ws')
        ws = make_workspace(self.ws, 'ws-kind', {'code': b'x'}, {'out': b'y'})
        for nick, k, _ in plan['ws inputs']:
            ws.add_input(nick, *self.pool[k % len(self.pool)].ref)
        for nick, k, loaded in plan['ws inputs']:
            if loaded:
                self.w.cli('input', 'load', nick, '-w', self.ws)
        # loaded as it can be, before: the same on both sides
        for nick, k, loaded in plan['ws inputs']:
            if loaded and not self.where[k % len(self.pool)] & set(self.good) and os.path.isdir(os.path.join(self.ws, 'input', nick)):
                self.w.must('input', 'unload', nick, '-w', self.ws)
        self.before = {i: snapshot(self.dirs[i]) for i in self.bad}
        self.saved = []
        self.restore = [] if accessible else [make_bad(self.dirs[i], how) for i, how in self.bad.items()]
        self.accessible = accessible

    def available(self):
        for f in self.restore:
            f()
        self.restore = []

    def state(self):
        """What can be seen of the world, apart from the boxes that are not there"""
        res = {'home': {p: x if not p.endswith('.web') else None for p, x in snapshot(self.w.home).items()}}
        for i in self.good:
            res[f'box{i}'] = sorted(masked(f) for f in os.listdir(self.dirs[i]))
        with open(os.path.join(self.w.config, 'env.json')) as f:
            res['config'] = f.read()
        return res

    def step(self, n, step):
        """Returns (exit status, what is to be the same)"""
        kind, *args = step
        ws = ['-w', self.ws]
        cli = self.w.cli

        def time(t):
            return [] if t is None else ['-t', '2020-01-01T00:00:00+0000' if t < 0 else _iso(T0 + t * 10**9 + 10**6)]
        if kind == 'edit':
            r = cli('edit', args[0], f'edit{n}', *time(args[1]))
        elif kind == 'add':
            r = cli('input', 'add', *args[:2], *time(args[2]), *ws)
        elif kind in ('load', 'unload', 'update'):
            r = cli('input', kind, *(args if args[0] else ()), *ws)
        elif kind in ('next', 'prev', 'delete'):
            if not args[0]:
                return None
            r = cli('input', 'update', args[0], f'--{kind}', *ws) if kind != 'delete' else cli('input', 'delete', args[0], *ws)
        elif kind == 'status':
            r = cli('status', *(['-v'] if args[0] % 2 else []), *ws)
        elif kind == 'web':
            r = cli('web', 'color', 'save', f'{n}.web')
            if r.ok:
                with open(self.w.path(f'{n}.web')) as f:
                    beads = json.load(f)
                return r, sorted(masked(json.dumps(b, sort_keys=True)) for b in beads if b['content_id'] in {b.content_id for b in self.pool})
        elif kind == 'list':
            r = cli('box', 'list')
        elif kind in ('index', 'reindex'):
            good = self.good[args[0] % len(self.good)]
            r = cli('box', kind, *(('--box', f'box{good}') if args[0] % 2 else ('--all',)))
            return r, None if not args[0] % 2 else r.out
        elif kind == 'index one':
            bad = sorted(self.bad)[args[0] % len(self.bad)]
            r = cli('box', 'index', '--box', f'box{bad}')
            return r, None
        elif kind == 'new':
            r = cli('new', f'new{n}')
            if r.ok:
                # their kind is random
                shutil.rmtree(self.w.path(f'new{n}', '.bead-meta'))
        elif kind == 'save good':
            r = cli('save', f'box{self.good[args[0] % len(self.good)]}', *ws)
        elif kind == 'forget':
            r = cli('box', 'forget', f'box{sorted(self.bad)[args[0] % len(self.bad)]}')
        elif kind == 'add again':
            # the location is in use by a box that is remembered
            r = cli('box', 'add', 'again', self.dirs[self.good[args[0] % len(self.good)]])
        elif kind == 'add new':
            r = cli('box', 'add', f'new-box{n}', self.w.mkdir(f'new-box{n}'))
        return r, masked(r.out)


def _iso(us):
    t = format_ts(us)
    return f'{t[:4]}-{t[4:6]}-{t[6:8]}T{t[9:11]}:{t[11:13]}:{t[13:15]}+0000'


def run(plan, ctx):
    if os.geteuid() == 0:
        # permissions do not matter
        plan['bad'] = [[i, how if how in OTHERS else 'gone'] for i, how in plan['bad']]
    want = []
    side = Side(plan, ctx, accessible=True)
    for n, step in enumerate(plan['steps']):
        res = side.step(n, step) if step[0] != 'save bad' else None
        want.append(res and (res[0].rc, res[0].exc, res[1], side.state()))
        expect(not res or not res[0].exc, 'command crashed:', res and res[0])
    for d in ('w', 'boxes'):
        path = os.path.join(ctx.dir, d)
        make_writable(path)
        shutil.rmtree(path)
    reset()

    side = Side(plan, ctx, accessible=False)
    ctx.label(*(f'box is bad: {how}' for how in side.bad.values()))
    used = {s[1] for s in plan['steps'] if s[0] in ('edit', 'load', 'update', 'next', 'prev')} | {s[2] for s in plan['steps'] if s[0] == 'add'}
    all_used = None in used or {'web', 'status'} & {s[0] for s in plan['steps']}
    ctx.nontrivial(any((all_used or b.name in used) and at & set(side.bad) for b, at in zip(side.pool, side.where)))
    touched = set()
    try:
        for n, step in enumerate(plan['steps']):
            what = f'{side.bad}, step {n}: {step}'
            if step[0] == 'save bad':
                bad = sorted(side.bad)[step[1] % len(side.bad)]
                if side.bad[bad] in ('unmounted', 'dir 300', 'index 000'):
                    # can be written
                    touched.add(bad)
                    continue
                before = side.state()
                r = side.w.cli('save', f'box{bad}', '-w', side.ws)
                expect(not r.ok, f'{what}: saving into an inaccessible box should fail:', r)
                expect_eq(side.state(), before, f'{what}: failed saving changed something')
                continue
            if step[0] in ('index', 'reindex', 'index one'):
                # what can be read and written may get or lose its index
                touched.update(side.bad)
            res = side.step(n, step)
            if res is None:
                continue
            r, shown = res
            expect(not r.exc, f'{what}: command crashed:', r)
            expect_eq((r.rc, shown), (want[n][0], want[n][2]), f'{what}: result')
            got = side.state()
            for k, v in want[n][3].items():
                if isinstance(v, dict):
                    expect_same(v, got[k], f'{what}: {k}')
                else:
                    expect_eq(got[k], v, f'{what}: {k}')
    finally:
        side.available()
    # everything is there again
    for i in side.bad:
        after = snapshot(side.dirs[i])
        if i not in touched:
            expect_same(side.before[i], after, f'{side.bad}: box after having been inaccessible')
        beads = {f: x for f, x in side.before[i].items() if f.endswith('.zip')}
        expect_same(beads, {f: x for f, x in after.items() if f.endswith('.zip')}, f'{side.bad}: beads after having been inaccessible')
        index(side, i)
        from bead.box import Box
        from bead.tech.fs import Path
        box = Box(f'box{i}', Path(side.dirs[i]))
        got = sorted(bead_key(b) for b in box.all_beads())
        expect_eq(got, sorted({b.key() for b, at in zip(side.pool, side.where) if i in at}), f'{side.bad}: beads found after having been inaccessible')
        reset()


def index(side, i):
    if os.path.lexists(os.path.join(side.dirs[i], '.index.sqlite')):
        side.w.must('box', 'index', '--dir', side.dirs[i])


def make_writable(d):
    for p, dirs, files in os.walk(d):
        os.chmod(p, 0o755)
