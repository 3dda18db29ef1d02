"""C20 identity and input references of beads through histories of commands."""
import json
import os

from hypothesis import strategies as st

import gen
from core import Violation, expect, expect_eq
from sut import (RefBead, World, bead_key, format_ts, parse_ts, read_tree, read_zip, ref_hash, reset, tree_of, workspace_meta, write_tree)

TECHNIQUE = 'model-based stateful testing (Hypothesis): histories of commands against a model of workspaces and beads'
RULE = ('histories of up to 16 new, edit, change, rename, copy, save, input and discard commands over several workspaces, two boxes '
        '(with or without an index) and foreign beads; non-trivial: a bead with inputs was edited and saved again')
QUICK = 1300
THOROUGH = 60000
ROUND = 100

T0 = 1388534400 * 10**6
# valid, though not what is written now
TIMES = ['09990101T000000000000+0000', '00010101T000000000001+0000', '20140101T000000000000-0000', '99991231T235959999999+0000', '20141231T235959999999-2359']
NICKS = ['a', 'i n', 'é', 'B.c', '[x]']


def strategy(tier):
    small = st.integers(0, 20)
    op = st.one_of(
        st.tuples(st.just('new'), small, small),
        st.tuples(st.just('edit'), small, small), st.tuples(st.just('edit'), small, small), st.tuples(st.just('edit'), small, small),
        st.tuples(st.just('change'), small, small),
        st.tuples(st.just('save'), small, small), st.tuples(st.just('save'), small, small), st.tuples(st.just('save'), small, small), st.tuples(st.just('save'), small, small),
        st.tuples(st.just('add'), small, small), st.tuples(st.just('add'), small, small), st.tuples(st.just('add'), small, small),
        st.tuples(st.sampled_from(['load', 'load all', 'unload', 'unload all', 'delete', 'update', 'update all', 'status']), small, small),
        st.tuples(st.sampled_from(['load', 'load all', 'unload', 'unload all', 'delete', 'update', 'update all', 'status']), small, small),
        st.tuples(st.sampled_from(['rename', 'copy', 'discard', 'reindex']), small, small)).map(list)
    return st.fixed_dictionaries({
        'names': st.lists(gen.simple_names(), min_size=3, max_size=4, unique=True),
        'foreign': st.lists(st.tuples(st.integers(0, 3), gen.kinds(), st.integers(0, 3), gen.offsets(), st.integers(0, 1)).map(list), max_size=3),
        'indexed': st.lists(st.booleans(), min_size=2, max_size=2),
        'ops': st.lists(op, min_size=6, max_size=16),
    })


# kinds of new beads, made by many processes at the same time
EXAMPLES = [{'processes': 8, 'kinds': 20000}]


class Ws:
    def __init__(self, directory, kind, inputs, code, generation=0):
        self.directory, self.kind, self.inputs, self.code = directory, kind, dict(inputs), dict(code)
        self.output = {}
        self.generation = generation

    @property
    def name(self):
        return os.path.basename(self.directory)


class Stored:
    """A bead as remembered by the model"""

    def __init__(self, box, path, name, kind, inputs, code, output, generation):
        self.box, self.path, self.name, self.kind, self.inputs, self.code, self.output = box, path, name, kind, dict(inputs), code, output
        self.generation = generation
        entries = dict(read_zip(path))
        meta = json.loads(entries['meta/bead'])
        self.content_id = ref_hash(entries['meta/manifest'])
        self.freeze_time = meta['freeze_time']
        self.time = parse_ts(self.freeze_time)
        for key, want in (('kind', kind), ('freeze_name', name)):
            expect_eq(meta[key], want, f'{key} in the archive of {name!r}')
        expect_eq({n: (i['kind'], i['content_id'], i['freeze_time']) for n, i in meta['inputs'].items()}, self.inputs, f'inputs in the archive of {name!r}')

    @property
    def ref(self):
        return (self.kind, self.content_id, self.freeze_time)

    def key(self):
        return (self.name, self.kind, self.content_id, self.freeze_time, tuple(sorted((n, *s) for n, s in self.inputs.items())))


class History:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w = World(os.path.join(ctx.dir, 'w'))
        self.boxes = [os.path.join(ctx.dir, f'box{i}') for i in range(2)]
        self.w.configure_boxes([(f'box{i}', d) for i, d in enumerate(self.boxes)])
        self.names = plan['names']
        self.spaces, self.beads, self.kinds, self.n = [], [], set(), 0
        self.left = []
        for k, (name, kind, nin, offset, box) in enumerate(plan['foreign']):
            inputs = {NICKS[j]: (f'unknown-{j}', f'{j + 16:02x}' * 64, TIMES[(name + k) % len(TIMES)] if j % 2 else format_ts(T0 + j * 1_111_111, offset))
                      for j in range(nin)}
            b = RefBead(self.names[name % len(self.names)], kind, format_ts(T0 + k * 10_000_000, offset), inputs, {'f': b'%d' % k}, {'o': b'x%d' % k})
            p = b.write(self.boxes[box])
            self.beads.append(Stored(box, p, b.name, kind, inputs, b.code, b.output, 0))
            self.kinds.add(kind)
        for i, indexed in enumerate(plan['indexed']):
            if indexed:
                self.w.must('box', 'index', '--box', f'box{i}')

    def pick(self, items, k):
        return items[k % len(items)] if items else None

    def newest(self, beads):
        return max(beads, key=lambda b: b.time, default=None)

    def free_dir(self, name):
        while True:
            self.n += 1
            d = self.w.path(f'd{self.n}', name)
            if not os.path.exists(d):
                os.makedirs(os.path.dirname(d))
                return d

    def run(self):
        for op, a, b in self.plan['ops']:
            self.ctx.label(op)
            getattr(self, 'do_' + op.replace(' ', '_'))(a, b)
            self.check_workspaces(f'after {op}')
        self.check_beads()

    # --- checks
    def check_workspaces(self, what):
        from bead.workspace import Workspace
        for ws in self.spaces:
            m = workspace_meta(ws.directory)
            expect_eq(m['kind'], ws.kind, f'{what}: kind of workspace {ws.name!r}')
            got = {n: (i['kind'], i['content_id'], i['freeze_time']) for n, i in m['inputs'].items()}
            expect_eq(got, ws.inputs, f'{what}: inputs of workspace {ws.name!r}')
            api = Workspace(ws.directory)
            expect_eq((str(api.name), api.kind, sorted((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in api.inputs)),
                      (ws.name, ws.kind, sorted((n, *i) for n, i in ws.inputs.items())), f'{what}: the workspace object of {ws.name!r}')

    def check_beads(self):
        from bead.box import Box
        from bead.box_rawfs import RawFilesystemResolver
        from bead.tech.fs import Path
        from bead.ziparchive import ZipArchive
        for i, d in enumerate(self.boxes):
            want = sorted(b.key() for b in self.beads if b.box == i)
            box = Box(f'box{i}', Path(d))
            got = list(box.all_beads())
            expect_eq(sorted(map(bead_key, got)), want, f'beads of box {i} ({"indexed" if self.plan["indexed"][i] else "not indexed"})')
            expect_eq(sorted(map(bead_key, RawFilesystemResolver(Path(d)).get_beads([], 'x'))), want, f'beads of box {i} without index')
            expect_eq(sorted(bead_key(box.resolve(b)) for b in got), want, f'archives of the beads of box {i}')
        for b in self.beads:
            archive = ZipArchive(b.path)
            expect_eq(bead_key(archive), b.key(), f'the archive {b.path}')
            expect_eq(archive.freeze_time, b.time, f'freeze time of {b.path}')
            for i in archive.inputs:
                expect_eq(i.freeze_time, parse_ts(b.inputs[i.name][2]), f'freeze time of input {i.name!r} of {b.path}')
        reset()

    # --- commands
    def do_new(self, a, b):
        d = self.free_dir(self.pick(self.names, a))
        if b % 3 == 0 and self.left:
            # there was a workspace, but not any more
            d = self.left.pop(a % len(self.left))
            self.ctx.label('new in the place of another')
        self.w.must('new', d)
        kind = workspace_meta(d)['kind']
        expect(kind not in self.kinds, f'kind of a new bead was used before: {kind}')
        self.kinds.add(kind)
        self.spaces.append(Ws(d, kind, {}, {}))

    def do_edit(self, a, b):
        bead = self.pick(self.beads, a)
        if bead is None:
            return self.do_new(a, b)
        review = ['--review'] if b % 4 == 0 else []
        how = b % 3
        if how == 0:        # by file, into a directory of any name
            d = self.free_dir(self.pick(self.names, b))
            self.w.must('edit', *review, bead.path, d)
        else:
            bead = self.newest([x for x in self.beads if x.name == bead.name])
            if how == 1:
                d = self.free_dir(bead.name)
                self.w.must('edit', *review, bead.name, cwd=os.path.dirname(d))
            else:
                d = self.free_dir(self.pick(self.names, b))
                self.w.must('edit', *review, bead.name, d)
        ws = Ws(d, bead.kind, bead.inputs, bead.code, bead.generation + 1)
        ws.output = dict(bead.output) if review else {}
        self.spaces.append(ws)

    def do_change(self, a, b):
        ws = self.pick(self.spaces, a)
        if ws:
            files = {f'f{b % 3}': b'%d' % b, f'dir/g{b}': b''}
            write_tree(ws.directory, files)
            write_tree(ws.directory, {f'output/o{b % 2}': b'%d' % a, f'temp/{b}': b'-'})
            ws.code.update(files)
            ws.output[f'o{b % 2}'] = b'%d' % a

    def do_save(self, a, b):
        ws = self.pick(self.spaces, a)
        if ws is None:
            return self.do_new(a, b)
        box = b % 2
        before = set(os.listdir(self.boxes[box]))
        if b % 3:
            self.w.must('save', f'box{box}', '-w', ws.directory)
        else:
            self.w.must('save', f'box{box}', cwd=os.path.join(ws.directory, 'input' if b % 2 else '.'))
        new = [f for f in os.listdir(self.boxes[box]) if f not in before and f.endswith('.zip')]
        expect_eq(len(new), 1, f'new files in the box after save: {new}')
        s = Stored(box, os.path.join(self.boxes[box], new[0]), ws.name, ws.kind, ws.inputs, dict(ws.code), dict(ws.output), ws.generation)
        for other in self.beads:
            expect(other.time < s.time, f'{other.path} is not older than {s.path} saved later')
        self.beads.append(s)
        self.ctx.nontrivial(ws.generation and ws.inputs)
        if ws.generation > 1:
            self.ctx.label('saved after being edited repeatedly')

    def do_add(self, a, b):
        ws, bead = self.pick(self.spaces, a), self.pick(self.beads, b)
        if ws is None:
            return self.do_new(a, b)
        if bead is None:
            return
        nick = NICKS[(a + b) % len(NICKS)]
        if (a + b) % 3:
            bead = self.newest([x for x in self.beads if x.name == bead.name])
            self.w.must('input', 'add', nick, bead.name, '-w', ws.directory)
        else:
            self.w.must('input', 'add', nick, bead.path, cwd=ws.directory)
        ws.inputs[nick] = bead.ref

    def some_input(self, a, b):
        ws = self.pick([x for x in self.spaces if x.inputs], a)
        return (ws, self.pick(sorted(ws.inputs), b)) if ws else (None, None)

    def do_load(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'load', nick, '-w', ws.directory)
            known = [x for x in self.beads if x.content_id == ws.inputs[nick][1]]
            expect_eq(os.path.isdir(os.path.join(ws.directory, 'input', nick)), bool(known), f'input {nick!r} is loaded')

    def do_load_all(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'load', cwd=ws.directory)

    def do_unload(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'unload', nick, '-w', ws.directory)

    def do_unload_all(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'unload', '-w', ws.directory)

    def do_delete(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'delete' if b % 2 else 'rm', nick, '-w', ws.directory)
            del ws.inputs[nick]

    def do_update(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            new = self.newest([x for x in self.beads if x.kind == ws.inputs[nick][0]])
            r = self.w.cli('input', 'update', nick, '-w', ws.directory)
            expect(r.ok == bool(new) and not r.exc, f'update of {nick!r}, expected {new and new.path}:', r)
            if new:
                ws.inputs[nick] = new.ref

    def do_update_all(self, a, b):
        ws, nick = self.some_input(a, b)
        if ws:
            self.w.must('input', 'update', '-w', ws.directory)
            for nick, (kind, _, _) in ws.inputs.items():
                new = self.newest([x for x in self.beads if x.kind == kind])
                if new:
                    ws.inputs[nick] = new.ref

    def do_status(self, a, b):
        ws = self.pick(self.spaces, a)
        if ws:
            out = self.w.must('status', '-v', cwd=ws.directory).out
            expect(f'Bead kind: {ws.kind}\n' in out, 'kind in the status:', out)
            for nick, (kind, cid, t) in ws.inputs.items():
                expect(kind in out and cid in out and t in out, f'{kind} {cid} {t} in the status:', out)

    def do_rename(self, a, b):
        ws = self.pick(self.spaces, a)
        if ws:
            d = self.free_dir(self.pick(self.names, b))
            os.rename(ws.directory, d)
            self.left.append(ws.directory)
            ws.directory = d

    def do_copy(self, a, b):
        import shutil
        ws = self.pick(self.spaces, a)
        if ws:
            d = self.free_dir(self.pick(self.names, b))
            shutil.copytree(ws.directory, d)
            copy = Ws(d, ws.kind, ws.inputs, ws.code, ws.generation)
            copy.output = dict(ws.output)
            self.spaces.append(copy)

    def do_discard(self, a, b):
        ws = self.pick(self.spaces, a)
        if ws:
            self.w.must('discard', ws.directory)
            self.spaces.remove(ws)
            self.left.append(ws.directory)

    def do_reindex(self, a, b):
        self.w.must('box', 'reindex' if a % 2 else 'index', '--box', f'box{b % 2}')


KINDS = '''
import sys
sys.stdin.read()
try:
    from bead.tech.identifier import uuid
except ImportError:
    # made some other way
    sys.exit(0)
print(*[uuid() for _ in range(int(sys.argv[1]))], sep='\\n')
'''


def new_kinds(plan, ctx):
    import subprocess
    import sys
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    ps = [subprocess.Popen([sys.executable, '-c', KINDS, str(plan['kinds'])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
          for _ in range(plan['processes'])]
    for p in ps:
        p.stdin.close()
    seen = set()
    for p in ps:
        kinds = p.stdout.read().split()
        expect_eq(p.wait(), 0, 'exit status')
        same = seen.intersection(kinds)
        expect(not same and len(set(kinds)) == len(kinds), 'kinds generated repeatedly, by several processes:', sorted(same)[:3])
        seen.update(kinds)
    ctx.executions(plan['processes'])
    ctx.label('many processes')
    ctx.nontrivial(True)


def run(plan, ctx):
    if 'processes' in plan:
        return new_kinds(plan, ctx)
    h = History(plan, ctx)
    h.run()
    ctx.executions(len(plan['ops']))
