"""C32 saving while the workspace is being changed."""
import json
import os
import shutil

from hypothesis import strategies as st

import faults
import gen
from core import expect, expect_eq
from sut import Result, World, bead_key, content_of, expect_same, expect_tree, format_ts, make_workspace, parse_ts, read_zip, ref_hash, reset, snapshot

TECHNIQUE = 'property-based testing (Hypothesis) over generated schedules: a save in a real process, stopped between file system operations for changes of its workspace'
RULE = ('a save, stopped at 1-6 generated file system operations, at each of which generated changes are made to files, directories and inputs of the workspace; '
        'non-trivial: the save went on after a change to a file that it has to save')
QUICK = 2500
THOROUGH = 200000

T0 = 1577836800 * 10**6
FILES = ['code', 'sub/code', 'sub/other', 'output/out', 'output/sub/out', 'output/sub/log', 'zz']
CHANGES = ['append', 'append', 'overwrite', 'truncate', 'grow', 'replace', 'replace', 'delete', 'delete', 'add', 'to directory', 'to file', 'rename', 'touch', 'chmod']


def strategy(tier):
    size = st.sampled_from([0, 1, 2, 100, 8191, 8192, 8193, 70000, 70000, 200000])
    k = st.integers(0, len(FILES) - 1)
    change = st.one_of(st.tuples(st.sampled_from(CHANGES), k, st.integers(0, 9)), st.tuples(st.sampled_from(CHANGES), k, st.integers(0, 9)),
                       st.tuples(st.sampled_from(['add input', 'delete input', 'update input', 'update input', 'temp file', 'input data']), k, st.integers(0, 3))).map(list)
    return st.fixed_dictionaries({
        'sizes': st.lists(st.one_of(st.none(), size), min_size=len(FILES), max_size=len(FILES)),
        'input': st.booleans(), 'indexed': st.booleans(), 'compression': st.sampled_from([None, None, 'off', 'deflated']),
        'stops': st.lists(st.tuples(st.one_of(st.integers(1, 40), st.integers(1, 12)), st.lists(change, min_size=1, max_size=3)).map(list), min_size=1, max_size=6)})


# stop it everywhere, with a change of the same kind
EXAMPLES = [{'sizes': [5, None, 0, 100, 70000, None, None], 'input': True, 'indexed': i, 'compression': None, 'stops': [['sweep', [[c, k, 3]]]]}
            for c, k, i in [('append', 0, False), ('overwrite', 0, True), ('append', 4, False), ('overwrite', 4, False), ('truncate', 4, True), ('replace', 4, False), ('delete', 4, True),
                            ('grow', 2, False), ('add', 5, False), ('replace', 0, False), ('to directory', 0, False), ('add input', 0, False), ('update input', 0, False)]]


def run(plan, ctx):
    if plan['stops'][0][0] != 'sweep':
        one(plan, ctx, plan['stops'], ctx.dir)
        return
    for k in range(1, 300):
        d = os.path.join(ctx.dir, str(k))
        os.makedirs(d)
        if one(plan, ctx, [[k, plan['stops'][0][1]]], d):
            return
        shutil.rmtree(d)


class Changes:
    """Changes a workspace, and knows what its files could have been meanwhile"""

    def __init__(self, ws, files):
        self.ws = ws
        # the contents a file had while it was not changed in place; None: was not there; 'any': was changed in place
        self.versions = {f: [files.get(f)] for f in FILES}
        self.inputs = []
        self.renamed = set()
        self.count = 0

    def content(self, n):
        self.count += 1
        return content_of([n, self.count % 10])

    def apply(self, kind, k, arg):
        """-> was something to be saved changed"""
        name = FILES[k]
        path = os.path.join(self.ws, name)
        is_file = os.path.isfile(path)
        v = self.versions[name]
        if kind == 'temp file':
            with open(os.path.join(self.ws, 'temp', name.replace('/', '-')), 'ab') as f:
                f.write(b'temporary')
            return False
        if kind == 'input data':
            return False
        if kind in ('add input', 'delete input', 'update input'):
            meta = os.path.join(self.ws, '.bead-meta', 'bead')
            with open(meta) as f:
                m = json.load(f)
            if kind == 'add input':
                m['inputs'][f'new{self.count}'] = {'kind': 'k', 'content_id': '%0128d' % self.count, 'freeze_time': format_ts(T0 + self.count)}
                self.count += 1
            elif kind == 'update input':
                # all of it changes at once
                if not m['inputs']:
                    return False
                m['inputs'][sorted(m['inputs'])[-1]] = {'kind': f'k{self.count}', 'content_id': '%0128d' % self.count, 'freeze_time': format_ts(T0 + self.count)}
                self.count += 1
            elif m['inputs']:
                m['inputs'].pop(sorted(m['inputs'])[-1])
            with open(meta + '.new', 'w') as f:
                json.dump(m, f)
            os.rename(meta + '.new', meta)
            self.inputs.append(m['inputs'])
            return True
        if kind == 'to file' and os.path.isdir(path):
            shutil.rmtree(path)
            with open(path, 'wb') as f:
                f.write(b'')
            v += [None, b'', 'any']
            return True
        if kind == 'add' or (kind in ('append', 'grow', 'replace') and not is_file):
            if os.path.lexists(path) or not os.path.isdir(os.path.dirname(path)):
                return False
            data = self.content(arg * 7000)
            with open(path + '.new', 'wb') as f:
                f.write(data)
            self.renamed.add(name + '.new')
            os.rename(path + '.new', path)
            v.append(data)
            return True
        if not is_file:
            return False
        size = os.path.getsize(path)
        if kind in ('append', 'grow'):
            with open(path, 'ab') as f:
                f.write(self.content(1 + arg * arg if kind == 'append' else 100000 * (1 + arg)))
            v.append('any')
        elif kind == 'overwrite':
            with open(path, 'r+b') as f:
                f.seek(size * arg // 10)
                f.write(bytes(x ^ 255 for x in self.content(size - size * arg // 10)))
            v.append('any')
        elif kind == 'truncate':
            os.truncate(path, size * arg // 10)
            v.append('any')
        elif kind == 'replace':
            data = self.content(size if arg % 2 else size + arg * 5000)
            with open(path + '.new', 'wb') as f:
                f.write(data)
            self.renamed.add(name + '.new')
            os.rename(path + '.new', path)
            v.append(data)
        elif kind == 'delete':
            os.unlink(path)
            v.append(None)
        elif kind == 'to directory':
            os.unlink(path)
            os.mkdir(path)
            v += [None]
        elif kind == 'rename':
            os.rename(path, path + '.renamed')
            self.renamed.add(name + '.renamed')
            v.append(None)
        elif kind == 'touch':
            os.utime(path, (10**9 + arg, 10**9 + arg))
            return False
        elif kind == 'chmod':
            os.chmod(path, 0o600 + arg % 8)
            return False
        else:
            return False
        return True


def one(plan, ctx, stops, directory):
    """-> did it end before it could have been stopped"""
    root = os.path.join(directory, 'w')
    w = World(root)
    boxdir = os.path.join(root, 'box')
    w.configure_boxes([('box', boxdir)])
    if plan['indexed']:
        w.must('box', 'index')
    files = {f: content_of([s, i]) for i, (f, s) in enumerate(zip(FILES, plan['sizes'])) if s is not None}
    ws = w.path('ws')
    outputs = {f[len('output/'):]: c for f, c in files.items() if f.startswith('output/')}
    space = make_workspace(ws, 'the kind', {f: c for f, c in files.items() if not f.startswith('output/')}, outputs)
    if plan['input']:
        space.add_input('old', 'k', 'a' * 128, format_ts(T0))
    changes = Changes(ws, files)
    with open(os.path.join(ws, '.bead-meta', 'bead')) as f:
        changes.inputs.append(json.load(f)['inputs'])
    box_before = snapshot(boxdir, skip=['.index.sqlite'])
    reset()
    if plan['compression']:
        os.environ['BEAD_ZIP_COMPRESSION'] = plan['compression']
    p, changed, started = None, False, False
    for steps, todo in stops:
        if p is None:
            p = faults.Process(root, lambda: faults.dump_result(w.cli('save', 'box', '-w', ws)), steps)
        else:
            p.go(steps)
        if p.done:
            break
        started = True
        for c in todo:
            if changes.apply(*c):
                ctx.label('change: ' + c[0])
                changed = True
    if not p.done:
        p.go(0)
    os.environ.pop('BEAD_ZIP_COMPRESSION', None)
    ctx.executions(1)
    r = Result(*p.value)
    ctx.nontrivial(changed)
    what = f'save of {sorted(files)}, with changes {stops}'
    new = sorted(set(os.listdir(boxdir)) - set(box_before))
    beads = [n for n in new if n.endswith('.zip')]
    if not r.ok:
        ctx.label('failed')
        expect(started and changed, f'{what}: failed without a change', r)
        expect([n for n in new if not n.startswith('.index.sqlite')] == [], f'{what}: failed, but left in the box: {new}', r)
        expect_eq(found(boxdir), [], f'{what}: failed, but found in the box')
    else:
        ctx.label('saved' if not changed else 'saved with changes')
        expect_eq(len(beads), 1, f'{what}: beads in the box: {new}')
        check_bead(os.path.join(boxdir, beads[0]), changes, what)
        f = found(boxdir)
        expect_eq(len(f), 1, f'{what}: beads found')
        # it can be used
        d = w.path('again')
        e = w.cli('edit', '--review', os.path.join(boxdir, beads[0]), d)
        expect(e.ok, f'{what}: the saved bead can not be opened', e)
        data = dict(read_zip(os.path.join(boxdir, beads[0])))
        expect_tree(os.path.join(d, 'output'), {k[5:]: v for k, v in data.items() if k.startswith('data/')}, f'{what}: output of the bead saved')
    # the workspace is only changed by others
    expect(os.path.isdir(ws) and space.is_valid, f'{what}: the workspace is not valid any more')
    for name, versions in changes.versions.items():
        path = os.path.join(ws, name)
        last = versions[-1]
        if isinstance(last, bytes):
            expect(os.path.isfile(path) and open(path, 'rb').read() == last, f'{what}: {name} changed in the workspace')
    return p.done and not started


def check_bead(path, changes, what):
    """The saved bead is intact, and contains what was in the workspace"""
    items = read_zip(path)
    content = dict(items)
    expect_eq(len(items), len(content), f'{what}: entries with the same name')
    manifest = json.loads(content['meta/manifest'])
    expect_eq(sorted(manifest), sorted(set(content) - {'meta/manifest'}), f'{what}: files in the manifest')
    for name, hash in manifest.items():
        expect(ref_hash(content[name]) == hash, f'{what}: the saved bead is damaged: hash of {name}, {len(content[name])} bytes')
    meta = json.loads(content['meta/bead'])
    expect_eq((meta['kind'], meta['freeze_name']), ('the kind', 'ws'), f'{what}: metadata')
    expect(meta['inputs'] in changes.inputs, f'{what}: inputs of the bead saved: {meta["inputs"]}, were: {changes.inputs}')
    parse_ts(meta['freeze_time'])
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    ZipArchive(Path(path)).validate()
    reset()
    for name, versions in changes.versions.items():
        entry = 'data/' + name[len('output/'):] if name.startswith('output/') else 'code/' + name
        got = content.pop(entry, None)
        if got is None:
            expect(None in versions, f'{what}: {name} was always there, but is not in the bead')
        elif 'any' not in versions:
            expect(got in versions, f'{what}: {name} ({len(got)} bytes) in the bead was never like that')
    left = {('output/' + n[5:] if n.startswith('data/') else n[5:]) for n in content if not n.startswith('meta/')}
    expect(left <= changes.renamed, f'{what}: in the bead, but never in the workspace: {left - changes.renamed}')


def found(boxdir):
    from bead.box import Box
    from bead.tech.fs import Path
    res = [bead_key(b) for b in Box('box', Path(boxdir)).all_beads()]
    reset()
    return res
