"""C08 foreign and damaged files in boxes."""
import json
import os
import random
import re
import socket
import zipfile

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import (META_VERSION, RefBead, World, bead_key, expect_tree, format_ts, make_workspace, recorded_inputs, ref_dumps, ref_hash, reset,
                 write_zip)

TECHNIQUE = 'property-based testing / structured fuzzing (Hypothesis) of box contents against a reference model'
RULE = ('boxes with intact beads next to generated junk: random and truncated files, mutated archives, archives with wrong metadata or manifest, '
        'directories, links, impossible names; non-trivial: at least one junk file with a name ending in .zip')
QUICK = 1400
THOROUGH = 100000

T0 = 1577836800 * 10**6
TS = format_ts(T0)

VALUES = [None, True, 0, -1, 10**400, 1.5, float('nan'), '', 'x', 'a/b', '..', '2020', '20200101', '20200101T000000000000', '20200101T250000000000+0000',
          '20200101T000000000000+9999', '99991231T235959999999-1200', '00010101T000000000000+1200', '00000000T000000000000+0000', [], ['x'], {}, {'x': 'y'},
          'k' * 5000, '\0', 'é\n', META_VERSION, '\ud800', 'x\udcff']
KEYS = ['meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs']
RAW_TEXTS = ['', '{', 'null', '[]', '"x"', '1', '{}', 'nonsense', '[' * 100000, '{"a":' * 50000, '{"kind": NaN}', '\ufeff{}', '1' * 5000, 'binary']
FILE_NAMES = ['{0}.zip', '{0}_20200101.zip', '{0}_20200101T000000000000+0000.zip', '{0}_20200101T000000000000+0000.zip',
              '{0}_20200101T000000000000+0000.zip', '{0}.ZIP', '{0}', '.zip', '_20200101.zip', '..zip', 'x__{0}.zip', 'x:{0}.zip', '{0}_99999999T999.zip',
              '\n.zip', '.{0}.zip', '{0}.zip.part', ' .zip', '{0}\udcff.zip', '\udce9{0}_20200101T000000000000+0000.zip', '\udcff.zip']
# other file names for the same bead name
TWIN_NAMES = ['{0}.zip', '{0}_19990101.zip', '{0}_20991231T235959999999+0000.zip', '{0}_20200101T000000.zip']
# does not get smaller by compression
BIG = random.Random(8).randbytes(1_200_000)


def strategy(tier):
    value = st.sampled_from(range(len(VALUES)))
    meta_change = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(KEYS), value), st.tuples(st.just('drop'), st.sampled_from(KEYS)),
        st.tuples(st.just('input'), st.sampled_from(['', 'kind', 'content_id', 'freeze_time']), value),
        st.tuples(st.just('input-drop'), st.sampled_from(['kind', 'content_id', 'freeze_time'])),
        st.tuples(st.just('input-name'), st.sampled_from(['', '.', '..', 'a/b', '/x', 'x' * 300, '\0', 'a\\b'])),
        st.tuples(st.just('text'), st.integers(0, len(RAW_TEXTS) - 1)),
        st.tuples(st.just('extra'), value)).map(list)
    manifest_change = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(['code/c', 'data/o', 'meta/bead', 'x', 'data/none', '']), value),
        st.tuples(st.just('drop'), st.sampled_from(['code/c', 'data/o', 'meta/bead'])),
        st.tuples(st.just('text'), st.integers(0, len(RAW_TEXTS) - 1))).map(list)
    content = st.one_of(
        st.tuples(st.just('bytes'), st.text(alphabet=st.characters(max_codepoint=255), max_size=60)),
        st.tuples(st.just('prefix'), st.integers(0, 999)),
        st.tuples(st.just('suffix'), st.integers(1, 999)),
        # from the end: the directory of the archive is there
        st.tuples(st.just('flip'), st.lists(st.tuples(st.integers(1, 700), st.integers(1, 255)).map(list), min_size=1, max_size=4)),
        st.tuples(st.just('flip'), st.lists(st.tuples(st.integers(1, 120), st.sampled_from([1, 255, 128, 8])).map(list), min_size=1, max_size=2)),
        st.tuples(st.just('meta'), st.lists(meta_change, min_size=1, max_size=3), st.booleans()),
        st.tuples(st.just('meta'), st.lists(meta_change, min_size=1, max_size=1), st.just(True)),
        st.tuples(st.just('manifest'), st.lists(manifest_change, min_size=1, max_size=3)),
        st.tuples(st.just('without'), st.sampled_from(['meta/bead', 'meta/manifest', 'both', 'code/c', 'data/o'])),
        st.tuples(st.just('entries'), st.lists(st.sampled_from(['', '/', 'x/', '../x', 'data/../../x', 'data/', 'data', '/data/x', 'code//x', 'meta/x', 'data/x\0y', 'é', 'data/é']),
                                               min_size=1, max_size=3)),
        st.tuples(st.just('nonutf8'), st.sampled_from(['meta/bead', 'meta/manifest'])),
        st.tuples(st.sampled_from(['empty zip', 'directory', 'full directory', 'dangling', 'loop', 'link to directory', 'link to null', 'socket', 'pipe', 'unreadable', 'empty']))).map(list)
    junk = st.tuples(st.sampled_from(FILE_NAMES), st.integers(0, 1), content).map(list)
    # a damaged copy of one of the beads
    twin = st.tuples(st.integers(0, 3), st.integers(0, 2), st.tuples(st.just('twin'), st.integers(0, 4)).map(list)).map(list)
    junk = st.one_of(junk, junk, junk, junk, twin)
    real = st.tuples(gen.bead_names().filter(lambda n: not n.startswith('junk')), st.integers(0, 3), st.sampled_from([0] * 7 + [1])).map(list)
    return st.fixed_dictionaries({
        'beads': st.lists(real, min_size=1, max_size=3),
        'junk': st.lists(junk, min_size=1, max_size=5),
        'index': st.sampled_from(['none', 'none', 'before', 'index', 'reindex']),
        'which': st.integers(0, 2),
        'gone': st.sampled_from([None, None, 0, 9]),
    })


def dumps(x):
    return json.dumps(x, indent=4, sort_keys=True).encode()


def junk_bead(n):
    return RefBead(f'junk{n}', 'junk-kind', TS, {'in': ('k', 'c' * 128, TS)}, {'c': b'code' * 30}, {'o': b'output' * 50})


def archive(n, content, path):
    """Write a malformed archive"""
    b = junk_bead(n)
    entries = dict(b.entries)
    kind = content[0]
    if kind == 'meta':
        meta = json.loads(entries['meta/bead'])
        text = None
        for change in content[1]:
            c = change[0]
            if c == 'set':
                meta[change[1]] = VALUES[change[2]]
            elif c == 'drop':
                meta.pop(change[1], None)
            elif c == 'extra':
                meta['extra'] = VALUES[change[1]]
            elif c == 'text':
                text = RAW_TEXTS[change[1]]
            elif isinstance(meta.get('inputs'), dict) and isinstance(meta['inputs'].get('in'), dict):
                if c == 'input':
                    if change[1]:
                        meta['inputs']['in'][change[1]] = VALUES[change[2]]
                    else:
                        meta['inputs']['in'] = VALUES[change[2]]
                elif c == 'input-drop':
                    meta['inputs']['in'].pop(change[1], None)
                elif c == 'input-name':
                    meta['inputs'][change[1]] = meta['inputs']['in']
        entries['meta/bead'] = dumps(meta) if text is None else text.encode()
        if content[2]:
            m = json.loads(entries['meta/manifest'])
            m['meta/bead'] = ref_hash(entries['meta/bead'])
            entries['meta/manifest'] = dumps(m)
    elif kind == 'manifest':
        m = json.loads(entries['meta/manifest'])
        text = None
        for change in content[1]:
            if change[0] == 'set':
                m[change[1]] = VALUES[change[2]]
            elif change[0] == 'drop':
                m.pop(change[1], None)
            else:
                text = RAW_TEXTS[change[1]]
        entries['meta/manifest'] = dumps(m) if text is None else text.encode()
    elif kind == 'without':
        for e in ('meta/bead', 'meta/manifest') if content[1] == 'both' else (content[1],):
            del entries[e]
    elif kind == 'entries':
        entries = list(entries.items()) + [(e, b'x') for e in content[1]]
    elif kind == 'nonutf8':
        entries[content[1]] = b'\xff\xfe' + entries[content[1]]
    elif kind == 'empty zip':
        entries = {}
    write_zip(path, entries)


def same_name(name, file_name):
    """Is this the name of the bead in such a file?"""
    if not name.strip('.'):
        return False
    return not re.search('_[0-9]{8}([tT][-+0-9]*)?$', name) or file_name != f'{name}.zip'


def damaged_copy(b, how, path):
    """The copy does not have what it should have, though its metadata is the same"""
    entries = dict(b.entries)
    if how == 0:
        entries['data/o'] += b'x'
    elif how == 1:
        entries['data/added'] = b''
    elif how == 2:
        del entries['code/c']
    elif how == 3:
        entries['code/c'] = b'?'
    write_zip(path, entries, zipfile.ZIP_STORED if how == 4 else zipfile.ZIP_DEFLATED)
    if how == 4:
        with open(path, 'rb+') as f:
            data = f.read()
            f.seek(data.index(b'real'))
            f.write(b'unreal'[:4])


def write_junk(boxdir, n, content, path):
    kind = content[0]
    if kind in ('meta', 'manifest', 'without', 'entries', 'nonutf8', 'empty zip'):
        archive(n, content, path)
    elif kind in ('prefix', 'suffix', 'flip'):
        junk_bead(n).write(os.path.dirname(path), os.path.basename(path))
        with open(path, 'rb') as f:
            data = bytearray(f.read())
        if kind == 'prefix':
            data = data[:len(data) * content[1] // 1000]
        elif kind == 'suffix':
            data = data[len(data) * content[1] // 1000:]
        else:
            for pos, x in content[1]:
                data[-pos % len(data)] ^= x
        with open(path, 'wb') as f:
            f.write(data)
    elif kind in ('bytes', 'empty'):
        with open(path, 'wb') as f:
            f.write(content[1].encode('latin-1') if kind == 'bytes' else b'')
    elif kind == 'directory':
        os.mkdir(path)
    elif kind == 'full directory':
        os.mkdir(path)
        junk_bead(n).write(path)
    elif kind == 'pipe':
        os.mkfifo(path)
    elif kind == 'unreadable':
        junk_bead(n).write(os.path.dirname(path), os.path.basename(path))
        os.chmod(path, 0)
    elif kind == 'socket':
        s = socket.socket(socket.AF_UNIX)
        os.chdir(boxdir)
        s.bind(os.path.basename(path))
        s.close()
        os.chdir('/')
    else:
        os.symlink({'dangling': 'nowhere', 'loop': os.path.basename(path), 'link to directory': '.', 'link to null': '/dev/null'}[kind], path)


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    boxdir, other = os.path.join(ctx.dir, 'box'), os.path.join(ctx.dir, 'other')
    w.configure_boxes([('other', other), ('box', boxdir)], plan['gone'])
    beads = []
    for i, (name, t, big) in enumerate(plan['beads']):
        b = RefBead(name, f'kind{i}', format_ts(T0 + i + t * 10**9), {'x': ('k', 'd' * 128, TS)}, {'c': b'%d' % i}, {'o': b'real %d' % i, 'd/o': b'', **({'big': BIG} if big else {})})
        if b.file_name not in [x.file_name for x in beads]:
            beads.append(b)
            b.write(boxdir)
    if plan['index'] == 'before':
        w.must('box', 'index', '--box', 'box')
    names = set()
    twins = False
    for pattern, n, content in plan['junk']:
        if content[0] == 'twin':
            b = beads[n % len(beads)]
            file_name = TWIN_NAMES[pattern].format(b.name)
            path = os.path.join(boxdir, file_name)
            if 'big' in b.output:
                ctx.label('junk: damaged copy of a big bead')
            if same_name(b.name, file_name) and not os.path.lexists(path):
                ctx.label('junk: damaged copy')
                ctx.nontrivial()
                twins = True
                damaged_copy(b, content[1], path)
            continue
        file_name = pattern.format(f'junk{n}')
        path = os.path.join(boxdir, file_name)
        if os.path.lexists(path) or len(file_name) > 200:
            continue
        write_junk(boxdir, n, content, path)
        ctx.label('junk: ' + content[0])
        ctx.nontrivial(file_name.endswith('.zip'))
        names.add(file_name.rsplit('_', 1)[0])
    if plan['index'] in ('index', 'reindex'):
        w.must('box', plan['index'], '--box', 'box')
    ctx.label('index: ' + plan['index'])

    # through the API
    from bead.box import Box, resolve, search
    from bead.tech.fs import Path

    def listed(keys):
        # damaged copies may be listed as well
        return sorted(set(keys)) if twins else sorted(keys)

    def check(what):
        box = Box('box', Path(boxdir))
        want = sorted(b.key() for b in beads)
        for s in (box.search(), search([Box('other', Path(other)), box])):
            got = [bead_key(x) for x in s.all()]
            expect_eq(listed(k for k in got if k in want), want, f'{what}: intact beads listed among {got}')
        for b in beads:
            same_name = sorted(x.key() for x in beads if x.name == b.name)
            got = listed(bead_key(x) for x in box.search().by_name(b.name).all() if bead_key(x) in want)
            expect_eq(got, same_name, f'{what}: search for {b.name!r}')
            got = box.search().by_kind(b.kind).newest()
            expect_eq(bead_key(got), b.key(), f'{what}: search by kind')
            got = box.search().by_content_id(b.content_id).first()
            expect_eq(bead_key(got), b.key(), f'{what}: search by content id')
            a = resolve([box], got)
            expect_eq(bead_key(a), b.key(), f'{what}: resolved')
            a.validate()
            reset()
            a = Box('box', Path(boxdir)).resolve(got)
            expect_eq(bead_key(a), b.key(), f'{what}: resolved by another process')
            a.validate()
        for x in box.search().all():
            # of whatever is listed
            x.freeze_time, x.freeze_time_str, x.kind, x.name, x.inputs
        box.search().newest(), box.search().oldest()
        reset()
    check('box with ' + repr(plan['junk']))

    # with commands
    def no_crash(*args, ok=True):
        r = w.cli(*args)
        expect(r.exc is None, 'command crashed:', r)
        expect(r.ok or not ok, 'command failed:', r)
        return r
    b = beads[plan['which'] % len(beads)]
    newest = max((x for x in beads if x.name == b.name), key=lambda x: x.time)
    ws = w.path('ws')
    make_workspace(ws, 'ws-kind', {}, {}).add_input('known', *b.ref)
    no_crash('input', 'load', 'known', '-w', ws)
    expect_tree(os.path.join(ws, 'input', 'known'), b.output, 'loaded input')
    no_crash('input', 'add', 'new', b.name, '-w', ws)
    expect_eq(recorded_inputs(ws), {'known': b.ref, 'new': newest.ref}, 'inputs after adding')
    expect_tree(os.path.join(ws, 'input', 'new'), newest.output, 'added input')
    no_crash('input', 'update', '-w', ws)
    expect_eq(recorded_inputs(ws), {'known': b.ref, 'new': newest.ref}, 'inputs after updating')
    r = no_crash('status', '-v', '-w', ws)
    expect(b.freeze_time in r.out, 'status does not know about', b.freeze_time, r)
    no_crash('edit', b.name, w.path('edited'))
    expect_eq(recorded_inputs(w.path('edited')), newest.inputs, 'inputs of the bead edited')
    for i, n in enumerate(sorted(names)):
        if not n.startswith('-') and n:
            no_crash('edit', n, w.path('junk', str(i)), ok=False)
            no_crash('input', 'add', f'j{i}', n, '-w', ws, ok=False)
    no_crash('web', 'save', w.path('web'), 'dot', w.path('dot'), 'color', 'heads', 'dot', w.path('heads'))
    no_crash('save', 'box', '-w', ws)
    no_crash('box', 'list')
    for c in ('index', 'reindex'):
        no_crash('box', c, '--box', 'box')
        check(f'after {c}')
        from bead.box_index import BoxIndex
        got = [bead_key(x) for x in BoxIndex(Path(boxdir)).get_beads([], 'box')]
        want = sorted(b.key() for b in beads)
        expect_eq(listed(k for k in got if k in want), want, f'after {c}: intact beads in the index')
