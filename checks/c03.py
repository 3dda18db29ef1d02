"""C03 tampered archives."""
import io
import json
import os
import struct
import zipfile

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import (World, content_of, expect_same, expect_tree, format_ts, make_workspace, read_tree, read_zip, recorded_inputs,
                 ref_dumps, ref_hash, snapshot, tree_of, workspace_meta, write_zip)

RULE = ('a bead packed by the real code, then its file mutated; non-trivial: the bead has code and output files and the mutation '
        'changed the bytes of the file')
QUICK = 10000
THOROUGH = 300000

ENTRY_MUTATIONS = [
    'flip', 'append-byte', 'drop-byte', 'empty', 'remove', 'add-code', 'add-data', 'add-other', 'rename', 'swap', 'duplicate',
    'duplicate-same', 'move-to-code', 'to-data', 'copy-over', 'slashes', 'dot', 'case', 'add-dir', 'add-meta']
META_MUTATIONS = [
    'kind', 'freeze_time', 'freeze_name', 'inputs', 'future', 'drop-key', 'version', 'not-dict', 'not-json', 'input-id', 'same-format']
MANIFEST_MUTATIONS = ['drop-entry', 'drop-meta-bead', 'extra-entry', 'change-hash', 'empty', 'reformat', 'not-json', 'not-dict', 'swap']
RESIGN = ['code', 'data', 'meta']
RAW = ['flip', 'flip2', 'truncate', 'zero-block', 'insert', 'crc', 'append', 'prepend']


def strategy(tier):
    mutation = st.one_of(
        st.tuples(st.just('entry'), st.sampled_from(ENTRY_MUTATIONS)),
        st.tuples(st.just('entry'), st.sampled_from(ENTRY_MUTATIONS)),
        st.tuples(st.just('meta'), st.sampled_from(META_MUTATIONS)),
        st.tuples(st.just('manifest'), st.sampled_from(MANIFEST_MUTATIONS)),
        st.tuples(st.just('resign'), st.sampled_from(RESIGN)),
        st.tuples(st.just('raw'), st.sampled_from(RAW)),
        st.tuples(st.just('raw'), st.sampled_from(RAW)),
        st.tuples(st.just('none'), st.just('')),
    ).map(list)
    return st.fixed_dictionaries({
        'code': gen.code_entries(3, depth=3),
        'output': gen.entries(3, depth=3),
        'input': st.booleans(),
        'compression': st.sampled_from(['stored', 'deflated']),
        'mutations': st.lists(mutation, min_size=1, max_size=2),
        'pick': st.integers(0, 10**6),
        'pick2': st.integers(0, 10**6),
        'cli': st.sampled_from([None, None, None, None, 'edit', 'review', 'add', 'load', 'update', 'update-all', 'path', 'add-path']),
        'indexed': st.sampled_from([False, False, True]),
    })


NAME = 'bead'
TIME = '20200102T030405000006+0000'


def mutate(path, kind, how, a, b):
    """Change the archive at path."""
    if kind == 'none':
        return
    if kind == 'raw':
        data = bytearray(open(path, 'rb').read())
        if not data:
            return
        i = a % len(data)
        if how in ('flip', 'flip2'):
            data[i] ^= 1 << (b % 8)
            if how == 'flip2':
                data[b % len(data)] ^= 0xff
        elif how == 'truncate':
            del data[i:]
        elif how == 'zero-block':
            data[i:i + 16] = bytes(len(data[i:i + 16]))
        elif how == 'insert':
            data[i:i] = bytes([b % 256])
        elif how == 'append':
            data += b'x' * (b % 40 + 1)
        elif how == 'prepend':
            data[0:0] = b'x' * (b % 40 + 1)
        elif how == 'crc':
            # a byte of stored data and the checksums in both headers: only the content hash can tell
            try:
                z = zipfile.ZipFile(io.BytesIO(bytes(data)))
            except Exception:
                return
            infos = [x for x in z.infolist() if x.file_size and x.compress_type == zipfile.ZIP_STORED]
            if not infos:
                return
            x = infos[a % len(infos)]
            if x.header_offset + 30 > len(data):
                return
            n, e = struct.unpack_from('<HH', data, x.header_offset + 26)
            start = x.header_offset + 30 + n + e
            if start + x.file_size > len(data):
                return
            data[start + b % x.file_size] ^= 1 << (a % 8)
            new = bytes(data[start:start + x.file_size])
            crc = struct.pack('<I', zipfile.crc32(new))
            old = struct.pack('<I', x.CRC)
            data[x.header_offset + 14:x.header_offset + 18] = crc
            j = data.find(b'PK\x01\x02', z.start_dir)
            while j >= 0:
                if struct.unpack_from('<I', data, j + 42)[0] == x.header_offset and bytes(data[j + 16:j + 20]) == old:
                    data[j + 16:j + 20] = crc
                    break
                j = data.find(b'PK\x01\x02', j + 4)
        with open(path, 'wb') as f:
            f.write(data)
        return
    try:
        entries = read_zip(path)
    except Exception:
        return      # the first mutation left nothing to work on
    index = {n: i for i, (n, _) in enumerate(entries)}
    files = [i for i, (n, _) in enumerate(entries) if n not in ('meta/bead', 'meta/manifest')]
    f = files[a % len(files)] if files else None
    g = files[b % len(files)] if files else None

    def load(name):
        try:
            return json.loads(entries[index[name]][1])
        except (KeyError, ValueError):
            return None

    if kind == 'entry':
        if how.startswith('add-'):
            new = {'add-code': f'code/new{a}', 'add-data': f'data/new{a}', 'add-other': ['x', 'other/x', 'meta/x', 'Code/x', 'data', 'datax/y'][a % 6],
                   'add-dir': ['code/', 'data/', 'code/d/', 'data/d/'][a % 4], 'add-meta': ['meta/bead2', 'meta/', 'META/bead'][a % 3]}[how]
            entries.insert(b % (len(entries) + 1), (new, b'' if new.endswith('/') else b'new'))
        elif f is None:
            return
        else:
            n, data = entries[f]
            if how == 'flip' and data:
                i = b % len(data)
                entries[f] = (n, data[:i] + bytes([data[i] ^ 1]) + data[i + 1:])
            elif how == 'append-byte':
                entries[f] = (n, data + b'x')
            elif how == 'drop-byte':
                entries[f] = (n, data[:-1])
            elif how == 'empty':
                entries[f] = (n, b'')
            elif how == 'remove':
                del entries[f]
            elif how == 'rename':
                entries[f] = (n + 'x', data)
            elif how == 'swap':
                entries[f], entries[g] = (n, entries[g][1]), (entries[g][0], data)
            elif how == 'copy-over':
                entries[f] = (n, entries[g][1])
            elif how == 'duplicate':
                entries.insert(b % (len(entries) + 1), (n, data + b'evil'))
            elif how == 'duplicate-same':
                entries.insert(b % (len(entries) + 1), (n, data))
            elif how in ('move-to-code', 'to-data'):
                p = n.partition('/')[2]
                entries[f] = (('code/' if how == 'move-to-code' else 'data/') + p, data)
            elif how in ('slashes', 'dot'):
                d, _, p = n.partition('/')
                entries[f] = (d + ('//' if how == 'slashes' else '/./') + p, data)
            elif how == 'case':
                entries[f] = (n.swapcase() if a % 2 else n[0].upper() + n[1:], data)
    elif kind == 'meta':
        m = load('meta/bead')
        if not isinstance(m, dict):
            return
        if how == 'same-format':
            data = json.dumps(m).encode()
        else:
            if how in ('kind', 'freeze_name'):
                m[how] = str(m.get(how)) + 'x'
            elif how == 'freeze_time':
                m[how] = ['20200102T030405000007+0000', '20200102T040405000006+0100', '2020', '', 'x'][a % 5]
            elif how == 'future':
                m['freeze_time'] = '99990102T030405000006+0000'
            elif how == 'inputs':
                m['inputs'] = {'other': {'kind': 'k', 'content_id': 'c', 'freeze_time': TIME}}
            elif how == 'input-id':
                for spec in m['inputs'].values():
                    spec['content_id'] = 'evil'
            elif how == 'drop-key':
                m.pop(sorted(m)[a % len(m)], None)
            elif how == 'version':
                m['meta_version'] = ['x', None, 7][a % 3]
            data = {'not-dict': b'[]', 'not-json': b'{'}.get(how) or ref_dumps(m).encode()
        entries[index['meta/bead']] = ('meta/bead', data)
    elif kind == 'manifest':
        m = load('meta/manifest')
        if not isinstance(m, dict) or not m:
            return
        k = sorted(m)[a % len(m)]
        k2 = sorted(m)[b % len(m)]
        if how == 'drop-entry':
            del m[k]
        elif how == 'drop-meta-bead':
            m.pop('meta/bead', None)
        elif how == 'extra-entry':
            m[f'code/ghost{a}'] = m[k]
        elif how == 'change-hash':
            m[k] = ref_hash(b'?')
        elif how == 'empty':
            m = {}
        elif how == 'swap':
            m[k], m[k2] = m[k2], m[k]
        data = {'not-dict': b'[]', 'not-json': b'{', 'reformat': json.dumps(m).encode()}.get(how) or ref_dumps(m).encode()
        entries[index['meta/manifest']] = ('meta/manifest', data)
    elif kind == 'resign':
        # change something and make the manifest consistent again
        entries = dict(entries)
        if how == 'meta':
            m = load('meta/bead')
            if not isinstance(m, dict):
                return
            m['kind'] = 'forged'
            entries['meta/bead'] = ref_dumps(m).encode()
        else:
            names = [n for n in entries if n.startswith(how + '/')]
            entries[names[a % len(names)] if names else how + '/forged'] = b'forged %d' % b
        entries.pop('meta/manifest', None)
        entries['meta/manifest'] = ref_dumps({n: ref_hash(d) for n, d in entries.items()
                                              if n.startswith(('code/', 'data/', 'meta/'))}).encode()
        entries = list(entries.items())
    write_zip(path, entries, zipfile.ZIP_STORED if b % 2 else zipfile.ZIP_DEFLATED)


def run(plan, ctx):
    from bead.exceptions import InvalidArchive
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive

    code, output = tree_of(plan['code']), tree_of(plan['output'])
    w = World(ctx.dir)
    box = os.path.join(w.base, 'box')
    os.makedirs(box)
    os.environ['BEAD_ZIP_COMPRESSION'] = plan['compression']
    ws = make_workspace(w.path('src', NAME), 'the-kind', code, output) if os.makedirs(w.path('src')) is None else None
    if plan['input']:
        ws.add_input('in', 'in-kind', 'in-content-id', '20200101T000000000000+0000')
    path = os.path.join(box, f'{NAME}_{TIME}.zip')
    ws.pack(Path(path), freeze_time=TIME, comment='c')
    fresh = ZipArchive(Path(path), 'box')
    try:
        fresh.validate()
    except InvalidArchive as e:
        expect(False, 'a freshly saved bead does not pass verification', repr(e))
    cid = fresh.content_id
    original_meta = fresh.meta
    import sut
    sut.reset()
    original = open(path, 'rb').read()

    for (kind, how) in plan['mutations']:
        mutate(path, kind, how, plan['pick'], plan['pick2'])
        ctx.label(f'{kind}: {how}')
    changed = open(path, 'rb').read() != original

    # what the archive is now
    verdict = None
    new_cid = None
    try:
        archive = ZipArchive(Path(path), 'box')
        archive.validate()
        verdict = True
        new_cid = archive.content_id
    except InvalidArchive:
        verdict = False
    if not changed:
        expect(verdict, 'an unchanged bead is not accepted')
    if verdict:
        if new_cid == cid:
            target = make_dir(w.path('extracted'))
            archive.unpack_code_to(Path(os.path.join(target, 'code')))
            archive.unpack_data_to(Path(os.path.join(target, 'data')))
            expect_tree(os.path.join(target, 'code'), code, 'accepted as the original, but code differs')
            expect_tree(os.path.join(target, 'data'), output, 'accepted as the original, but output differs')
            expect_eq(archive.meta, original_meta, 'accepted as the original, but metadata')
            ctx.label('accepted, same content')
        else:
            ctx.label('accepted as a different bead')
    else:
        ctx.label('rejected')
    sut.reset()
    ctx.nontrivial(changed and code and output)

    if plan['cli'] is None:
        return
    ctx.label('command: ' + plan['cli'])
    # the same through commands
    w.configure_boxes([('box', box)])
    user = make_workspace(w.path('user'), 'user-kind', {'own': b'file'}, {})
    user.add_input('orig', 'the-kind', cid, TIME)
    user.add_input('older', 'the-kind', 'unavailable', '20190101T000000000000+0000')
    if plan['indexed']:
        with open(path, 'wb') as f:     # index the good one, damage it afterwards
            f.write(original)
        w.must('box', 'index', '--box', 'box')
        with open(path, 'wb') as f:
            f.write(original)
        for (kind, how) in plan['mutations']:
            mutate(path, kind, how, plan['pick'], plan['pick2'])
        ctx.label('indexed')
    user_dir = w.path('user')
    before = snapshot(user_dir)
    listing = sorted(os.listdir(w.home))
    command = plan['cli']
    args = {'edit': ['edit', NAME, 'edited'], 'review': ['edit', '--review', NAME, 'edited'], 'path': ['edit', path, 'edited'],
            'add': ['input', 'add', 'new', NAME, '-w', user_dir], 'add-path': ['input', 'add', 'new', path, '-w', user_dir],
            'load': ['input', 'load', 'orig', '-w', user_dir],
            'update': ['input', 'update', 'older', '-w', user_dir],
            'update-all': ['input', 'update', '-w', user_dir]}[command]
    r = w.cli(*args)
    expect(r.exc is None, 'command crashed on a mutated bead:\n', r)

    loaded = {n: os.path.isdir(os.path.join(user_dir, 'input', n)) for n in ('new', 'orig', 'older')}
    if not verdict:
        expect(not r.ok or 'DAMAGED' in r.out or 'amaged' in r.err or 'not found' in r.err.lower()
               or 'could not find' in (r.out + r.err).lower() or 'no other candidate' in r.out.lower(),
               'a damaged bead is not reported:\n', r)
        expect_eq(sorted(os.listdir(w.home)), listing, 'damaged bead was extracted: content of the home directory')
        expect_same(before, snapshot(user_dir), 'command with a damaged bead')
    else:
        if 'edit' == args[0]:
            if r.ok:
                want = {**code}
                got = read_tree(w.path('edited'))
                got.pop('.bead-meta/bead')
                if command == 'review':
                    want.update({f'output/{p}': b for p, b in output.items()})
                if new_cid == cid:
                    expect_eq(sorted(got), sorted(want), 'files of the edited bead')
                    expect(got == want, 'content of the edited bead')
            elif not changed:
                expect(False, 'an intact bead can not be edited:\n', r)
        else:
            refs = recorded_inputs(user_dir)
            for nick in ('new', 'orig', 'older'):
                if loaded[nick] and refs[nick][1] == cid:
                    expect_tree(os.path.join(user_dir, 'input', nick), output, 'loaded data')
            if command == 'load' and loaded['orig']:
                expect(new_cid == cid, 'loaded a bead with a different content id')
            if not changed:
                nick = {'add': 'new', 'add-path': 'new', 'load': 'orig', 'update': 'older', 'update-all': 'older'}[command]
                expect(loaded[nick], 'an intact bead was not loaded:\n', r)


def make_dir(d):
    os.makedirs(d)
    return d
