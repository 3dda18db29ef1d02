# Seeded bugs, written from the text of the properties and the code.

seed('c01-reserved-ignoring-case', 'C01',
     [('bead/workspace.py', "            return f not in {", "            return f.lower() not in {")],
     needs='a code file or directory at top level, whose name differs from input, output or temp only in letter case',
     breaks='such code is silently left out of the saved bead',
     demo='''
def demo():
    d = box('b')
    ok('new', 'ws')
    write(path('ws', 'Output', 'plot.py'), 'plot')
    write(path('ws', 'INPUT'), 'docs')
    save('ws')
    ok('edit', path('box-b', *beads_in(d)), 'copy')
    files = tree(path('copy'))
    assert files.get('Output/plot.py') == b'plot', files
    assert files.get('INPUT') == b'docs', files
''')

seed('c01-unicode-normalization', 'C01',
     [('bead/workspace.py', "            self.add_path(path / f, f'{zip_path}/{f}')",
       "            self.add_path(path / f, unicodedata.normalize('NFC', f'{zip_path}/{f}'))"),
      ('bead/workspace.py', "import os\nimport zipfile\n", "import os\nimport unicodedata\nimport zipfile\n")],
     needs='a file below the top level of the code or in output with a name in decomposed (NFD) form',
     breaks='the file gets another name in the bead',
     demo='''
def demo():
    d = box('b')
    make('ws', output={'cafe\\u0301.csv': '1'}, code={'lib/u\\u0308ber.py': '2'})
    ok('edit', '--review', path('box-b', *beads_in(d)), 'copy')
    files = tree(path('copy'))
    assert 'lib/u\\u0308ber.py' in files, files
    assert 'output/cafe\\u0301.csv' in files, files
''')

seed('c02-manifest-order', 'C02',
     [('bead/tech/persistence.py', "    sort_keys=True,\n", "    sort_keys=False,\n")],
     needs='the same files listed in another order by the operating system (e.g. on another computer)',
     breaks='the content id depends on the order of files in directories, as the manifest is not sorted anymore',
     demo='''
def demo():
    import random
    from pathlib import Path
    ids = set()
    listdir = os.listdir
    scandir = os.scandir
    for n in range(6):
        ws_dir = path(f'{n}', 'ws')
        for f in 'abcdefgh':
            write(os.path.join(ws_dir, 'output', f), f)
            write(os.path.join(ws_dir, 'lib', f), f)
        for x in ('input', 'temp'):
            os.makedirs(os.path.join(ws_dir, x))
        write(os.path.join(ws_dir, '.bead-meta', 'bead'), json.dumps({'kind': 'k', 'inputs': {}}))
        rnd = random.Random(n)

        def any_order(*args):
            return rnd.sample(sorted(listdir(*args)), len(listdir(*args)))
        os.listdir = any_order
        try:
            from bead.workspace import Workspace
            from bead.ziparchive import ZipArchive
            z = Path(path(f'{n}', 'ws_20200101T000000000000+0000.zip'))
            Workspace(ws_dir).pack(z, '20200101T000000000000+0000', 'comment')
        finally:
            os.listdir = listdir
        ids.add(ZipArchive(z).content_id)
    assert len(ids) == 1, ids
''')

seed('c02-hash-of-sparse-tail', 'C02',
     [('bead/tech/securehash.py', "            hash.update(block)\n",
       "            # (mostly) empty disk images are common - do not waste time on holes\n"
       "            if len(block) < READ_BLOCK_SIZE or block.count(0) != READ_BLOCK_SIZE:\n"
       "                hash.update(block)\n")],
     needs='a file of more than a megabyte with a whole block of zero bytes',
     breaks='the content id is not the documented function of the content: zero blocks are left out of it, '
            'so files that differ only in where these blocks are have the same id',
     demo='''
def demo():
    d = box('b')
    import hashlib
    content = b'\\0' * 2**20 + b'x' * 2**20
    make('ws', output={'image': content})
    with zipfile.ZipFile(os.path.join(d, *beads_in(d))) as z:
        manifest = json.loads(z.read('meta/manifest'))
    n = b'%d' % len(content)
    assert manifest['data/image'] == hashlib.sha512(n + b':' + content + b';' + n).hexdigest()
''')

seed('c03-first-of-duplicates', 'C03',
     [('bead/ziparchive.py',
       "        for zip_path in self.zipfile.namelist():\n            if not zip_path.startswith(zip_dir_prefix):\n                continue\n"
       "            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]\n            self.extract_file(zip_path, fs_path)\n",
       "        for info in self.zipfile.infolist():\n            if not info.filename.startswith(zip_dir_prefix):\n                continue\n"
       "            fs_path = fs_dir / info.filename[zip_dir_prefix_len:]\n            if not fs_path.exists():\n"
       "                self.extract_file(info, fs_path)\n"),
      ],
     needs='an archive with two entries of the same name: verification looks at the last one',
     breaks='a bead file with an entry put before the original one passes verification with the original content id, '
            'but the other content is extracted',
     demo='''
def demo():
    d = box('b')
    make('ws', output={'data.csv': 'good'}, code={'code.py': 'good'})
    f = os.path.join(d, *beads_in(d))
    import warnings
    warnings.simplefilter('ignore')
    with zipfile.ZipFile(f) as z:
        entries = [(i.filename, z.read(i)) for i in z.infolist()]
    with zipfile.ZipFile(f, 'w') as z:
        z.writestr('code/code.py', 'evil')
        for name, content in entries:
            z.writestr(name, content)
    r = bead('edit', f, 'copy')
    if r.rc == 0:
        assert read(path('copy', 'code.py')) == b'good', r
''')

seed('c05-replaces-existing-file', 'C05',
     [('bead/workspace.py', "        assert not zipfilename.exists()\n        try:",
       "        if zipfilename.exists():\n            # left over from an interrupted attempt\n            zipfilename.unlink()\n        try:")],
     needs='a second bead of the same name saved with the very same time (e.g. coarse clock, or another computer on a shared box)',
     breaks='saving replaces the bead which is already in the box',
     demo='''
def demo():
    d = box('b')
    from bead.box import Box
    from bead.workspace import Workspace
    from pathlib import Path
    now = '20200101T000000000000+0000'
    for n in 'ab':
        os.makedirs(path(n))
        ok('new', os.path.join(n, 'ws'))
        write(path(n, 'ws', 'output', 'f'), n)
    Box('b', Path(d)).store(Workspace(path('a', 'ws')), now)
    before = tree(d)
    try:
        Box('b', Path(d)).store(Workspace(path('b', 'ws')), now)
    except Exception as e:
        print('refused', repr(e))
    after = tree(d)
    assert all(after.get(f) == before[f] for f in before), 'existing bead was overwritten'
''')

seed('c05-unreadable-files-skipped', 'C05',
     [('bead/workspace.py', "        self.zipfile.write(path, zip_path)\n",
       "        try:\n            self.zipfile.write(path, zip_path)\n        except OSError:\n            # vanished meanwhile, e.g. a temporary file of an editor\n            return\n")],
     needs='a read or write error while the file is copied into the archive (disk full, unreadable file, bad block)',
     breaks='save reports success although the stored bead is not complete',
     demo='''
def demo():
    # reading a file fails: a directory entry whose data can not be read
    d = box('b')
    ok('new', 'ws')
    for n in 'abc':
        write(path('ws', 'output', n), n * 100)
    prog = """
import builtins, errno, io, os, sys, zipfile
real = builtins.open
def failing(file, *args, **kw):
    if str(file).endswith('output/b') and 'r' in (args[0] if args else 'r'):
        raise OSError(errno.EIO, 'Input/output error', str(file))
    return real(file, *args, **kw)
builtins.open = io.open = failing
from bead_cli.main import main
sys.argv = ['bead', 'save', '-w', 'ws']
main()
"""
    r = subprocess.run([sys.executable, '-c', prog], cwd=HOME, capture_output=True)
    if r.returncode == 0:
        with zipfile.ZipFile(os.path.join(d, *beads_in(d))) as z:
            assert 'data/b' in z.namelist(), (z.namelist(), r)
    else:
        assert beads_in(d) == [], beads_in(d)
''')

seed('c06-path-cache-by-content', 'C06',
     [('bead/box_rawfs.py', "        key = (bead.name, bead.content_id)\n", "        key = bead.content_id\n"),
      ('bead/box_rawfs.py', "        key = (name, content_id)\n", "        key = content_id\n")],
     needs='one box (not indexed) with two copies of the same bead under different names',
     breaks='resolving a found bead looks at the copy with the other name and fails',
     demo='''
def demo():
    d = box('b')
    make('ws', output={'f': '1'})
    f, = beads_in(d)
    for n in ('aa', 'copy', 'zz'):
        shutil.copy(os.path.join(d, f), os.path.join(d, n + f[2:]))
    from bead.box import Box, search, resolve
    from pathlib import Path
    b = Box('b', Path(d))
    beads = search([b]).all()
    assert len(beads) == 4, beads
    for found in beads:
        a = resolve([b], found)
        assert (a.name, a.content_id) == (found.name, found.content_id)
''')

seed('c06-time-limit-resets', 'C06',
     [('bead/box.py',
       "        self.conditions.append((QueryCondition.OLDER_THAN, timestamp))\n",
       "        self._set_limit(QueryCondition.OLDER_THAN, timestamp)\n"),
      ('bead/box.py',
       "        self.conditions.append((QueryCondition.AT_OR_OLDER, timestamp))\n",
       "        self._set_limit(QueryCondition.AT_OR_OLDER, timestamp)\n"),
      ('bead/box.py',
       "    def unique(self):\n        self._unique_filter = True\n        return self\n\n    def _apply",
       "    def _set_limit(self, condition, timestamp):\n        # one upper limit is enough\n"
       "        upper_limits = (QueryCondition.OLDER_THAN, QueryCondition.AT_OR_OLDER)\n"
       "        self.conditions = [c for c in self.conditions if c[0] not in upper_limits]\n"
       "        self.conditions.append((condition, timestamp))\n\n"
       "    def unique(self):\n        self._unique_filter = True\n        return self\n\n    def _apply")],
     needs='a search with more than one upper time limit, the stricter given first',
     breaks='only the last one of the upper time limits is taken into account',
     demo='''
def demo():
    d = path('box')
    for y in (2018, 2019, 2020):
        archive(os.path.join(d, f'b{y}.zip'), freeze_time=f'{y}0101T000000000000+0000')
    from bead.box import Box, search
    from pathlib import Path
    from bead.tech.timestamp import time_from_timestamp
    t = lambda y: time_from_timestamp(f'{y}0101T000000000000+0000')
    found = search([Box('b', Path(d))]).older_than(t(2019)).at_or_older(t(2020)).all()
    assert [b.name for b in found] == ['b2018'], found
''')

seed('c07-inputs-deleted-by-name', 'C07',
     [('bead/box_index.py',
       "    conn.execute('DELETE FROM inputs WHERE bead_name = ? AND bead_content_id = ?',\n                (name, content_id))\n",
       "    conn.execute('DELETE FROM inputs WHERE bead_name = ?', (name,))\n")],
     needs='two versions of a bead with inputs in an indexed box',
     breaks='the index loses the inputs of all but the last indexed version',
     demo='''
def demo():
    d = box('b')
    make('data', output={'x': '1'})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    save('user')
    save('user')
    ok('box', 'index')
    from bead.box import Box, search
    from pathlib import Path
    got = sorted(len(b.inputs) for b in search([Box('b', Path(d))]).by_name('user').all())
    assert got == [0, 1, 1], got
''')

seed('c07-index-time-in-seconds', 'C07',
     [('bead/box_index.py', "    return timestamp_to_unix_utc_microseconds(value)\n",
       "    return timestamp_to_unix_utc_microseconds(value.replace(microsecond=0) if hasattr(value, 'replace') else value)\n")],
     needs='an indexed box and beads or limits within the same second',
     breaks='time conditions are answered for whole seconds with an index: at_time finds nothing, newer/older are off',
     demo='''
def demo():
    d = box('b')
    make('data')
    make('data2')
    ok('box', 'index')
    from bead.box import Box, search
    from pathlib import Path
    for bead_ in search([Box('b', Path(d))]).all():
        found = search([Box('b', Path(d))]).at_time(bead_.freeze_time).all()
        assert [b.name for b in found] == [bead_.name], (bead_.freeze_time_str, found)
''')

seed('c08-damaged-copy-indexed', 'C08',
     [('bead/box_index.py', "            archive = ZipArchive(archive_path, box_name='')\n            archive.validate()\n",
       "            archive = ZipArchive(archive_path, box_name='')\n")],
     needs='an indexed box with a damaged copy of a bead under another file name next to the intact one',
     breaks='the index refers to the damaged copy, the intact bead can not be loaded',
     demo='''
def demo():
    d = box('b')
    for n in range(8):
        make(f'ws{n}', output={'o': 'x' * 1000})
    for f in beads_in(d):
        content = bytearray(read(os.path.join(d, f)))
        with zipfile.ZipFile(os.path.join(d, f)) as z:
            entries = [(i.filename, z.read(i)) for i in z.infolist()]
        with zipfile.ZipFile(os.path.join(d, f.split('_')[0] + '.zip'), 'w') as z:
            for n, b in entries:
                z.writestr(n, b + b'?' if n == 'data/o' else b)
    for cmd in ('index', 'reindex'):
        ok('box', cmd)
        for n in range(8):
            r = bead('edit', f'ws{n}', path(cmd, f'copy{n}'))
            assert r.rc == 0, (cmd, n, r)
''')

seed('c09-sparse-extraction', 'C09',
     [('bead/ziparchive.py', "                shutil.copyfileobj(source, target)\n",
       "                # keep sparse files sparse\n"
       "                while block := source.read(4096):\n"
       "                    if len(block) == 4096 and not any(block):\n"
       "                        target.seek(len(block), os.SEEK_CUR)\n"
       "                    else:\n"
       "                        target.write(block)\n"),
      ('bead/ziparchive.py', "import re\nimport shutil\n", "import re\n")],
     needs='a file of n * 4096 bytes that ends with 4096 zero bytes',
     breaks='the extracted file is shorter than the original',
     demo='''
def demo():
    box('b')
    content = b'header' * 1000 + b'\\0' * (4096 * 3 - 6000)
    make('data', output={'x': content})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    got = read(path('user', 'input', 'data', 'x'))
    assert got == content, (len(got), len(content))
''')

seed('c09-update-of-unloaded', 'C09',
     [('bead_cli/input.py', "    if workspace.is_loaded(input.name) and input.content_id == archive.content_id:\n",
       "    if input.content_id == archive.content_id:\n")],
     needs='updating an input that is not loaded and is at the newest version',
     breaks='the update does nothing: the input directory does not hold the data',
     demo='''
def demo():
    box('b')
    make('data', output={'x': '1'})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    ok('input', 'unload', 'data', '-w', path('user'))
    ok('input', 'update', 'data', '-w', path('user'))
    assert tree(path('user', 'input')) == {'data/x': b'1'}, tree(path('user', 'input'))
''')

seed('c10-newest-by-text', 'C10',
     [('bead/box.py', "        return max(beads, key=lambda b: b.freeze_time)\n", "        return max(beads, key=lambda b: b.freeze_time_str)\n")],
     needs='versions saved in different time zones (or around the end of daylight saving time)',
     breaks='not the newest version is selected, but the one with the greatest local time',
     demo='''
def demo():
    box('b')
    make('user')
    os.environ['TZ'] = 'XXX-12'
    make('data', output={'x': 'old'})
    write(path('data', 'output', 'x'), 'new')
    os.environ['TZ'] = 'UTC'
    save('data')
    ok('input', 'add', 'data', '-w', path('user'))
    assert read(path('user', 'input', 'data', 'x')) == b'new'
''')

seed('c11-delete-forgets-first', 'C11',
     [('bead/workspace.py',
       "        if self.is_loaded(input_nick):\n            self.unload(input_nick)\n        m = self.meta\n        del m[meta.INPUTS][input_nick]\n        self.meta = m\n",
       "        m = self.meta\n        del m[meta.INPUTS][input_nick]\n        self.meta = m\n        if self.is_loaded(input_nick):\n            self.unload(input_nick)\n"),
      ('bead/workspace.py',
       "        assert self.has_input(input_nick)\n        input_dir = self.directory / layouts.Workspace.INPUT\n",
       "        input_dir = self.directory / layouts.Workspace.INPUT\n")],
     needs='deleting a loaded input fails or is killed between forgetting the reference and removing the data',
     breaks='data stays in the input directory without a reference; repeating the delete is refused',
     demo='''
def demo():
    box('b')
    make('data', output={'x': '1'})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    prog = """
import os, sys
def die(*args, **kw):
    os._exit(9)
# killed at the first removal / renaming of data in the input directory
import shutil
real_rename = os.rename
def rename(src, dst, **kw):
    if '/user/input/' in str(src) or '/user/input/' in str(dst):
        die()
    return real_rename(src, dst, **kw)
os.rename = rename
shutil.rmtree = die
from bead_cli.main import main
sys.argv = ['bead', 'input', 'delete', 'data', '-w', 'user']
main()
"""
    r = subprocess.run([sys.executable, '-c', prog], cwd=HOME, capture_output=True)
    left = os.path.isdir(path('user', 'input', 'data'))
    if r.returncode and left:
        ok('input', 'delete', 'data', '-w', path('user'))
    assert not os.path.isdir(path('user', 'input', 'data'))
''')

seed('c12-unresolved-location', 'C12',
     [('bead_cli/box.py', "        location = directory.resolve()\n", "        location = tech.fs.Path.cwd() / directory\n")],
     needs='a box given by a path with a symbolic link or with ".." in it',
     breaks='the same directory can be added as two boxes',
     demo='''
def demo():
    d = box('b')
    os.symlink(d, path('link'))
    bead('box', 'add', 'again', path('link'))
    os.makedirs(path('other'))
    bead('box', 'add', 'dots', path('other', '..', 'box-b'))
    r = ok('box', 'list')
    assert 'again' not in r.out and 'dots' not in r.out, r
''')

seed('c13-rmtree-follows-links', 'C13',
     [('bead/tech/fs.py', "    for path in all_subpaths(root, followlinks=False):\n", "    for path in all_subpaths(root, followlinks=True):\n")],
     needs='discarding a workspace with a symbolic link to a directory having a write protected subdirectory',
     breaks='permissions of directories outside of the workspace are changed through symbolic links',
     demo='''
def demo():
    ok('new', 'ws')
    os.makedirs(path('outside', 'sub'))
    os.chmod(path('outside', 'sub'), 0o555)
    os.symlink(path('outside'), path('ws', 'temp', 'link'))
    ok('discard', path('ws'))
    mode = stat.S_IMODE(os.stat(path('outside', 'sub')).st_mode)
    assert mode == 0o555, oct(mode)
''')

seed('c13-reindex-removes-sqlite-files', 'C13',
     [('bead/box_index.py',
       "        if self.index_path.exists():\n            self.index_path.unlink()\n",
       "        # the index together with its journal files, if any\n        for path in self.box_directory.glob('*.sqlite*'):\n            path.unlink()\n")],
     needs='reindexing a box directory which contains some other SQLite file',
     breaks='reindexing removes files in the box that have nothing to do with the index',
     demo='''
def demo():
    d = box('b')
    make('ws')
    write(os.path.join(d, 'measurements.sqlite'), 'precious')
    write(os.path.join(d, '.backup.sqlite-2020'), 'precious')
    bead('box', 'reindex')
    bead('box', 'reindex')
    left = set(os.listdir(d))
    assert {'measurements.sqlite', '.backup.sqlite-2020'} <= left, left
''')

seed('c14-future-check-by-text', 'C14',
     [('bead/ziparchive.py',
       "        read_time = timestamp.time_from_timestamp\n        now = read_time(timestamp.timestamp())\n        freeze_time = read_time(self.meta[meta.FREEZE_TIME])\n",
       "        now = timestamp.timestamp()\n        freeze_time = self.meta[meta.FREEZE_TIME]\n")],
     needs='the local time goes back after a save (another time zone, or the end of daylight saving time)',
     breaks='a bead just saved is rejected as coming from the future',
     demo='''
def demo():
    box('b')
    os.environ['TZ'] = 'XXX-13'
    make('data', output={'x': '1'})
    os.environ['TZ'] = 'YYY11'
    r = bead('edit', 'data', 'copy')
    assert r.rc == 0, r
''')

seed('c15-negative-offset-minutes', 'C15',
     [('bead/tech/timestamp.py',
       "                (-1 if values.get('tzsign', '+') == '-' else 1)\n                *\n                (v('tzhour', 0) * 60 + v('tzmin', 0)))\n",
       "                (-60 if values.get('tzsign', '+') == '-' else 60) * v('tzhour', 0)\n                + v('tzmin', 0))\n")],
     needs='a time with a negative offset that is not a whole hour (e.g. -0330)',
     breaks='it is read as a moment an hour or so earlier',
     demo='''
def demo():
    import datetime
    from bead.tech.timestamp import time_from_user, time_from_timestamp
    want = datetime.datetime(2020, 1, 1, 3, 30, tzinfo=datetime.timezone.utc)
    assert time_from_user('20200101T000000-0330') == want
    assert time_from_timestamp('20200101T000000000000-0330') == want
''')

seed('c15-any-digits', 'C15',
     [('bead/tech/timestamp.py', "    ('DIGIT',      '[0-9]')\n", "    ('DIGIT',      r'\\d')\n")],
     needs='a time with digits of other scripts (e.g. Arabic-Indic or full width digits)',
     breaks='it is silently read as some time instead of being refused',
     demo='''
def demo():
    from bead.tech.timestamp import time_from_user
    for text in ('\\uff12\\uff10\\uff12\\uff10', '202\\u0660', '2020-0\\u0967-01'):
        try:
            got = time_from_user(text)
        except ValueError:
            continue
        assert False, (text, got)
''')

seed('c16-unique-by-content', 'C16',
     [('bead_cli/web/commands.py', "enumerate(search(boxes).all())", "enumerate(search(boxes).unique().all())")],
     needs='the same bead stored under two names (a renamed copy)',
     breaks='one of the beads is missing from the web, or shown as missing',
     demo='''
def demo():
    d = box('b')
    make('ws')
    f, = beads_in(d)
    shutil.copy(os.path.join(d, f), os.path.join(d, 'renamed' + f[2:]))
    ok('web', 'save', path('x.web'))
    names = sorted(b['name'] for b in json.load(open(path('x.web'))))
    assert names == ['renamed', 'ws'], names
''')

seed('c17-head-by-text', 'C17',
     [('bead_cli/web/cluster.py', "            return (bead.is_not_phantom, bead.freeze_time)\n", "            return (bead.is_not_phantom, bead.freeze_time_str)\n")],
     needs='versions of a bead with different time zone offsets, out of date inputs',
     breaks='a superseded version is taken for the newest one of its name, so its inputs decide about freshness',
     demo='''
def demo():
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.freshness import Freshness
    from bead_cli.web.sketch import Sketch
    old = '20200101T120000000000+1200'    # 00:00 UTC
    new = '20200101T060000000000+0000'
    missing = InputSpec(name='missing', kind='m', content_id='1', freeze_time_str=old)
    s = Sketch.from_beads([
        Dummy(name='user', content_id='old', kind='u', freeze_time_str=old),
        Dummy(name='user', content_id='new', kind='u', freeze_time_str=new, inputs=[missing])])
    s.color_beads()
    got = {b.content_id: b.freshness for b in s.beads}
    assert got['new'] == Freshness.OUT_OF_DATE, got
    assert got['old'] == Freshness.SUPERSEDED, got
''')

seed('c18-heads-keep-more-links', 'C18',
     [('bead_cli/web/sketch.py', "    edges_as_refs = {(edge.src_ref, edge.dest_ref) for edge in sketch.edges}\n",
       "    src_refs = {edge.src_ref for edge in sketch.edges}\n"),
      ('bead_cli/web/sketch.py', "            if (input_ref, bead.ref) in edges_as_refs:\n", "            if input_ref in src_refs:\n")],
     needs='reducing to heads, when a direct input (not a head) of a head has an input that is kept for another reason',
     breaks='links between beads that are not heads remain',
     demo='''
def demo():
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web import sketch as m
    t = lambda n: f'2020010{n}T000000000000+0000'
    spec = lambda name, id, n: InputSpec(name=name, kind=name, content_id=id, freeze_time_str=t(n))
    raw = Dummy(name='raw', content_id='raw1', kind='raw', freeze_time_str=t(1))
    mid1 = Dummy(name='mid', content_id='mid1', kind='mid', freeze_time_str=t(2), inputs=[spec('raw', 'raw1', 1)])
    mid2 = Dummy(name='mid', content_id='mid2', kind='mid', freeze_time_str=t(3), inputs=[spec('raw', 'raw1', 1)])
    top = Dummy(name='top', content_id='top1', kind='top', freeze_time_str=t(4), inputs=[spec('mid', 'mid1', 2)])
    heads = m.heads_of(m.Sketch.from_beads([raw, mid1, mid2, top])).drop_deleted_inputs()
    got = sorted((e.src.content_id, e.dest.content_id) for e in heads.edges)
    assert got == [('mid1', 'top1'), ('raw1', 'mid2')], got
''')

seed('c19-helper-nodes-shared', 'C19',
     [('bead_cli/web/graphviz.py', "        self.__unique_node_counter += 1\n        return f\"unique_{self.__unique_node_counter}\"\n",
       "        self.__unique_node_counter += 1\n        return f\"unique_{src.content_id}_{self.__unique_node_counter}\"\n"),
      ('bead_cli/web/graphviz.py', "    def _get_unique_node_id(self):\n", "    def _get_unique_node_id(self, src):\n"),
      ('bead_cli/web/graphviz.py', "        for _ in range(4):\n            unique_node = self._get_unique_node_id()\n",
       "        self.__unique_node_counter = 0\n        for _ in range(4):\n            unique_node = self._get_unique_node_id(bead_src)\n")],
     needs='a bead used by more than one beads',
     breaks='the links from the same bead share helper nodes, so labels are not between the right beads',
     demo='''
def demo():
    import re
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.sketch import Sketch
    t = '20200101T000000000000+0000'
    d = InputSpec(name='data', kind='d', content_id='d1', freeze_time_str=t)
    dot = Sketch.from_beads([
        Dummy(name='data', content_id='d1', kind='d', freeze_time_str=t),
        Dummy(name='u1', content_id='u1', kind='u1', freeze_time_str=t, inputs=[d]),
        Dummy(name='u2', content_id='u2', kind='u2', freeze_time_str=t, inputs=[d])]).as_dot()
    # the sources of edges leading to the beads are different
    before = re.findall(r'(\\S+) -> "?(cluster_u[12])', dot)
    assert len(before) == 2 and len({src for src, _ in before}) == 2, dot
''')

seed('c20-only-loaded-inputs-saved', 'C20',
     [('bead/workspace.py', "                for input in workspace.inputs},\n", "                for input in workspace.inputs\n                if workspace.has_input(input.name) and (workspace.is_loaded(input.name) or not any(map(workspace.is_loaded, (i.name for i in workspace.inputs))))},\n")],
     needs='saving a workspace with some of its inputs loaded and others not',
     breaks='the references of the inputs that are not loaded get lost',
     demo='''
def demo():
    d = box('b')
    make('x')
    make('y')
    make('user')
    for n in 'xy':
        ok('input', 'add', n, '-w', path('user'))
    ok('input', 'unload', 'x', '-w', path('user'))
    save('user')
    with zipfile.ZipFile(os.path.join(d, beads_in(d, 'user_')[-1])) as z:
        inputs = json.loads(z.read('meta/bead'))['inputs']
    assert sorted(inputs) == ['x', 'y'], inputs
''')

seed('c21-timestamp-in-the-middle', 'C21',
     [('bead/ziparchive.py', "    name = re.sub('_[0-9]{8}(?:[tT][-+0-9]*)?$', '', name_with_timestamp)\n",
       "    name = re.sub('_[0-9]{8}(?:[tT][-+0-9]*)?(?![0-9])', '', name_with_timestamp)\n")],
     needs='a bead name with an underscore and 8 digits in the middle',
     breaks='the saved bead is not found by its name',
     demo='''
def demo():
    d = box('b')
    make('data_20150923_raw', output={'x': '1'})
    r = bead('edit', 'data_20150923_raw', 'copy')
    assert r.rc == 0, r
''')

seed('c21-name-stripped', 'C21',
     [('bead/box.py', "        self.conditions.append((QueryCondition.BEAD_NAME, name))\n", "        self.conditions.append((QueryCondition.BEAD_NAME, name.strip()))\n")],
     needs='a bead name that starts or ends with a space',
     breaks='the bead is not found by its name, but another one may be',
     demo='''
def demo():
    box('b')
    make(' data', output={'x': '1'})
    r = bead('edit', ' data', 'copy')
    assert r.rc == 0, r
''')

seed('c23-stops-at-lookalike', 'C23',
     [('bead/workspace.py', "        while not ws.is_valid:\n", "        while not (ws.directory / layouts.Workspace.META).is_dir():\n")],
     needs='a directory with a .bead-meta directory, which is not a workspace, between the current directory and the workspace',
     breaks='commands do not find the enclosing workspace',
     demo='''
def demo():
    ok('new', 'ws')
    os.makedirs(path('ws', 'lib', '.bead-meta'))
    r = ok('status', cwd=path('ws', 'lib'))
    assert 'Bead Name: ws' in r.out, r
''')

seed('c24-report-without-causes', 'C24',
     [('bead_cli/main.py', "        exception = traceback.format_exc()\n", "        exception = traceback.format_exc(chain=False)\n")],
     needs='an error raised because of another error',
     breaks='the report does not contain the original cause',
     demo='''
def demo():
    prog = """
import sys
from bead_cli.main import main
def run(config_dir, argv):
    try:
        {}['the real cause']
    except KeyError as e:
        raise RuntimeError('consequence') from e
sys.argv = ['bead', 'x']
main(run)
"""
    r = subprocess.run([sys.executable, '-c', prog], cwd=HOME, capture_output=True)
    report, = [f for f in os.listdir(HOME) if f.startswith('error_')]
    assert r.returncode and b'the real cause' in read(path(report)), read(path(report))
''')

seed('c25-common-temporary-file', 'C25',
     [('bead/workspace.py',
       "        zipfilename = fs.Path(zipfilename)\n        assert not zipfilename.exists()\n        try:\n            _ZipCreator().create(zipfilename, self, freeze_time, comment)\n",
       "        zipfilename = fs.Path(zipfilename)\n        assert not zipfilename.exists()\n        try:\n            # never show an incomplete bead\n            new = zipfilename.parent / f'.{self.name}.new'\n            _ZipCreator().create(new, self, freeze_time, comment)\n            os.rename(new, zipfilename)\n")],
     needs='two saves of beads with the same name into the same box at the same time',
     breaks='they write the same temporary file: one of the saves fails or stores a mix of the two',
     demo='''
def demo():
    d = path('box')
    os.makedirs(d)
    from bead.box import Box
    from bead.workspace import Workspace
    from bead.ziparchive import ZipArchive
    from pathlib import Path
    for n in 'ab':
        os.makedirs(path(n))
        ok('new', os.path.join(n, 'ws'))
        write(path(n, 'ws', 'output', 'f'), n * 100000)

    class Slow(Workspace):
        """Another save happens while this one is at its metadata."""
        saved = False

        @property
        def kind(self):
            if not self.saved:
                self.saved = True
                Box('b', Path(d)).store(Workspace(path('b', 'ws')), '20200101T000001000000+0000')
            return Workspace.kind.fget(self)
    Box('b', Path(d)).store(Slow(path('a', 'ws')), '20200101T000002000000+0000')
    got = {}
    for f in beads_in(d):
        a = ZipArchive(Path(d) / f)
        a.validate()
        a.unpack_data_to(Path(path('out', f)))
        got[f[3:18]] = read(path('out', f, 'f'))[:1]
    assert got == {'20200101T000001': b'b', '20200101T000002': b'a'}, got
''')

seed('c25-locked-index-fails-save', 'C25',
     [('bead/box_index.py',
       "                    insert_input_record(conn, archive.name, archive.content_id, input_spec)\n                \n                conn.commit()\n        except Exception:\n            pass\n",
       "                    insert_input_record(conn, archive.name, archive.content_id, input_spec)\n                \n                conn.commit()\n        except (InvalidArchive, ValueError):\n            pass\n"),
      ('bead/box_index.py', "from .exceptions import BoxIndexError\n", "from .exceptions import BoxIndexError\nfrom .exceptions import InvalidArchive\n"),
      ('bead/box_index.py', "    conn = sqlite3.connect(str(index_path))\n", "    conn = sqlite3.connect(str(index_path), timeout=0.1)\n")],
     needs='the index is locked by another command just when a save would register the new bead in it',
     breaks='the save fails because of the other command',
     demo='''
def demo():
    d = box('b')
    make('ws')
    ok('box', 'index')
    import sqlite3
    from bead.box import Box
    from bead.workspace import Workspace
    from pathlib import Path
    lock = sqlite3.connect(os.path.join(d, '.index.sqlite'), isolation_level=None)
    lock.execute('begin exclusive')
    try:
        Box('b', Path(d)).store(Workspace(path('ws')), '20200101T000002000000+0000')
    finally:
        lock.execute('rollback')
        lock.close()
''')

seed('c26-autocommit', 'C26',
     [('bead/box_index.py', "    conn = sqlite3.connect(str(index_path))\n", "    conn = sqlite3.connect(str(index_path), isolation_level=None)\n")],
     needs='indexing is killed between adding a bead and its inputs',
     breaks='the bead stays in the index without (all of) its inputs, and indexing again does not repair it',
     demo='''
def demo():
    d = box('b')
    make('x')
    make('y')
    make('user')
    for n in 'xy':
        ok('input', 'add', n, '-w', path('user'))
    save('user')
    want = None
    from bead.box import Box, search
    from pathlib import Path
    index = os.path.join(d, '.index.sqlite')
    # killed at the nth statement changing the index
    for n in range(1, 40):
        if os.path.exists(index):
            os.unlink(index)
        prog = """
import os, sys, sqlite3
n = int(sys.argv.pop())
real = sqlite3.connect
class Killer(sqlite3.Connection):
    def execute(self, sql, *args):
        global n
        if sql.lstrip().split()[0].upper() in ('INSERT', 'DELETE'):
            n -= 1
            if n == 0:
                os._exit(9)
        return super().execute(sql, *args)
def connect(*args, **kw):
    return real(*args, **{**kw, 'factory': Killer})
sqlite3.connect = connect
from bead_cli.main import main
main()
"""
        r = subprocess.run([sys.executable, '-c', prog, 'box', 'index', str(n)], cwd=HOME, capture_output=True)
        if r.returncode == 0:
            break
        ok('box', 'index')
        got = sorted(len(b.inputs) for b in search([Box('b', Path(d))]).all())
        assert got == [0, 0, 0, 2], (n, got)
''')

seed('c27-empty-data-not-loaded', 'C27',
     [('bead/workspace.py', "        return (self.directory / layouts.Workspace.INPUT / input_nick).is_dir()\n",
       "        input_dir = self.directory / layouts.Workspace.INPUT / input_nick\n        return input_dir.is_dir() and any(input_dir.iterdir())\n")],
     needs='an input with a bead that has no output files',
     breaks='status says that it is not loaded, although it is',
     demo='''
def demo():
    box('b')
    make('data')
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    assert os.path.isdir(path('user', 'input', 'data'))
    r = ok('status', '-w', path('user'))
    assert 'NOT LOADED' not in r.out, r
''')

seed('c27-same-time-is-exact', 'C27',
     [('bead_cli/workspace.py', "                    if best_bead.content_id == input.content_id:\n", "                    if best_bead.freeze_time == input.freeze_time:\n")],
     needs='another bead of the same kind saved at the very same time in one of the boxes',
     breaks='a box which has only that other bead is marked as having the exact bead',
     demo='''
def demo():
    a, b = box('a'), box('b')
    archive(os.path.join(a, 'data_20200101.zip'), files={'data/x': 'a'})
    archive(os.path.join(b, 'fork_20200101.zip'), files={'data/x': 'b'})
    ok('new', 'user')
    ok('input', 'add', 'data', '-w', path('user'))
    r = ok('status', '-w', path('user'))
    assert '* -r a ' in r.out and '* -r b ' not in r.out, r
''')
