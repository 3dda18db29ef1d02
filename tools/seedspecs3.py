seed('c01-directory-visited-once', 'C01',
     [('bead/workspace.py', "        self.hashes = {}\n        self.zipfile = None\n\n    def add_hash",
       "        self.hashes = {}\n        self.visited = set()\n        self.zipfile = None\n\n    def add_hash"),
      ('bead/workspace.py', "        if os.path.isdir(path):\n            self.add_directory(path, zip_path)\n",
       "        if os.path.isdir(path):\n            # do not be caught in a cycle of links\n            real_path = os.path.realpath(path)\n"
       "            if real_path not in self.visited:\n                self.visited.add(real_path)\n                self.add_directory(path, zip_path)\n")],
     needs='two symbolic links to the same directory, or one to a directory which is itself saved, in one workspace',
     breaks='files of the directory are stored under one of the paths only',
     demo='''
def demo():
    box('b')
    shared = path('shared')
    write(os.path.join(shared, 'f'), 'x')
    ok('new', 'ws')
    os.symlink(shared, path('ws', 'output', 'one'))
    os.symlink(shared, path('ws', 'output', 'two'))
    save('ws')
    ok('edit', '--review', 'ws', 'copy')
    assert tree(path('copy', 'output')) == {'one/f': b'x', 'two/f': b'x'}, tree(path('copy'))
''')

seed('c02-unicode-kept', 'C02',
     [('bead/tech/persistence.py', "    ensure_ascii=True,\n", "    ensure_ascii=False,\n")],
     needs='a file, input or bead name with characters beyond ASCII',
     breaks='the content id is another function of the content than the documented one for such beads',
     demo='''
def demo():
    d = box('b')
    make('á', output={'é': 'x'})
    import hashlib
    f, = beads_in(d)
    with zipfile.ZipFile(os.path.join(d, f)) as z:
        m = z.read('meta/manifest')
        files = {n: z.read(n) for n in z.namelist() if n != 'meta/manifest'}
    digest = lambda b: hashlib.sha512(b'%d:' % len(b) + b + b';%d' % len(b)).hexdigest()
    assert m == json.dumps({n: digest(c) for n, c in files.items()}, sort_keys=True, indent=4).encode(), m
''')

seed('c02-text-files-normalized', 'C02',
     [('bead/workspace.py', "        for f in os.listdir(path):\n            self.add_path(path / f, f'{zip_path}/{f}')\n",
       "        for f in os.listdir(path):\n            # no need for backup and editor files\n            if not f.endswith('~'):\n"
       "                self.add_path(path / f, f'{zip_path}/{f}')\n")],
     needs='files with names ending with a tilde, below the top level',
     breaks='such files are left out: beads that differ only in them have the same content id',
     demo='''
def demo():
    box('b')
    make('ws', output={'notes~': 'x'}, box='b')
    ok('edit', '--review', 'ws', 'copy')
    assert tree(path('copy', 'output')) == {'notes~': b'x'}, tree(path('copy'))
''')

seed('c03-metadata-not-verified', 'C03',
     [('bead/ziparchive.py', "        for name, hash in self.manifest.items():\n            try:\n",
       "        for name, hash in self.manifest.items():\n            if name == layouts.Archive.BEAD_META:\n"
       "                # already loaded and checked\n                continue\n            try:\n"),
      ('bead/ziparchive.py', "            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)\n            if hash != archived_hash:\n",
       "            with self.zipfile.open(info) as f:\n                archived_hash = securehash.file(f, info.file_size)\n            if hash != archived_hash:\n")],
     needs='a bead with its metadata replaced, everything else (including the manifest) kept',
     breaks='a bead with falsified kind, time or inputs passes verification with the original content id',
     demo='''
def demo():
    d = box('b')
    make('ws', output={'data.csv': 'good'})
    f = os.path.join(d, *beads_in(d))
    with zipfile.ZipFile(f) as z:
        entries = {n: z.read(n) for n in z.namelist()}
    m = json.loads(entries['meta/bead'])
    m['kind'] = 'other'
    entries['meta/bead'] = json.dumps(m).encode()
    with zipfile.ZipFile(f, 'w') as z:
        for n, c in entries.items():
            z.writestr(n, c)
    r = bead('edit', f, 'copy')
    assert r.rc != 0 and not os.path.exists(path('copy')), r
''')

seed('c04-keeps-symlinks', 'C04',
     [('bead/ziparchive.py', "        with self.zipfile.open(zip_path) as source:\n            with open(fs_path, 'wb') as target:\n                shutil.copyfileobj(source, target)\n",
       "        info = self.zipfile.getinfo(zip_path)\n        mode = info.external_attr >> 16\n        with self.zipfile.open(info) as source:\n"
       "            if stat.S_ISLNK(mode):\n                os.symlink(source.read(), os.fsencode(fs_path))\n                return\n"
       "            with open(fs_path, 'wb') as target:\n                shutil.copyfileobj(source, target)\n"),
      ('bead/ziparchive.py', "import shutil\n\nfrom . import layouts\n", "import shutil\nimport stat\n\nfrom . import layouts\n")],
     needs='an archive made with a symbolic link entry to a directory outside, and a file entry below that link',
     breaks='extracting it writes outside of the new workspace, through the link',
     demo='''
def demo():
    d = box('b')
    outside = path('outside')
    os.makedirs(outside)
    import hashlib

    def digest(b):
        return hashlib.sha512(b'%d:' % len(b) + b + b';%d' % len(b)).hexdigest()
    f = os.path.join(d, 'evil_20200101.zip')
    archive(f, files={'code/link': outside, 'code/link/f': 'x'})
    with zipfile.ZipFile(f) as z:
        entries = {n: z.read(n) for n in z.namelist()}
    with zipfile.ZipFile(f, 'w') as z:
        for n, c in entries.items():
            i = zipfile.ZipInfo(n)
            i.external_attr = (0o120777 if n == 'code/link' else 0o100644) << 16
            z.writestr(i, c)
    bead('edit', f, 'copy')
    assert os.listdir(outside) == [], os.listdir(outside)
''')

seed('c05-removes-existing', 'C05',
     [('bead/workspace.py', "        zipfilename = fs.Path(zipfilename)\n        assert not zipfilename.exists()\n        try:\n",
       "        zipfilename = fs.Path(zipfilename)\n        try:\n            assert not zipfilename.exists()\n")],
     needs='a save at the very same moment as an earlier save of a bead with the same name into the same box',
     breaks='the earlier bead is deleted from the box when the save fails',
     demo='''
def demo():
    d = box('b')
    ok('new', 'ws')
    sys.path.insert(0, REPO)
    from bead.box import Box
    from bead.tech.fs import Path
    from bead.workspace import Workspace
    b = Box('b', Path(d))
    t = '20200101T000000000000+0000'
    b.store(Workspace(path('ws')), t)
    before = tree(d)
    try:
        b.store(Workspace(path('ws')), t)
    except AssertionError:
        pass
    assert tree(d) == before
''')

seed('c06-name-ignoring-case', 'C06',
     [('bead/box_index.py', "        QueryCondition.BEAD_NAME: ('name = ?', lambda v: v),\n", "        QueryCondition.BEAD_NAME: ('name LIKE ?', lambda v: v.replace('%', '').replace('_', '_')),\n")],
     needs='an indexed box with beads whose names differ only in letter case, or only in a character where the other has an underscore',
     breaks='searching by name also finds beads with other names',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'a_b_20200101T000000000000+0000.zip'), files={'code/c': 'right'})
    archive(os.path.join(d, 'a-b_20210101T000000000000+0000.zip'), freeze_time='20210101T000000000000+0000', files={'code/c': 'wrong'})
    ok('box', 'index')
    ok('edit', 'a_b', 'copy')
    assert read(path('copy', 'c')) == b'right'
''')

seed('c06-first-of-boxes-newest', 'C06',
     [('bead/box.py', "        sorted_beads = sorted(beads, key=lambda b: b.freeze_time, reverse=True)\n",
       "        sorted_beads = sorted(beads, key=lambda b: b.freeze_time_str, reverse=True)\n")],
     needs='n-th older search over beads saved with different time zone offsets within hours of each other',
     breaks='the wrong bead is given as the n-th older one',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'x_20200101.zip'), freeze_time='20200101T100000000000+0900', files={'code/c': '1'})
    newest = archive(os.path.join(d, 'x_20200102.zip'), freeze_time='20200101T050000000000+0000', files={'code/c': '2'})
    sys.path.insert(0, REPO)
    from bead.box import Box
    from bead.tech.fs import Path
    assert Box('b', Path(d)).search().older(0).content_id == newest
''')

seed('c07-known-bead-not-indexed-again', 'C07',
     [('bead/box_index.py', "                # Add new files to index\n                if str(relative_path) not in indexed_files:\n                    self.index_archive_file(archive_path)\n            \n"
       "            # Remove files from index that no longer exist\n            orphaned_files = indexed_files - current_files\n"
       "            for file_path in orphaned_files:\n                orphaned_archive_path = self.box_directory / file_path\n                self.unindex_archive_file(orphaned_archive_path)\n",
       "            # Remove files from index that no longer exist\n            orphaned_files = indexed_files - current_files\n"
       "            # Add new files to index\n            for file_path in current_files - indexed_files:\n                self.index_archive_file(self.box_directory / file_path)\n\n"
       "            for file_path in orphaned_files:\n                orphaned_archive_path = self.box_directory / file_path\n                self.unindex_archive_file(orphaned_archive_path)\n"),
      ('bead/box_index.py', "        INSERT OR REPLACE INTO beads \n", "        INSERT OR IGNORE INTO beads \n")],
     needs='an indexed bead whose file is renamed to another name of the same bead, then box index (not reindex)',
     breaks='the bead is lost from the index, as the new file is ignored and then the record of the old one is removed',
     demo='''
def demo():
    d = box('b')
    make('ws', code={'c': 'x'})
    ok('box', 'index')
    f, = beads_in(d)
    os.rename(os.path.join(d, f), os.path.join(d, 'ws_20200101.zip'))
    ok('box', 'index')
    ok('edit', 'ws', 'copy')
    assert read(path('copy', 'c')) == b'x'
''')

seed('c07-reindex-is-sync', 'C07',
     [('bead/box_index.py', "        if self.index_path.exists():\n            self.index_path.unlink()\n        \n        for zip_path in self.box_directory.glob('*.zip'):\n            self.index_archive_file(zip_path)\n",
       "        for zip_path in self.box_directory.glob('*.zip'):\n            self.index_archive_file(zip_path)\n        # forget deleted files\n        self.sync()\n")],
     needs='a file of an indexed box overwritten with another bead under the very same file name, then reindex',
     breaks='reindexing keeps the record of the bead that is not there any more',
     demo='''
def demo():
    d = box('b')
    f = os.path.join(d, 'ws_20200101.zip')
    archive(f, files={'code/c': 'old'}, freeze_time='20200105T000000000000+0000')
    ok('box', 'index')
    archive(f, files={'code/c': 'new'}, freeze_time='20200101T000000000000+0000')
    ok('box', 'reindex')
    ok('edit', 'ws', 'copy')
    assert read(path('copy', 'c')) == b'new'
''')

seed('c08-first-bad-stops', 'C08',
     [('bead/box_index.py', "        for zip_path in self.box_directory.glob('*.zip'):\n            self.index_archive_file(zip_path)\n    \n    def sync",
       "        for zip_path in self.box_directory.glob('*.[zZ][iI][pP]'):\n            self.index_archive_file(zip_path)\n    \n    def sync"),
      ('bead/box_index.py', "            archive = ZipArchive(archive_path, box_name='')\n            archive.validate()\n            \n            relative_path",
       "            archive = ZipArchive(archive_path, box_name='')\n            if archive_path.stat().st_size > 1 << 20:\n                # big files are verified when they are used\n"
       "                archive.content_id\n            else:\n                archive.validate()\n            \n            relative_path")],
     needs='a damaged copy of a bead larger than a megabyte in a box that is indexed, under a file name that comes later',
     breaks='the damaged copy hides the intact one',
     demo='''
def demo():
    d = box('b')
    big = os.urandom(1 << 21)
    make('ws', output={'big': big})
    f, = beads_in(d)
    for other in ('ws_19900101.zip', 'ws_20990101.zip', 'ws.zip', 'ws_20010101.zip', 'ws_20020202.zip', 'ws_20030303.zip'):
        with open(os.path.join(d, other), 'wb') as out:
            content = bytearray(read(os.path.join(d, f)))
            at = content.index(big[:100]) + 5000 if big[:100] in content else 100000
            content[at] ^= 1
            out.write(content)
    ok('box', 'reindex')
    make('user')
    ok('input', 'add', 'ws', '-w', path('user'))
    assert read(path('user', 'input', 'ws', 'big')) == big
''')

seed('c09-load-uses-name', 'C09',
     [('bead_cli/input.py', "    assert input is not None\n    if not workspace.is_loaded(input.name):\n", "    assert input is not None\n    is_loaded = workspace.is_loaded(input.name)\n    if not is_loaded:\n"),
      ('bead_cli/input.py', "            for bead in box.search().by_content_id(input.content_id).all():\n",
       "            for bead in box.search().by_kind(input.kind).at_time(input.freeze_time).all():\n")],
     needs='an input whose recorded bead is not available, but another one of the same kind and the same moment is (e.g. saved from a copy of the workspace, or a renamed one)',
     breaks='loading brings the data of another bead and changes the reference',
     demo='''
def demo():
    d = box('b')
    t = '20200101T000000000000+0000'
    f = os.path.join(d, 'data_20200101.zip')
    archive(f, files={'data/f': 'right'}, freeze_time=t)
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    ok('input', 'unload', 'data', '-w', path('user'))
    archive(f, files={'data/f': 'wrong'}, freeze_time=t)
    bead('input', 'load', '-w', path('user'))
    assert not os.path.exists(path('user', 'input', 'data')), read(path('user', 'input', 'data', 'f'))
''')

seed('c10-update-all-never-back', 'C10',
     [('bead_cli/input.py', "                bead = search(env.get_boxes()).by_kind(input.kind).at_or_older(args.bead_time).newest()\n                # Resolve bead to archive for _update_input\n",
       "                bead = search(env.get_boxes()).by_kind(input.kind).at_or_newer(input.freeze_time).at_or_older(args.bead_time).newest()\n                # Resolve bead to archive for _update_input\n")],
     needs='updating all inputs to a time before the version in use, with an older version in a box',
     breaks='the inputs stay at a version later than the time given',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'one_20200101.zip'), files={'data/f': 'old'}, freeze_time='20200101T000000000000+0000')
    archive(os.path.join(d, 'one_20210101.zip'), files={'data/f': 'new'}, freeze_time='20210101T000000000000+0000')
    make('user')
    ok('input', 'add', 'one', '-w', path('user'))
    ok('input', 'update', '-t', '2020-06-01', '-w', path('user'))
    assert read(path('user', 'input', 'one', 'f')) == b'old'
''')

seed('c11-unload-in-place', 'C11',
     [('bead/workspace.py', "        assert self.has_input(input_nick)\n        input_dir = self.directory / layouts.Workspace.INPUT\n        data_dir = input_dir / input_nick\n        fs.make_writable(input_dir)\n        try:\n            # move away first, so that partially removed data is never seen as loaded\n            with fs.temp_dir(input_dir) as staging_dir:\n                if not data_dir.is_symlink():\n                    fs.make_writable(data_dir)\n"
       "                os.rename(data_dir, staging_dir / 'data')\n                fs.rmtree(staging_dir / 'data')\n",
       "        input_dir = self.directory / layouts.Workspace.INPUT\n        data_dir = input_dir / input_nick\n        assert self.has_input(input_nick) and input_dir.is_dir()\n        fs.make_writable(input_dir)\n        try:\n            if not data_dir.is_symlink():\n                fs.make_writable(data_dir)\n            fs.rmtree(data_dir)\n")],
     needs='a crash or failure in the middle of removing the data of an input',
     breaks='an input counts as loaded with only a part of its files',
     demo='''
def demo():
    box('b')
    make('data', output={str(i): 'x' for i in range(9)})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    code = (
        'import os, sys\\n'
        'sys.path.insert(0, %r)\\n'
        'real, n = os.unlink, [0]\\n'
        'def unlink(*a, **k):\\n'
        '    n[0] += 1\\n'
        '    if n[0] == 4: os._exit(9)\\n'
        '    return real(*a, **k)\\n'
        'os.unlink = unlink\\n'
        'import bead_cli.main\\n'
        'sys.argv = ["bead", "input", "unload", "data", "-w", %r]\\n'
        'bead_cli.main.main()\\n') % (REPO, path('user'))
    p = subprocess.run([sys.executable, '-c', code], cwd=HOME)
    assert p.returncode == 9, p
    d = path('user', 'input', 'data')
    assert not os.path.isdir(d) or len(tree(d)) == 9, tree(d)
''')

seed('c12-missing-directories-dropped', 'C12',
     [('bead_cli/environment.py', "            for box in boxes]\n\n    def add_box", "            for box in boxes\n            if box.location.is_dir()]\n\n    def add_box")],
     needs='a box whose directory is not available at the moment (e.g. not mounted), while another box is added or forgotten',
     breaks='that box is forgotten as well',
     demo='''
def demo():
    d = box('far')
    os.rename(d, d + '-away')
    box('near')
    os.rename(d + '-away', d)
    assert 'far: ' in ok('box', 'list').out, ok('box', 'list')
''')

seed('c12-names-ignoring-case', 'C12',
     [('bead_cli/environment.py', "            if box.name != name)\n", "            if box.name.lower() != name.lower())\n")],
     needs='two boxes with names that differ only in letter case, and one of them forgotten',
     breaks='both are forgotten',
     demo='''
def demo():
    box('Data')
    box('data', 'other-dir')
    ok('box', 'forget', 'Data')
    assert 'data: ' in ok('box', 'list').out
''')

seed('c13-index-removes-empty-files', 'C13',
     [('bead/box_index.py', "            for archive_path in self.box_directory.glob('*.zip'):\n                relative_path = archive_path.relative_to(self.box_directory)\n                current_files.add(str(relative_path))\n",
       "            for archive_path in self.box_directory.glob('*.zip'):\n                if archive_path.is_file() and archive_path.stat().st_size == 0:\n"
       "                    # left over of an interrupted save\n                    archive_path.unlink()\n                    continue\n                relative_path = archive_path.name\n                current_files.add(relative_path)\n")],
     needs='a zero length file with a name ending in .zip in a box that gets indexed (a foreign one or one just being written by a concurrent save)',
     breaks='indexing removes a file from the box',
     demo='''
def demo():
    d = box('b')
    make('ws')
    write(os.path.join(d, 'downloading.zip'), b'')
    ok('box', 'index')
    assert os.path.exists(os.path.join(d, 'downloading.zip'))
''')

seed('c15-repeated-units', 'C15',
     [('bead/tech/timestamp.py', "        delta = timedelta()\n        for amount, unit_abbrev in re.findall(_DELTA, delta_str):\n            delta += timedelta(**{_TIME_UNITS[unit_abbrev]: int(amount)})\n        return delta\n",
       "        sign, amounts = 1, {}\n        for amount, unit_abbrev in re.findall(_DELTA, delta_str):\n            unit = _TIME_UNITS[unit_abbrev]\n"
       "            if amount[0] in '+-':\n                sign = -1 if amount[0] == '-' else 1\n            amounts[unit] = amounts.get(unit, 0) + sign * int(amount.lstrip('+-'))\n        return timedelta(**amounts)\n")],
     needs='a relative time with a negative part followed by a part without a sign',
     breaks='the part without a sign is also taken as negative',
     demo='''
def demo():
    sys.path.insert(0, REPO)
    from datetime import timedelta
    from bead.tech.timestamp import parse_timedelta
    assert parse_timedelta('-1w2d') == timedelta(days=-5), parse_timedelta('-1w2d')
''')

seed('c16-freshness-lost', 'C16',
     [('bead_cli/web/sketch.py', "        beads.append(attr.evolve(bead, inputs=inputs_to_keep))\n",
       "        beads.append(attr.evolve(bead, inputs=inputs_to_keep, freshness=bead.freshness if inputs_to_keep else attr.fields(Dummy).freshness.default))\n")],
     needs='filtering a web where a missing bead or a coloured bead without remaining inputs stays',
     breaks='beads without inputs lose their colour, and missing ones their mark, when the web is filtered',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'user_20200101.zip'), inputs={'gone': {
        'kind': 'k', 'content_id': 'c', 'freeze_time': '20190101T000000000000+0000'}})
    ok('web', '/', 'gone', '..', '/', 'save', 'x.web')
    web = json.loads(read(path('x.web')))
    fresh = {b['name']: b['freshness']['value'] for b in web}
    assert fresh['gone'] == 'PHANTOM', fresh
''')

seed('c18-sources-and-sinks-joined', 'C18',
     [('bead_cli/web/graph.py', "        for edge in edges_by_src[src]:\n            dest_id = edge.dest_ref\n            if dest_id not in reachable:\n                todo.add(dest_id)\n",
       "        todo.update(edge.dest_ref for edge in edges_by_src[src])\n        todo -= reachable\n        if len(reachable) > 3 * len(roots) and not todo:\n            break\n"
       "        if src in roots and len(edges_by_src[src]) == 0:\n            reachable.discard(src)\n")],
     needs='a named cluster which leads nowhere, but is reachable from another named cluster',
     breaks='the cluster is dropped from the filtered web with its links',
     demo='''
def demo():
    d = box('b')
    t = '20190101T000000000000+0000'
    a = archive(os.path.join(d, 'a_20200101.zip'), files={'code/c': 'a'}, freeze_time=t, kind='a', name='a')
    b = archive(os.path.join(d, 'b_20200101.zip'), files={'code/c': 'b'}, freeze_time=t, kind='b', name='b',
                inputs={'a': {'kind': 'a', 'content_id': a, 'freeze_time': t}})
    for i in range(12):
        ok('web', '/', 'a', 'b', '..', '/', 'save', 'x.web', cwd=HOME)
        names = {x['name'] for x in json.loads(read(path('x.web')))}
        assert names == {'a', 'b'}, names
''')

seed('c19-short-ports', 'C19',
     [('bead_cli/web/graphviz.py', '        self.input = f"in_{content_id}"\n        self.output = f"out_{content_id}"\n',
       '        self.input = f"in_{content_id[:8]}"\n        self.output = f"out_{content_id[-8:]}"\n')],
     needs='two beads of the same name with content ids that begin (or end) the same way, e.g. missing beads of an imported web',
     breaks='links lead to the row of another bead',
     demo='''
def demo():
    t = '2020010%dT000000000000+0000'
    ref = lambda n, c, i: {'@class': 'InputSpec', '@encoding': 'attrs', 'name': n, 'content_id': c, 'kind': 'k', 'freeze_time_str': t % i}
    b = lambda n, c, i, inputs: {
        '@class': 'Dummy', '@encoding': 'attrs', 'name': n, 'content_id': c, 'kind': 'k', 'freeze_time_str': t % i, 'inputs': inputs,
        'box_name': 'b', 'freshness': {'@class': 'Freshness', '@encoding': 'enum', 'value': 'SUPERSEDED'}}
    write(path('x.web'), json.dumps([
        b('a', 'commonprefix1-commonsuffix', 1, []), b('a', 'commonprefix2-commonsuffix', 2, []),
        b('u', 'x', 3, [ref('a', 'commonprefix1-commonsuffix', 1)])]))
    ok('web', 'load', 'x.web', 'dot', 'x.dot')
    import re
    ports = re.findall('PORT="([^"]*)"', read(path('x.dot')).decode())
    assert len(ports) == len(set(ports)) == 6, ports
''')

seed('c20-kind-by-place', 'C20',
     [('bead/tech/identifier.py', "    return str(scrambled_uuid1) + '-' + str(uuid4())\n",
       "    return str(scrambled_uuid1) + '-' + str(uuid4())\n\n\ndef uuid_of(thing):\n    return str(uuid5(NAMESPACE_URL, thing))\n"),
      ('bead/tech/identifier.py', "from uuid import uuid1\n", "from uuid import NAMESPACE_URL\nfrom uuid import uuid1\n"),
      ('bead/tech/identifier.py', "from uuid import uuid4\n", "from uuid import uuid4\nfrom uuid import uuid5\n"),
      ('bead_cli/workspace.py', "        kind = tech.identifier.uuid()\n", "        kind = tech.identifier.uuid_of(f'{os.uname().nodename}:{workspace.directory}')\n")],
     needs='a new workspace at the place of an earlier one that was discarded or moved away',
     breaks='the new bead has the kind of the earlier one',
     demo='''
def demo():
    ok('new', 'ws')
    k1 = ok('status', '-v', '-w', path('ws')).out
    ok('discard', 'ws')
    ok('new', 'ws')
    k2 = ok('status', '-v', '-w', path('ws')).out
    assert k1 != k2, k1
''')

seed('c21-zip-in-the-name', 'C21',
     [('bead/ziparchive.py', "    name_with_timestamp, ext = os.path.splitext(os.path.basename(path))\n",
       "    name_with_timestamp, *ext = re.split('[.]zip', os.path.basename(path))\n")],
     needs='a bead name with .zip in it',
     breaks='the saved bead is listed under a shorter name, and not found under its own',
     demo='''
def demo():
    box('b')
    make('ws.zipped', code={'c': 'x'})
    ok('edit', 'ws.zipped', 'copy')
''')

seed('c23-explicit-walks-up', 'C23',
     [('bead_cli/common.py', "def assert_valid_workspace(workspace):\n    if not workspace.is_valid:\n        die(f'{workspace.directory} is not a valid workspace')\n",
       "def assert_valid_workspace(workspace):\n    directory = workspace.directory\n    while not workspace.is_valid and workspace.directory != workspace.directory.parent:\n"
       "        # can be given by any of its files and directories\n        workspace.directory = workspace.directory.parent\n    if not workspace.is_valid:\n        workspace.directory = directory\n        die(f'{directory} is not a valid workspace')\n")],
     needs='a directory that is not a workspace, but is inside of one, given explicitly with -w',
     breaks='the command acts on another workspace than the one given (e.g. discard removes the enclosing workspace)',
     demo='''
def demo():
    ok('new', 'ws')
    os.makedirs(path('ws', 'output', 'part'))
    bead('discard', path('ws', 'output', 'part'))
    assert os.path.exists(path('ws', 'output', 'part'))
''')

seed('c24-report-shortened', 'C24',
     [('bead_cli/main.py', "        exception = traceback.format_exc()\n", "        exception = ''.join(traceback.format_exc()[-20000:])\n"),
      ('bead_cli/main.py', "        sys_argv = f'{sys.argv!r}'\n", "        sys_argv = reprlib.Repr(maxlist=20, maxstring=200).repr(sys.argv)\n"),
      ('bead_cli/main.py', "import os\nimport subprocess\n", "import os\nimport reprlib\nimport subprocess\n")],
     needs='a failing command with long arguments (e.g. a path of more than 200 characters), or many of them',
     breaks='the report does not contain the arguments in full',
     demo='''
def demo():
    long = path('x' * 150, 'y' * 150)
    write(long, 'not a bead')
    d = path('conf')
    r = bead('web', 'load', long)
    reports = [f for f in os.listdir(HOME) if f.startswith('error_')]
    assert len(reports) == 1, r
    first = read(path(reports[0])).decode().splitlines()[0]
    assert long in first, first
''')

seed('c25-sync-cleans-up', 'C25',
     [('bead/box_index.py', "    def index_archive_file(self, archive_path: Path):\n        '''Add single bead to index.'''\n        try:\n            archive = ZipArchive(archive_path, box_name='')\n            archive.validate()\n",
       "    def index_archive_file(self, archive_path: Path):\n        '''Add single bead to index.'''\n        try:\n            try:\n                archive = ZipArchive(archive_path, box_name='')\n"
       "                archive.validate()\n            except InvalidArchive:\n                if archive_path.stat().st_size < 22:\n                    # shorter than the shortest zip file: what is left of a failed save\n"
       "                    archive_path.unlink()\n                raise\n"),
      ('bead/box_index.py', "from .exceptions import BoxIndexError\n", "from .exceptions import BoxIndexError\nfrom .exceptions import InvalidArchive\n")],
     needs='a box indexed or reindexed exactly while a save is writing the first bytes of its file',
     breaks='the save reports success (or fails), but its bead is lost',
     demo='''
def demo():
    d = box('b')
    make('ws', box='b')
    write(os.path.join(d, 'new_20200101.zip'), b'PK')
    ok('box', 'index')
    assert os.path.exists(os.path.join(d, 'new_20200101.zip'))
''')

seed('c26-stale-new-index', 'C26',
     [('bead/box_index.py', "        if self.index_path.exists():\n            self.index_path.unlink()\n        \n        for zip_path in self.box_directory.glob('*.zip'):\n            self.index_archive_file(zip_path)\n",
       "        # prepare it aside, so that searches can go on meanwhile\n        new_index = BoxIndex(self.box_directory)\n        new_index.index_path = self.box_directory / '.index.sqlite.new'\n\n"
       "        for zip_path in self.box_directory.glob('*.zip'):\n            new_index.index_archive_file(zip_path)\n\n        if new_index.index_path.exists():\n            new_index.index_path.replace(self.index_path)\n"
       "        elif self.index_path.exists():\n            self.index_path.unlink()\n            ensure_index(self.box_directory)\n")],
     needs='reindex interrupted, then a bead deleted from the box, then reindex',
     breaks='the deleted bead is still listed, its input links and all',
     demo='''
def demo():
    d = box('b')
    for i in range(3):
        archive(os.path.join(d, f'b{i}_20200101.zip'), files={'code/c': str(i)}, kind=str(i))
    code = (
        'import os, sys\\n'
        'sys.path.insert(0, %r)\\n'
        'import bead.box_index as m\\n'
        'real, n = m.BoxIndex.index_archive_file, [0]\\n'
        'def f(*a):\\n'
        '    n[0] += 1\\n'
        '    if n[0] == 3: os._exit(9)\\n'
        '    return real(*a)\\n'
        'm.BoxIndex.index_archive_file = f\\n'
        'import bead_cli.main\\n'
        'sys.argv = ["bead", "box", "reindex"]\\n'
        'bead_cli.main.main()\\n') % REPO
    p = subprocess.run([sys.executable, '-c', code], cwd=HOME)
    assert p.returncode == 9, p
    for f in beads_in(d):
        os.unlink(os.path.join(d, f))
    archive(os.path.join(d, 'other_20200101.zip'), files={'code/c': 'x'})
    ok('box', 'reindex')
    ok('web', 'save', 'x.web')
    names = {b['name'] for b in json.loads(read(path('x.web')))}
    assert names == {'other'}, names
''')

seed('c27-last-box-wins', 'C27',
     [('bead_cli/workspace.py', "                    bead = box.search().by_content_id(input.content_id).first()\n                    bead_name = bead.name\n                    break\n                except LookupError:\n                    continue\n",
       "                    bead = box.search().by_kind(input.kind).by_content_id(input.content_id).newest()\n                    bead_name = bead.name\n                except LookupError:\n                    bead_name = None\n")],
     needs='more than one box, and the bead is not in the last one',
     breaks='the bead is reported as missing though another box holds it',
     demo='''
def demo():
    box('b1')
    box('b2')
    make('data', box='b1')
    make('user', box='b1')
    ok('input', 'add', 'data', '-w', path('user'))
    r = ok('status', '-w', path('user'))
    assert 'MISSING' not in r.out and 'Bead:        data' in r.out, r
''')

seed('c27-time-of-found', 'C27',
     [('bead_cli/workspace.py', "                    best_bead = box.search().by_kind(input.kind).at_or_older(input.freeze_time).newest()\n",
       "                    best_bead = box.search().by_kind(input.kind).newest()\n                    if best_bead.freeze_time > input.freeze_time:\n"
       "                        best_bead = box.search().by_kind(input.kind).older_than(best_bead.freeze_time).newest()\n")],
     needs='a box with at least two versions newer than the one used',
     breaks='the report names a bead that is newer than the input as its candidate, and an exact match is not recognised',
     demo='''
def demo():
    d = box('b')
    make('user')
    for i, y in enumerate(('2018', '2019', '2020')):
        archive(os.path.join(d, f'data_{y}0101.zip'), files={'data/f': y}, freeze_time=f'{y}0101T000000000000+0000')
        if not i:
            ok('input', 'add', 'data', '-w', path('user'))
    r = ok('status', '-w', path('user'))
    assert '* -r b # 20180101T' in r.out, r
''')

seed('c09-hidden-files-writable', 'C09',
     [('bead/tech/fs.py', "        for file in files:\n            yield root / file\n", "        for file in files:\n            if not file.startswith('.'):\n                yield root / file\n")],
     needs='data with files whose names start with a dot',
     breaks='such files of a loaded input are writable',
     demo="""
def demo():
    box('b')
    make('data', output={'sub/.f': 'x'})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    assert not os.stat(path('user', 'input', 'data', 'sub', '.f')).st_mode & 0o200
""")

seed('c17-later-versions-ignored', 'C17',
     [('bead_cli/web/sketch.py', "            if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):\n",
       "            if any(e.src.freshness is not UP_TO_DATE and e.src.content_id != sketch.cluster_by_name[e.src.name].head.content_id\n"
       "                   or e.src.freshness is OUT_OF_DATE or not e.src.is_not_phantom for e in edges_by_dest[cluster_head.ref]):\n"),
      ('bead_cli/web/cluster.py', "        for bead in beads[1:]:\n            bead.set_freshness(Freshness.SUPERSEDED)\n",
       "        for bead in beads[1:]:\n            # saved again without changes\n            is_same = bead.freeze_time == beads[0].freeze_time and bead.inputs == beads[0].inputs\n"
       "            bead.set_freshness(Freshness.UP_TO_DATE if is_same and beads[0].is_not_phantom and bead.kind == beads[0].kind else Freshness.SUPERSEDED)\n")],
     needs='two different beads of the same name, kind, inputs and freeze time',
     breaks='more than one bead of the name is up to date',
     demo="""
def demo():
    t = '20200101T000000000000+0000'
    b = lambda c: {
        '@class': 'Dummy', '@encoding': 'attrs', 'name': 'a', 'content_id': c, 'kind': 'k', 'freeze_time_str': t, 'inputs': [],
        'box_name': 'b', 'freshness': {'@class': 'Freshness', '@encoding': 'enum', 'value': 'SUPERSEDED'}}
    write(path('x.web'), json.dumps([b('c1'), b('c2')]))
    ok('web', 'load', 'x.web', 'color', 'save', 'y.web')
    fresh = sorted(x['freshness']['value'] for x in json.loads(read(path('y.web'))))
    assert fresh == ['SUPERSEDED', 'UP_TO_DATE'], fresh
""")
