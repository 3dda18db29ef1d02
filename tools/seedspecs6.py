"""More seeded bugs: odd names, saving while the workspace changes, and the properties with few of them."""

seed('c31-glob-with-directory', 'C31',
     [('bead/box_index.py', "            for archive_path in self.box_directory.glob('*.zip'):\n",
       "            import glob\n            for archive_path in sorted(map(Path, glob.glob(f'{self.box_directory}/*.zip'))):\n")],
     needs='indexing a box in a directory having special characters in its name ([...], or *)',
     breaks='the index is empty: the beads are not found any more',
     demo='''
def demo():
    box('b', 'data [2020]')
    make('data', output={'x': '1'})
    ok('box', 'index', '--all')
    r = bead('edit', 'data', 'copy')
    assert r.rc == 0, r
''')

seed('c31-messages-formatted', 'C31',
     [('bead_cli/common.py', "def info(msg):\n    sys.stderr.write(msg)\n", "def info(msg, *args):\n    sys.stderr.write(msg % args)\n"),
      ('bead_cli/common.py', "def warning(msg):\n    sys.stderr.write('WARNING: ')\n    sys.stderr.write(msg)\n", "def warning(msg, *args):\n    sys.stderr.write('WARNING: ')\n    sys.stderr.write(msg % args)\n"),
      ('bead_cli/common.py', "def die(msg) -> NoReturn:\n    sys.stderr.write('ERROR: ')\n    sys.stderr.write(msg)\n",
       "def die(msg, *args) -> NoReturn:\n    sys.stderr.write('ERROR: ')\n    sys.stderr.write(msg % args)\n")],
     needs='a percent sign in a name that is mentioned in an error message',
     breaks='the command crashes in place of telling what is wrong',
     demo='''
def demo():
    r = bead('input', 'load', '-w', '100%done')
    assert '100%done is not a valid workspace' in r.err, r
''')

seed('c31-environment-in-paths', 'C31',
     [('bead_cli/environment.py', "                Path(box_spec.get(BOX_LOCATION)))\n", "                Path(os.path.expandvars(box_spec.get(BOX_LOCATION))))\n")],
     needs='a box in a directory that has the name of an environment variable in its name, after a dollar sign',
     breaks='the box is looked for somewhere else',
     demo='''
def demo():
    box('b', 'for $HOME')
    make('data', output={'x': '1'})
    assert beads_in(path('for $HOME')), os.listdir(path('for $HOME'))
''')

seed('c32-retried-save', 'C32',
     [('bead/workspace.py', "            _ZipCreator().create(zipfilename, self, freeze_time, comment)\n",
       "            creator = _ZipCreator()\n            try:\n                creator.create(zipfilename, self, freeze_time, comment)\n            except (AssertionError, FileNotFoundError):\n"
       "                # a temporary file of an editor is gone, try once more\n                creator.create(zipfilename, self, freeze_time, comment)\n"),
      ('bead/workspace.py', "        assert path not in self.hashes\n        self.hashes[path] = hash\n", "        self.hashes[path] = hash\n")],
     needs='a file already stored and another one not yet stored are removed from the workspace while it is saved',
     breaks='the bead saved is damaged: it has a file in its manifest that is not there',
     demo='''
def demo():
    box('b')
    ok('new', 'data')
    write(path('data', 'output', 'first'), '1')
    write(path('data', 'zzz-last'), '2')
    # the two are removed while the first file of the code is read
    removing = """
import os, sys
work = sys.argv.pop(1)
def hook(event, args):
    if event == 'open' and str(args[0]).endswith('mmm-middle'):
        for f in ('output/first', 'zzz-last'):
            if os.path.exists(os.path.join(work, f)):
                os.unlink(os.path.join(work, f))
sys.addaudithook(hook)
from bead_cli.main import main
main()
"""
    write(path('data', 'mmm-middle'), '3')
    p = subprocess.run([sys.executable, '-c', removing, path('data'), 'save', '-w', path('data')], cwd=HOME, capture_output=True)
    if p.returncode:
        assert not beads_in(path('box-b')), p
    else:
        r = bead('edit', '--review', 'data', 'copy')
        assert r.rc == 0, r
''')

seed('c32-inputs-read-one-by-one', 'C32',
     [('bead/workspace.py', "                input.name: {\n                    meta.INPUT_KIND: input.kind,\n                    meta.INPUT_CONTENT_ID: input.content_id,\n                    meta.INPUT_FREEZE_TIME: input.freeze_time_str}\n                for input in workspace.inputs},\n",
       "                nick: {\n                    meta.INPUT_KIND: workspace.meta[meta.INPUTS][nick][meta.INPUT_KIND],\n"
       "                    meta.INPUT_CONTENT_ID: workspace.meta[meta.INPUTS][nick][meta.INPUT_CONTENT_ID],\n"
       "                    meta.INPUT_FREEZE_TIME: workspace.meta[meta.INPUTS][nick][meta.INPUT_FREEZE_TIME]}\n"
       "                for nick in workspace.meta[meta.INPUTS]},\n")],
     needs='an input is updated to another version in the middle of a save',
     breaks='the bead saved has an input mixed from two versions',
     demo='''
def demo():
    box('b')
    ok('new', 'data')
    versions = []
    meta = path('data', '.bead-meta', 'bead')
    for i in range(2):
        with open(meta) as f:
            m = json.load(f)
        m['inputs'] = {'in': {'kind': f'kind{i}', 'content_id': str(i) * 128, 'freeze_time': f'2020010{i + 1}T000000000000+0000'}}
        versions.append(m['inputs'])
        write(path(f'version{i}'), json.dumps(m))
    # the metadata is changed each time before it is opened for reading
    for turn in range(8):
        switching = """
import os, shutil, sys
meta, turn = sys.argv.pop(1), int(sys.argv.pop(1))
count = [0]
def hook(event, args):
    if event == 'open' and str(args[0]) == meta:
        count[0] += 1
        shutil.copy(f'version{int(count[0] > turn)}', meta + '.copy')
        os.rename(meta + '.copy', meta)
sys.addaudithook(hook)
from bead_cli.main import main
main()
"""
        p = subprocess.run([sys.executable, '-c', switching, meta, str(turn), 'save', '-w', path('data')], cwd=HOME, capture_output=True)
        assert p.returncode == 0, p
    for f in beads_in(path('box-b')):
        with zipfile.ZipFile(path('box-b', f)) as z:
            inputs = json.loads(z.read('meta/bead'))['inputs']
        assert inputs in versions, inputs
''')

seed('c14-milliseconds', 'C14',
     [('bead_cli/workspace.py', "            location = box.store(workspace, timestamp())\n",
       "            # microseconds are not reliable\n            now = timestamp()\n            location = box.store(workspace, f'{now[:18]}000{now[21:]}')\n")],
     needs='more beads are saved within a millisecond, or the moment of saving is asked exactly',
     breaks='the bead has a time before the moment it was saved at',
     demo='''
def demo():
    import datetime
    box('b')
    ok('new', 'data')
    for _ in range(3):
        before = datetime.datetime.now(datetime.timezone.utc)
        save('data')
        with zipfile.ZipFile(path('box-b', beads_in(path('box-b'))[-1])) as z:
            saved = json.loads(z.read('meta/bead'))['freeze_time']
        from bead.tech.timestamp import time_from_timestamp
        # the process starts in more than a millisecond, so this is seen only by the digits
        assert time_from_timestamp(saved) >= before
        if saved[18:21] != '000':
            return
    assert False, saved
''')

seed('c14-timestamp-in-utc', 'C14',
     [('bead_cli/workspace.py', "timestamp = tech.timestamp.timestamp\n",
       "\n\ndef timestamp():\n    # the same moment for everybody\n    now = tech.timestamp.time_from_timestamp(tech.timestamp.timestamp())\n"
       "    hours, minutes = divmod(int(now.utcoffset().total_seconds()) // 60, 60)\n"
       "    return (now.replace(tzinfo=None)).strftime('%Y%m%dT%H%M%S%f') + f'{hours:+03d}{minutes:02d}'\n\n")],
     needs='saving in a time zone west from Greenwich, whose offset is not a whole hour (e.g. -0330)',
     breaks='the bead has a time that is an hour late: it is rejected as coming from the future, later saves come before it',
     demo='''
def demo():
    import datetime
    box('b')
    os.environ['TZ'] = 'NST3:30'
    make('data', output={'x': '1'})
    with zipfile.ZipFile(path('box-b', beads_in(path('box-b'))[-1])) as z:
        saved = json.loads(z.read('meta/bead'))['freeze_time']
    assert saved.endswith('-0330'), saved
    r = bead('edit', '--review', 'data', 'copy')
    assert r.rc == 0, r
''')

seed('c22-normalized-paths', 'C22',
     [('bead/zipopener.py', "    def open(self, filename):\n        if filename not in self.open_zip_files:\n",
       "    def open(self, path):\n        # the same file can be referred to in many ways\n        filename = os.path.normpath(path)\n        if filename not in self.open_zip_files:\n"),
     ],
     needs='a path that goes through a symbolic link to a directory, and then up',
     breaks='another archive is read in place of the one asked for',
     demo='''
def demo():
    archive(path('a', 'data.zip'), kind='kind-a')
    archive(path('b', 'data.zip'), kind='kind-b')
    os.makedirs(path('b', 'sub'))
    os.symlink(path('b', 'sub'), path('a', 'link'))
    from bead.ziparchive import ZipArchive
    one, two = ZipArchive(path('a', 'data.zip')), ZipArchive(path('a', 'link', '..', 'data.zip'))
    assert (one.kind, two.kind) == ('kind-a', 'kind-b'), (one.kind, two.kind)
''')

seed('c22-forgets-to-count', 'C22',
     [('bead/zipopener.py', "            if len(self.open_zip_files) == self.max_size:\n                self.close(self.least_recently_used_filename)\n",
       "            if len(self.open_zip_files) == self.max_size:\n                # it can be in use, it is closed when nobody has it\n                filename_to_forget = self.least_recently_used_filename\n"
       "                del self.open_zip_files[filename_to_forget]\n                del self.access_times[filename_to_forget]\n"),
      ('bead/ziparchive.py', "    @property\n    def zipfile(self):\n        try:\n            return zipopener.open(self.archive_filename)\n",
       "    @property\n    def zipfile(self):\n        try:\n            self._zipfile = zipopener.open(self.archive_filename)\n            return self._zipfile\n")],
     needs='many archives are in use at once',
     breaks='the number of open files grows with the number of archives',
     demo='''
def demo():
    from bead.ziparchive import ZipArchive
    archives = []
    for i in range(40):
        archive(path('b', f'data{i}.zip'), kind=f'kind{i}')
        archives.append(ZipArchive(path('b', f'data{i}.zip')))
    n = len([f for f in os.listdir('/proc/self/fd') if os.path.realpath(f'/proc/self/fd/{f}').endswith('.zip')])
    assert n < 20, n
''')

seed('c30-creates-missing', 'C30',
     [('bead/box_rawfs.py', "        self.box_directory = Path(box_directory)\n        self._bead_cache", "        directory = Path(box_directory)\n        if not directory.parent.is_dir():\n            tech.fs.ensure_directory(directory)\n        self.box_directory = directory\n        self._bead_cache")],
     needs='a box that is on something not mounted now, with directories missing above it',
     breaks='the directory of the box is created: saves go there and then are not found when it is mounted',
     demo='''
def demo():
    box('far', 'mnt', 'disk', 'beads')
    box('near')
    ok('new', 'data')
    os.rename(path('mnt'), path('away'))
    r = bead('save', 'far', '-w', path('data'))
    assert r.rc != 0 and not os.path.exists(path('mnt')), r
    ok('save', 'near', '-w', path('data'))
    assert not os.path.exists(path('mnt'))
''')

seed('c04-windows-separators', 'C04',
     [('bead/ziparchive.py', "            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]\n",
       "            # archives made by other tools on Windows\n            fs_path = fs_dir / zip_path[zip_dir_prefix_len:].replace('\\\\', '/')\n")],
     needs='a crafted archive having entries with backslashes and ".." in them',
     breaks='files are written outside of the directory that is to be filled',
     demo='''
def demo():
    archive(path('x', 'evil.zip'), files={'data/out': '1', 'data/..\\\\..\\\\..\\\\outside': 'evil', 'code/..\\\\..\\\\outside': 'evil'})
    os.makedirs(path('deep', 'er', 'here'))
    bead('edit', '--review', path('x', 'evil.zip'), path('deep', 'er', 'here', 'ws'))
    found = [os.path.join(r, f) for r, _, fs in os.walk(HOME) for f in fs if 'outside' in f and not r.startswith(path('deep', 'er', 'here', 'ws'))]
    assert not found, found
''')

seed('c08-oldest-files-first', 'C08',
     [('bead/box_rawfs.py', "        for path in paths:\n            try:\n                archive = ZipArchive(path, box_name)\n",
       "        for path in sorted(paths, key=lambda path: path.stat().st_mtime):\n            try:\n                archive = ZipArchive(path, box_name)\n")],
     needs='a dangling symbolic link with the name of a bead in a box without index',
     breaks='every search in the box crashes',
     demo='''
def demo():
    box('b')
    make('data', output={'x': '1'})
    os.symlink('nowhere', path('box-b', 'data_20200101.zip'))
    r = bead('edit', 'data', 'copy')
    assert r.rc == 0, r
''')

seed('c13-discard-resolved', 'C13',
     [('bead/tech/fs.py', "    mode = os.stat(path)[stat.ST_MODE]\n    os.chmod(path, mode | stat.S_IWRITE)\n",
       "    mode = os.stat(path)[stat.ST_MODE]\n    links = [e.path for e in os.scandir(path) if e.is_symlink() and os.path.exists(e.path)] if os.path.isdir(path) else []\n"
       "    for entry in [path] + links:\n        mode = os.stat(entry)[stat.ST_MODE]\n        os.chmod(entry, mode | stat.S_IWRITE)\n")],
     needs='a symbolic link to a read only file or directory in a workspace (or input data) that is discarded (or unloaded)',
     breaks='permissions of files outside of the workspace are changed',
     demo='''
def demo():
    ok('new', 'ws')
    write(path('precious', 'file'), '1')
    os.chmod(path('precious', 'file'), 0o444)
    os.symlink(path('precious', 'file'), path('ws', 'link'))
    ok('discard', path('ws'))
    assert stat.S_IMODE(os.stat(path('precious', 'file')).st_mode) == 0o444
''')

seed('c11-newer-metadata', 'C11',
     [('bead/tech/persistence.py', "def file_load(path):\n    with open(path) as f:\n        return load(f)\n",
       "def file_load(path):\n    # a newer one could not be moved in its place\n    new_path = f'{path}.new'\n    with open(new_path if os.path.exists(new_path) else path) as f:\n        return load(f)\n")],
     needs='a crash while the metadata of a workspace is written',
     breaks='the half written file is read in place of the complete one: the workspace is not usable',
     demo='''
def demo():
    box('b')
    ok('new', 'ws')
    save('ws')
    ok('new', 'user')
    crashing = """
import os, sys
def hook(event, args):
    if event == 'os.rename' and str(args[1]).endswith('.bead-meta/bead'):
        os._exit(99)
sys.addaudithook(hook)
real = os.write
import json
dump = json.dump
def half(content, f, **kw):
    f.write(json.dumps(content, **kw)[:20])
    f.flush()
    os._exit(99)
if 'half' in sys.argv:
    sys.argv.remove('half')
    json.dump = half
from bead_cli.main import main
main()
"""
    subprocess.run([sys.executable, '-c', crashing, 'half', 'input', 'add', 'ws', '-w', path('user')], cwd=HOME, capture_output=True)
    r = bead('status', '-w', path('user'))
    assert r.rc == 0, r
    ok('input', 'add', 'ws', '-w', path('user'))
''')
