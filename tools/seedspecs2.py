seed('c03-empty-files-not-checked', 'C03',
     [('bead/ziparchive.py', "            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)\n            if hash != archived_hash:\n",
       "            if info.file_size == 0:\n                # nothing to check\n                continue\n"
       "            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)\n            if hash != archived_hash:\n"),
      ('bead/ziparchive.py', "        for name, hash in self.manifest.items():\n", "        for name, hash in sorted(self.manifest.items()):\n")],
     needs='a file of the bead replaced with an empty one',
     breaks='the modified bead passes verification with the original content id',
     demo='''
def demo():
    d = box('b')
    make('ws', output={'data.csv': 'good'}, code={'code.py': 'good'})
    f = os.path.join(d, *beads_in(d))
    with zipfile.ZipFile(f) as z:
        entries = {n: z.read(n) for n in z.namelist()}
    entries['code/code.py'] = b''
    with zipfile.ZipFile(f, 'w') as z:
        for n, c in entries.items():
            z.writestr(n, c)
    r = bead('edit', f, 'copy')
    assert r.rc != 0 and not os.path.exists(path('copy')), r
''')

seed('c04-liberal-input-names', 'C04',
     [('bead/meta.py', "    name: InputName = attr.ib(converter=InputName)\n", "    name: InputName = attr.ib(converter=str)\n")],
     needs='a bead with a path as the name of an input in its metadata, edited and its input loaded',
     breaks='loading that input writes to that path, outside of the input directory',
     demo='''
def demo():
    d = box('b')
    outside = path('outside')
    os.makedirs(outside)
    id = archive(os.path.join(d, 'in_20200101.zip'), files={'data/f': 'x'})
    target = os.path.join(outside, 'target')
    archive(os.path.join(d, 'evil_20200101.zip'), inputs={target: {
        'kind': 'kind', 'content_id': id, 'freeze_time': '20200101T000000000000+0000'}})
    bead('edit', os.path.join(d, 'evil_20200101.zip'), 'evil')
    bead('input', 'load', '-w', path('evil'))
    assert os.listdir(outside) == [], os.listdir(outside)
''')

seed('c10-next-counts-copies', 'C10',
     [('bead_cli/input.py', "                        bead = query.newer_than(input.freeze_time).oldest()  # next = oldest of newer beads\n",
       "                        bead = query.at_or_newer(input.freeze_time).newer(1)  # next = the one after this\n")],
     needs='--next for a bead which is in two boxes, or which is not in any of the boxes',
     breaks='the same version is selected again, or the next version is skipped',
     demo='''
def demo():
    d1, d2 = box('b1'), box('b2')
    make('data', output={'x': 'old'}, box='b1')
    make('user', box='b1')
    ok('input', 'add', 'data', '-w', path('user'))
    write(path('data', 'output', 'x'), 'new')
    f, = beads_in(d1, 'data_')
    shutil.copy(os.path.join(d1, f), d2)
    save('data', 'b1')
    bead('input', 'update', 'data', '--next', '-w', path('user'))
    assert read(path('user', 'input', 'data', 'x')) == b'new'
''')

seed('c17-evaluated-by-time', 'C17',
     [('bead_cli/web/sketch.py', "    head_eval_order = toposort(heads.edges)\n    if not head_eval_order:  # empty\n        return True\n",
       "    toposort(heads.edges)  # there are no loops\n    # inputs are always older\n"
       "    head_eval_order = sorted((b for b in heads.beads if b is not sink), key=lambda b: b.freeze_time) + [sink]\n")],
     needs='a bead with an out of date input that was frozen later by the clock of another computer',
     breaks='the bead is shown as up to date, though its input is out of date',
     demo='''
def demo():
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.freshness import Freshness
    from bead_cli.web.sketch import Sketch
    t1, t2, t3 = (f'2020010{n}T000000000000+0000' for n in '123')
    spec = lambda n, t: InputSpec(name=n, kind=n, content_id=n, freeze_time_str=t)
    s = Sketch.from_beads([
        Dummy(name='mid', content_id='mid', kind='mid', freeze_time_str=t3, inputs=[spec('missing', t1)]),
        Dummy(name='top', content_id='top', kind='top', freeze_time_str=t2, inputs=[spec('mid', t3)])])
    s.color_beads()
    by_name = {b.name: b.freshness for b in s.beads}
    assert by_name['top'] == Freshness.OUT_OF_DATE, by_name
''')

seed('c18-unknown-sinks-ignored', 'C18',
     [('bead_cli/web/commands.py', "        if self.sinks:\n            sketch = web_sketch.set_sinks(sketch, self.sinks)\n",
       "        sinks = self.sinks.intersection(sketch.cluster_by_name)\n        if sinks:\n            sketch = web_sketch.set_sinks(sketch, sinks)\n")],
     needs='a filter by sinks, none of which exists (or is reachable from the sources)',
     breaks='the filter by sinks is ignored, and everything reachable is kept',
     demo='''
def demo():
    box('b')
    make('data')
    make('user')
    make('other')
    ok('input', 'add', 'data', '-w', path('user'))
    save('user')
    ok('web', '/', 'data', '..', 'other', '/', 'save', path('x.web'))
    names = {b['name'] for b in json.load(open(path('x.web')))}
    assert names == set(), names
''')

seed('c22-cache-by-name-and-size', 'C22',
     [('bead/zipopener.py', "        if filename not in self.open_zip_files:\n",
       "        # copies in different boxes have to be opened only once\n        key = os.path.basename(filename), os.path.getsize(filename)\n        if key not in self.open_zip_files:\n"),
      ('bead/zipopener.py', "            self.open_zip_files[filename] = ZipFile(filename)\n\n        self.access(filename)\n        return self.open_zip_files[filename]\n",
       "            self.open_zip_files[key] = ZipFile(filename)\n\n        self.access(key)\n        return self.open_zip_files[key]\n")],
     needs='different files of the same name and size in different boxes',
     breaks='data of the wrong archive is read',
     demo='''
def demo():
    for n in 'ab':
        archive(path(n, 'x.zip'), files={'data/f': n})
    from bead.ziparchive import ZipArchive
    from pathlib import Path
    for n in 'ab':
        ZipArchive(Path(path(n, 'x.zip'))).unpack_data_to(Path(path('out', n)))
        assert read(path('out', n, 'f')) == n.encode()
''')

seed('c23-temp-not-needed', 'C23',
     [('bead/workspace.py', "                (dir / layouts.Workspace.TEMP).is_dir(),\n", "                (dir / layouts.Workspace.META).is_dir(),\n")],
     needs='a directory that looks like a workspace but has no temp directory, inside a workspace',
     breaks='commands take it for the enclosing workspace',
     demo='''
def demo():
    ok('new', 'outer')
    ok('new', path('outer', 'lib'))
    os.rmdir(path('outer', 'lib', 'temp'))
    r = ok('status', cwd=path('outer', 'lib'))
    assert 'Bead Name: outer' in r.out, r
''')

seed('c24-status-of-wrapped-exit', 'C24',
     [('bead_cli/main.py', "    except BaseException:\n        # all remaining erroros are catched - including RunTimeErrors\n", "    except (Exception, GeneratorExit):\n        # all remaining erroros are catched - including RunTimeErrors\n")],
     needs='an error that is neither an Exception nor one of those of Python itself (e.g. of an extension or a test framework)',
     breaks='there is no report of the error',
     demo='''
def demo():
    prog = """
import sys
from bead_cli.main import main
class Unusual(BaseException):
    pass
def run(config_dir, argv):
    raise Unusual('unusual')
sys.argv = ['bead', 'x']
main(run)
"""
    r = subprocess.run([sys.executable, '-c', prog], cwd=HOME, capture_output=True)
    reports = [f for f in os.listdir(HOME) if f.startswith('error_')]
    assert r.returncode and len(reports) == 1, (r, reports)
''')

seed('c24-report-name-by-second', 'C24',
     [('bead_cli/main.py', "        error_report = os.path.realpath(f'error_{timestamp()}.txt')\n",
       "        error_report = os.path.realpath(f'error_{timestamp()[:15]}.txt')\n")],
     needs='two failing commands within the same second in the same directory',
     breaks='the second report overwrites the first one',
     demo='''
def demo():
    prog = """
import os, sys
from bead_cli import main as m
def run(config_dir, argv):
    raise RuntimeError('failed ' + argv[0])
for arg in ('first', 'second'):
    sys.argv = ['bead', arg]
    try:
        m.main(run)
    except SystemExit as e:
        assert e.code
"""
    for _ in range(3):
        for f in os.listdir(HOME):
            if f.startswith('error_'):
                os.unlink(path(f))
        subprocess.run([sys.executable, '-c', prog], cwd=HOME, capture_output=True, check=True)
        reports = [f for f in os.listdir(HOME) if f.startswith('error_')]
        assert len(reports) == 2, reports
''')

seed('c26-file-marked-first', 'C26',
     [('bead/box_index.py', "                insert_bead_record(conn, archive, relative_path)\n                delete_bead_inputs(conn, archive.name, archive.content_id)\n",
       "                insert_bead_record(conn, archive, relative_path)\n                conn.commit()\n                delete_bead_inputs(conn, archive.name, archive.content_id)\n"),
      ('bead/box_index.py', "        '''Add single bead to index.'''\n", "        '''Add single bead (file) to index.'''\n")],
     needs='indexing is killed between adding a bead and its inputs',
     breaks='the bead stays in the index without its inputs, and indexing again does not repair it',
     demo='''
def demo():
    d = box('b')
    make('x')
    make('user')
    ok('input', 'add', 'x', '-w', path('user'))
    save('user')
    from bead.box import Box, search
    from pathlib import Path
    index = os.path.join(d, '.index.sqlite')
    for n in range(1, 40):
        if os.path.exists(index):
            os.unlink(index)
        prog = """
import os, sys, sqlite3
n = int(sys.argv.pop())
real = sqlite3.connect
class Killer(sqlite3.Connection):
    def execute(self, sql, *args):
        global n
        if sql.lstrip().split()[0].upper() in ('INSERT', 'DELETE'):
            n -= 1
            if n == 0:
                os._exit(9)
        return super().execute(sql, *args)
def connect(*args, **kw):
    return real(*args, **{**kw, 'factory': Killer})
sqlite3.connect = connect
from bead_cli.main import main
main()
"""
        r = subprocess.run([sys.executable, '-c', prog, 'box', 'index', str(n)], cwd=HOME, capture_output=True)
        if r.returncode == 0:
            break
        ok('box', 'index')
        got = sorted(len(b.inputs) for b in search([Box('b', Path(d))]).all())
        assert got == [0, 0, 1], (n, got)
''')

seed('c12-forget-by-prefix', 'C12',
     [('bead_cli/environment.py', "                BOX_LOCATION: box.location.as_posix()\n", "                BOX_LOCATION: str(box.location).replace(str(Path.home()), '~')\n"),
      ('bead_cli/environment.py', "                Path(box_spec.get(BOX_LOCATION)))\n", "                Path(box_spec.get(BOX_LOCATION).replace('~', str(Path.home()))))\n")],
     needs='a box directory with a "~" in its path (e.g. a backup or short name)',
     breaks='the box is remembered with another directory',
     demo='''
def demo():
    d = box('b', 'old~1', 'box')
    r = ok('box', 'list')
    assert f'b: {d}' in r.out.splitlines(), r
    make('ws')
    assert len(beads_in(d)) == 1, os.listdir(d)
''')

seed('c20-inputs-by-position', 'C20',
     [('bead/box_index.py', "        FROM inputs WHERE bead_name = ? AND bead_content_id = ?\n    ''', (name, content_id))\n",
       "        FROM inputs WHERE bead_name = ? AND bead_content_id = ? GROUP BY input_content_id\n    ''', (name, content_id))\n")],
     needs='an indexed box and a bead that uses the same bead as two inputs',
     breaks='with an index the bead is reported with one of these inputs only',
     demo='''
def demo():
    d = box('b')
    make('data')
    make('user')
    ok('input', 'add', 'one', 'data', '-w', path('user'))
    ok('input', 'add', 'two', 'data', '-w', path('user'))
    save('user')
    from bead.box import Box, search
    from pathlib import Path
    for _ in range(2):
        got = [sorted(i.name for i in b.inputs) for b in search([Box('b', Path(d))]).by_name('user').all()]
        assert sorted(got) == [[], ['one', 'two']], got
        ok('box', 'index')
''')

seed('c11-load-records-last', 'C11',
     [('bead/workspace.py', "        m = self.meta\n        m[meta.INPUTS][input_nick] = {\n            meta.INPUT_KIND: kind,\n            meta.INPUT_CONTENT_ID: content_id,\n            meta.INPUT_FREEZE_TIME: freeze_time_str}\n        self.meta = m\n",
       "        m = self.meta\n        inputs = m[meta.INPUTS]\n        if inputs.pop(input_nick, None):\n            # no mixing of old and new data\n            self.meta = m\n        inputs[input_nick] = {\n            meta.INPUT_KIND: kind,\n            meta.INPUT_CONTENT_ID: content_id,\n            meta.INPUT_FREEZE_TIME: freeze_time_str}\n        self.meta = m\n")],
     needs='an update is killed or fails just while the new reference is being written',
     breaks='the input is not recorded anymore: neither its old nor its new reference',
     demo='''
def demo():
    box('b')
    make('data', output={'x': '1'})
    make('user')
    ok('input', 'add', 'data', '-w', path('user'))
    write(path('data', 'output', 'x'), '2')
    save('data')
    prog = """
import builtins, io, os, sys
n = int(sys.argv.pop())
real = os.replace
def replace(*args, **kw):
    global n
    n -= 1
    if n == 0:
        os._exit(9)
    return real(*args, **kw)
os.replace = replace
from bead_cli.main import main
main()
"""
    shutil.copytree(path('user'), path('saved'), symlinks=True)
    for n in range(1, 10):
        os.rename(path('user'), path(f'old{n}'))
        shutil.copytree(path('saved'), path('user'), symlinks=True)
        r = subprocess.run(
            [sys.executable, '-c', prog, 'input', 'update', 'data', '-w', path('user'), str(n)], cwd=HOME, capture_output=True)
        meta = json.loads(read(path('user', '.bead-meta', 'bead')))
        assert 'data' in meta['inputs'], (n, meta)
        if r.returncode == 0:
            break
''')
