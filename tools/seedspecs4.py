

seed('c28-meta-before-code', 'C28',
     [('bead/bead.py', "        self.unpack_code_to(workspace.directory)\n        workspace.create_directories()\n        self.unpack_meta_to(workspace)\n",
       "        workspace.create_directories()\n        self.unpack_meta_to(workspace)\n        self.unpack_code_to(workspace.directory)\n")],
     needs='an edit that fails or is killed while the code is being extracted',
     breaks='a valid workspace with a part of the code is left behind, which can be saved as the next version',
     demo='''
def demo():
    box('b')
    make('data', code={'a': 'x', 'big': os.urandom(300000)})
    limited = 'import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (100000, 100000)); from bead_cli.main import main; main()'
    p = subprocess.run([sys.executable, '-c', limited, 'edit', 'data', 'again'], cwd=HOME, capture_output=True)
    assert p.returncode != 0, p
    if os.path.isdir(path('again')):
        r = bead('save', '-w', path('again'))
        assert r.rc != 0, r
''')

seed('c28-review-goes-on', 'C28',
     [('bead_cli/workspace.py', "            bead.unpack_data_to(output_directory)\n",
       "            try:\n                bead.unpack_data_to(output_directory)\n            except OSError as e:\n"
       "                warning(f'Could not extract output data: {e}')\n")],
     needs='edit --review that runs into an error (e.g. a full disk) while it extracts the output data',
     breaks='edit reports success though a part of the output is missing, saving it stores incomplete data',
     demo='''
def demo():
    box('b')
    make('data', output={'a': 'x', 'big': os.urandom(300000)})
    limited = 'import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (100000, 100000)); from bead_cli.main import main; main()'
    p = subprocess.run([sys.executable, '-c', limited, 'edit', 'data', 'again', '--review'], cwd=HOME, capture_output=True)
    assert p.returncode != 0, p
    if os.path.isdir(path('again')):
        r = bead('save', '-w', path('again'))
        assert r.rc != 0, r
''')

seed('c28-metadata-in-place', 'C28',
     [('bead/workspace.py', "        persistence.file_dump(meta, self._meta_filename)\n",
       "        new = not self._meta_filename.exists()\n        if new:\n            fs.write_file(self._meta_filename, persistence.dumps(meta))\n        else:\n"
       "            persistence.file_dump(meta, self._meta_filename)\n")],
     needs='new or edit failing or killed while the metadata is written',
     breaks='a workspace with empty metadata is left behind, all commands crash in it',
     demo='''
def demo():
    box('b')
    limited = 'import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0)); from bead_cli.main import main; main()'
    p = subprocess.run([sys.executable, '-c', limited, 'new', 'ws'], cwd=HOME, capture_output=True)
    assert p.returncode != 0, p
    if os.path.isdir(path('ws')):
        r = bead('save', '-w', path('ws'))
        assert r.rc != 0 and 'Traceback' not in r.err, r
''')

WEB = """
def bead_in_web(name, content_id, inputs=()):
    return {
        '@class': 'Dummy', '@encoding': 'attrs', 'name': name, 'content_id': content_id, 'kind': 'k', 'freeze_time_str': '20200101T000000000000+0000',
        'inputs': [], 'box_name': 'b', 'freshness': {'@class': 'Freshness', '@encoding': 'enum', 'value': 'SUPERSEDED'}}


def names(p):
    return sorted(x['name'] for x in json.loads(read(p)))
"""

seed('c29-load-adds', 'C29',
     [('bead_cli/web/commands.py', "    def __call__(self, _sketch):\n        beads = read_beads(self.file_name)\n        return self.sketch_from_beads(beads)\n",
       "    def __call__(self, sketch):\n        beads = read_beads(self.file_name)\n        return Sketch.from_beads([*sketch.beads, *beads])\n")],
     needs='a line with load that is not the first sub-command',
     breaks='the web before is not thrown away, its beads are still there',
     demo=WEB + '''

def demo():
    box('b')
    make('one')
    write(path('x.web'), json.dumps([bead_in_web('two', 'c')]))
    ok('web', 'color', 'load', 'x.web', 'save', 'y.web')
    assert names(path('y.web')) == ['two'], names(path('y.web'))
''')

seed('c29-any-load-skips-boxes', 'C29',
     [('bead_cli/web/commands.py', "    if remaining_words and remaining_words[-1] != 'load':\n", "    if remaining_words and 'load' not in remaining_words:\n")],
     needs='a line with load that is not the first sub-command, or a bead or file named load',
     breaks='the line starts with an empty web instead of the beads of the boxes',
     demo='''
def demo():
    box('b')
    make('one')
    make('load')
    ok('web', 'save', 'x.web', 'load', 'x.web')
    assert sorted(x['name'] for x in json.loads(read(path('x.web')))) == ['load', 'one'], read(path('x.web'))
''')

seed('c29-default-file-name', 'C29',
     [('bead_cli/web/commands.py', "        self.file_name = tech.fs.Path(args.pop())\n", "        self.file_name = tech.fs.Path(args.pop() if args else 'beads.web')\n")],
     needs='a line ending with a sub-command whose file name is missing',
     breaks='the line is not refused, the steps before it are done and a file nobody named is written over',
     demo='''
def demo():
    box('b')
    make('one')
    write(path('x.web'), 'precious')
    r = bead('web', 'save', 'x.web', 'color', 'save')
    assert r.rc != 0, r
    assert read(path('x.web')) == b'precious'
''')

seed('c29-failed-picture', 'C29',
     [('bead_cli/web/commands.py', "    subprocess.run(cmd, input=dot_str.encode('utf-8'), capture_output=True, check=True)\n",
       "    subprocess.run(cmd, input=dot_str.encode('utf-8'), capture_output=True, check=output_file.exists())\n")],
     needs='Graphviz failing for a picture that has not been there before',
     breaks='the line reports success without the picture',
     demo='''
def demo():
    box('b')
    make('one')
    write(path('bin', 'dot'), '#!/bin/sh\\ncat > /dev/null\\nexit 1\\n')
    os.chmod(path('bin', 'dot'), 0o755)
    r = bead('web', 'svg', 'x.svg', env={'PATH': path('bin') + os.pathsep + os.environ['PATH']})
    assert r.rc != 0, r
''')

seed('c29-sub-commands-are-no-names', 'C29',
     [('bead_cli/web/commands.py', "    return name not in ('..', '/')\n", "    return name not in SUBCOMMANDS and name != '..'\n")],
     needs='a bead named like a sub-command in a filter',
     breaks='the line is refused',
     demo='''
def demo():
    box('b')
    make('one')
    make('color')
    ok('web', '/', '..', 'color', '/', 'save', 'x.web')
''')

seed('c06-resolves-what-is-there', 'C06',
     [('bead/box.py', "        if (archive.name != bead.name or\n            archive.content_id != bead.content_id or\n", "        if (archive.name != bead.name or\n            archive.freeze_time_str != bead.freeze_time_str or\n")],
     needs='a bead whose file has been replaced by another bead with the same name and freeze time after it was found or indexed',
     breaks='resolving it yields the other bead, without any error',
     demo='''
def demo():
    d = box('b')
    p = os.path.join(d, 'a_20200101T000000000000+0000.zip')
    archive(p, files={'data/f': '1'})
    from bead.box import Box, resolve, search
    from bead.exceptions import InvalidArchive
    from pathlib import Path
    boxes = [Box('b', Path(d))]
    found = search(boxes).first()
    archive(p, files={'data/f': '2'})
    from bead import zipopener
    zipopener.close_all()
    try:
        a = resolve(boxes, found)
        assert a.content_id == found.content_id
    except (InvalidArchive, LookupError):
        pass
''')
