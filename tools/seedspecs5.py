"""More seeded bugs: limits, boxes that can not be accessed, identities mixed up."""

seed('c01-plain-zip-size', 'C01',
     [('bead/workspace.py', "        self.zipfile.write(path, zip_path)\n",
       "        info = zipfile.ZipInfo(zip_path)\n        info.compress_type = self.zipfile.compression\n        info.external_attr = (os.stat(path).st_mode & 0xFFFF) << 16\n"
       "        with open(path, 'rb') as source, self.zipfile.open(info, 'w') as target:\n            while block := source.read(securehash.READ_BLOCK_SIZE):\n"
       "                target.write(block)\n")],
     needs='a file bigger than what a plain zip archive can have (2 GiB)',
     breaks='the workspace can not be saved',
     demo='''
def demo():
    box('b')
    ok('new', 'data')
    # in place of writing gigabytes
    limited = 'import sys, zipfile; zipfile.ZIP64_LIMIT = 5000; from bead_cli.main import main; main()'
    write(path('data', 'output', 'big'), os.urandom(20000))
    p = subprocess.run([sys.executable, '-c', limited, 'save', '-w', 'data'], cwd=HOME, capture_output=True)
    assert p.returncode == 0, p
    ok('edit', 'data', 'again', '--review')
    assert read(path('again', 'output', 'big')) == read(path('data', 'output', 'big'))
''')

seed('c03-verified-by-crc', 'C03',
     [('bead/ziparchive.py', "        for name, hash in self.manifest.items():\n            try:\n",
       "        seen = {}\n        for name, hash in self.manifest.items():\n            try:\n"),
      ('bead/ziparchive.py', "            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)\n            if hash != archived_hash:\n                return name\n",
       "            # the same content can be there many times\n            key = (info.CRC, info.file_size)\n            if key not in seen:\n"
       "                seen[key] = securehash.file(self.zipfile.open(info), info.file_size)\n            if hash != seen[key]:\n                return name\n")],
     needs='a bead with two files of the same content, one of them replaced by a content having the same size and CRC',
     breaks='the modified bead passes verification with its original content id, and its data is loaded',
     demo="""
import zlib


def forged(data):
    # other content of the same size and CRC-32: crc is affine, solve for the last 4 bytes
    n = len(data)
    want = zlib.crc32(data)
    prefix = bytes([data[0] ^ 1]) + data[1:n - 4]
    base = zlib.crc32(prefix + bytes(4)) ^ want
    rows = []
    for bit in range(32):
        tail = (1 << bit).to_bytes(4, 'little')
        rows.append((zlib.crc32(prefix + tail) ^ zlib.crc32(prefix + bytes(4)), 1 << bit))
    x = 0
    for bit in range(31, -1, -1):
        pivot = next((r for r in rows if r[0] >> bit & 1), None)
        if pivot is None:
            continue
        rows = [(a ^ pivot[0], b ^ pivot[1]) if a >> bit & 1 else (a, b) for a, b in rows if (a, b) != pivot]
        if base >> bit & 1:
            base ^= pivot[0]
            x ^= pivot[1]
    res = prefix + x.to_bytes(4, 'little')
    assert zlib.crc32(res) == want and res != data and len(res) == n
    return res


def demo():
    d = box('b')
    data = b'the very same content'
    make('data', output={'a': data, 'b': data})
    [f] = beads_in(d)
    f = os.path.join(d, f)
    with zipfile.ZipFile(f) as z:
        entries = [(n, z.read(n)) for n in z.namelist()]
        comment = z.comment
    with zipfile.ZipFile(f, 'w') as z:
        for n, c in entries:
            z.writestr(n, forged(c) if n == 'data/b' else c)
        z.comment = comment
    ok('new', 'ws')
    bead('input', 'add', 'data', '-w', path('ws'))
    got = tree(path('ws', 'input'))
    assert set(got.values()) <= {data}, got
""")

seed('c04-name-of-the-frozen', 'C04',
     [('bead_cli/workspace.py', "            workspace = Workspace(bead.name)\n", "            name = bead.meta['freeze_name']\n            # the file can be renamed, but not by cutting its name\n            workspace = Workspace(name if name.endswith(bead.name) else bead.name)\n")],
     needs='editing a crafted bead, the name in its metadata is a path',
     breaks='files are written wherever the metadata says',
     demo="""
def demo():
    d = box('b')
    os.makedirs(path('in', 'here'))
    archive(os.path.join(d, 'x_20200101T000000000000+0000.zip'), files={'code/f': 'x'}, name='../outside_x')
    bead('edit', 'x', cwd=path('in', 'here'))
    assert not os.path.exists(path('in', 'outside_x')), os.listdir(path('in'))
""")

seed('c08-smallest-first', 'C08',
     [('bead/box_index.py', "        for zip_path in self.box_directory.glob('*.zip'):\n", "        for zip_path in sorted(self.box_directory.glob('*.zip'), key=lambda p: p.stat().st_mtime):\n")],
     needs='a dangling symbolic link named *.zip in a box that is indexed from scratch',
     breaks='the box can not be indexed at all',
     demo="""
def demo():
    d = box('b')
    make('data')
    os.symlink('nowhere', os.path.join(d, 'other_20200101T000000000000+0000.zip'))
    r = bead('box', 'reindex', '--all')
    assert r.rc == 0 and 'Failed' not in r.out, r
""")

seed('c16-placeholder-by-content', 'C16',
     [('bead_cli/web/graph.py', "            src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)\n",
       "            # one placeholder is enough for each missing content\n"
       "            missing = {b.content_id: b for b in bead_index.values() if not b.is_not_phantom}\n"
       "            src = missing.get(input.content_id)\n"
       "            if src is None:\n                src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)\n")],
     needs='a missing bead that is referenced by different names',
     breaks='there is only one placeholder, links are from a bead of another name',
     demo="""
def demo():
    d = box('b')
    make('data', output={'f': 'x'})
    ok('new', 'user')
    ok('input', 'add', 'one', 'data', '-w', path('user'))
    ok('input', 'add', 'two', 'data', '-w', path('user'))
    save('user')
    [f] = beads_in(d, 'data_')
    os.unlink(os.path.join(d, f))
    ok('web', 'color', 'save', 'x.web')
    sys.path.insert(0, REPO)
    from bead_cli.web.sketch import Sketch
    from pathlib import Path
    s = Sketch.from_file(Path(path('x.web')))
    assert sorted(b.name for b in s.beads) == ['one', 'two', 'user'], s.beads
    assert sorted((e.src.name, e.dest.name) for e in s.edges) == [('one', 'user'), ('two', 'user')], s.edges
""")

seed('c18-recursive-closure', 'C18',
     [('bead_cli/web/graph.py', "    todo: Set[Ref] = set(roots)\n    while todo:\n        src = todo.pop()\n        reachable.add(src)\n        for edge in edges_by_src[src]:\n"
       "            dest_id = edge.dest_ref\n            if dest_id not in reachable:\n                todo.add(dest_id)\n    return reachable\n",
       "\n    def visit(src):\n        reachable.add(src)\n        for edge in edges_by_src[src]:\n            if edge.dest_ref not in reachable:\n"
       "                visit(edge.dest_ref)\n    for root in roots:\n        visit(root)\n    return reachable\n")],
     needs='a chain of more than a thousand beads',
     breaks='filtering the web fails',
     demo='''
def demo():
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.sketch import Sketch, set_sources, set_sinks
    beads = []
    for i in range(2000):
        inputs = [InputSpec(beads[-1].name, beads[-1].kind, beads[-1].content_id, beads[-1].freeze_time_str)] if beads else []
        beads.append(Dummy(name=f'b{i}', content_id=f'c{i}', kind=f'k{i}', freeze_time_str='20200101T000000000000+0000', inputs=inputs))
    sketch = Sketch.from_beads(beads)
    assert len(set_sources(sketch, ['b0']).beads) == 2000
    assert len(set_sinks(sketch, ['b1999']).beads) == 2000
''')

seed('c19-rows-by-time', 'C19',
     [('bead_cli/web/graphviz.py', '        self.input = f"in_{content_id}"\n        self.output = f"out_{content_id}"\n',
       '        time = bead.freeze_time_str.translate({ord("+"): "_", ord("-"): "_"})\n        self.input = f"in_{time}"\n        self.output = f"out_{time}"\n')],
     needs='two beads of the same name with the same time (or times that differ only in the sign of the offset)',
     breaks='their rows have the same port, links lead to the wrong one',
     demo='''
def demo():
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.sketch import Sketch
    import re
    beads = [Dummy(name='a', content_id=f'c{i}', kind='k', freeze_time_str='20200101T000000000000+0000') for i in range(2)]
    dot = Sketch.from_beads(beads).as_dot()
    ports = re.findall('PORT="([^"]*)"', dot)
    assert len(ports) == len(set(ports)) == 4, ports
''')

seed('c22-by-number', 'C22',
     [('bead/tech/persistence.py', "def zip_load(zipfile, path: str):\n    with zipfile.open(path) as f:\n        return load(io.TextIOWrapper(f, encoding='utf-8'))\n",
       "_loaded: dict = {}\n\n\ndef zip_load(zipfile, path: str):\n    # manifests can be big and are needed for each check\n    key = id(zipfile), path\n    if key not in _loaded:\n        if len(_loaded) > 50:\n            _loaded.clear()\n"
       "        with zipfile.open(path) as f:\n            _loaded[key] = f.read()\n    return loads(_loaded[key].decode('utf-8'))\n")],
     needs='more archives than are kept open, so that the memory of a closed one is used for another one',
     breaks='an archive is given the metadata of another one',
     demo='''
def demo():
    d = box('b')
    for i in range(60):
        archive(os.path.join(d, f'x{i}_20200101T000000000000+0000.zip'), kind=f'kind-{i}', files={'data/f': str(i)})
    from bead.box import Box
    from bead.tech.fs import Path
    for _ in range(5):
        for b in Box('b', Path(d)).all_beads():
            assert b.kind == 'kind-' + b.name[1:], (b.name, b.kind)
''')

seed('c30-box-with-unreadable-index', 'C30',
     [('bead/box.py', "            if can_read_index(self.directory):\n                return BoxIndex(self.directory)\n            else:\n                return NullResolver()\n",
       "            return BoxIndex(self.directory)\n")],
     needs='an indexed box whose index can not be read',
     breaks='commands using other boxes fail',
     demo='''
def demo():
    d = box('b')
    make('data')
    locked = box('locked')
    os.mkdir(os.path.join(locked, '.index.sqlite'))
    os.chmod(locked, 0o555)
    ok('edit', 'data', 'again')
    ok('web', 'color')
''')

seed('c30-same-file', 'C30',
     [('bead_cli/environment.py', "            if box.location == directory:\n", "            if box.location.samefile(directory):\n")],
     needs='adding a box while the directory of another one is not there',
     breaks='the box can not be added',
     demo='''
def demo():
    d = box('b')
    os.rename(d, d + '.away')
    box('new')
''')

seed('c20-inputs-from-the-data', 'C20',
     [('bead/workspace.py', "                    meta.INPUT_FREEZE_TIME: input.freeze_time_str}\n                for input in workspace.inputs},\n",
       "                    meta.INPUT_FREEZE_TIME: input.freeze_time.strftime('%Y%m%dT%H%M%S%f%z')}\n                for input in workspace.inputs},\n")],
     needs='an input frozen before the year 1000 or written in a different form (e.g. a small t)',
     breaks='the reference in the saved bead has another time than in the workspace',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'x_20200101T000000000000+0000.zip'), kind='kx', freeze_time='09990101T000000000000+0000', files={'data/f': 'x'})
    ok('new', 'ws')
    ok('input', 'add', 'x', '-w', path('ws'))
    ok('save', '-w', path('ws'))
    [f] = beads_in(d, 'ws_')
    with zipfile.ZipFile(os.path.join(d, f)) as z:
        inputs = json.loads(z.read('meta/bead'))['inputs']
    assert inputs['x']['freeze_time'] == '09990101T000000000000+0000', inputs
''')
