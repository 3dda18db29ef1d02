"""One more round of seeded bugs."""

seed('c01-reserved-prefixes', 'C01',
     [('bead/workspace.py', "            return f not in {\n                layouts.Workspace.INPUT.as_posix(),\n                layouts.Workspace.OUTPUT.as_posix(),\n                layouts.Workspace.META.as_posix(),\n                layouts.Workspace.TEMP.as_posix()}\n",
       "            # also without the backups of their metadata\n            return f.rstrip('~') not in {\n                layouts.Workspace.INPUT.as_posix(),\n                layouts.Workspace.OUTPUT.as_posix(),\n                layouts.Workspace.META.as_posix(),\n                layouts.Workspace.TEMP.as_posix()}\n")],
     needs='a file or directory of code named like a reserved directory, with tildes at its end',
     breaks='it is not saved',
     demo='''
def demo():
    box('b')
    make('data', code={'input~': 'code'})
    ok('edit', 'data', 'again')
    assert read(path('again', 'input~')) == b'code'
''')

seed('c07-kind-like', 'C07',
     [('bead/box_index.py', "        QueryCondition.KIND: ('kind = ?', lambda v: v),\n", "        QueryCondition.KIND: ('kind LIKE ?', lambda v: v),\n")],
     needs='kinds that differ only in case, or with _ or % in them (beads made by other tools)',
     breaks='beads of other kinds are found with an index',
     demo='''
def demo():
    d = box('b')
    archive(os.path.join(d, 'one_20200101T000000000000+0000.zip'), kind='the_kind')
    archive(os.path.join(d, 'two_20200102T000000000000+0000.zip'), kind='the-kind', freeze_time='20200102T000000000000+0000')
    ok('box', 'index')
    from bead.box import Box
    from pathlib import Path
    found = [b.name for b in Box('b', Path(d)).search().by_kind('the_kind').all()]
    assert found == ['one'], found
''')

seed('c10-only-the-same-name', 'C10',
     [('bead_cli/input.py', "                bead = search(env.get_boxes()).by_kind(input.kind).at_or_older(args.bead_time).newest()\n",
       "                boxes = [box for box in env.get_boxes() if box.search().by_kind(input.kind).at_or_older(args.bead_time).all()]\n"
       "                bead = boxes[-1].search().by_kind(input.kind).at_or_older(args.bead_time).newest() if boxes else search([]).newest()\n")],
     needs='updating all inputs when versions of a bead are in more boxes, the newest one not in the last of them',
     breaks='an input is updated to an older version',
     demo='''
def demo():
    box('a')
    box('b')
    make('data', output={'x': '1'}, box='b')
    ok('new', 'user')
    ok('input', 'add', 'data', '-w', path('user'))
    write(path('data', 'output', 'x'), '2')
    save('data', 'a')
    ok('input', 'update', '-w', path('user'))
    assert read(path('user', 'input', 'data', 'x')) == b'2'
''')

seed('c16-placeholders-not-saved', 'C16',
     [('bead_cli/web/sketch.py', "        write_beads(file_name, self.beads)\n", "        # the missing ones are found by the inputs when it is loaded\n        write_beads(file_name, [bead for bead in self.beads if bead.is_not_phantom or not self.edges])\n")],
     needs='a missing bead no link leads from (its user is superseded), reduced to heads, in a web saved and loaded',
     breaks='the missing bead is lost by saving',
     demo='''
def demo():
    d = box('b')
    gone = {'in': {'kind': 'k', 'content_id': '1' * 128, 'freeze_time': '20190101T000000000000+0000'}}
    cid = archive(os.path.join(d, 'src_20200101T000000000000+0000.zip'), kind='src')
    has = {'src': {'kind': 'src', 'content_id': cid, 'freeze_time': '20200101T000000000000+0000'}}
    archive(os.path.join(d, 'user_20200102T000000000000+0000.zip'), kind='user', freeze_time='20200102T000000000000+0000', inputs=gone)
    archive(os.path.join(d, 'user_20200103T000000000000+0000.zip'), kind='user', freeze_time='20200103T000000000000+0000', inputs=has)
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.sketch import Sketch, heads_of
    from bead.box import Box
    from pathlib import Path
    web = heads_of(Sketch.from_beads([Dummy.from_bead(b) for b in Box('b', Path(d)).all_beads()]))
    web.to_file('x.web')
    again = Sketch.from_file('x.web')
    names = [sorted((b.name, b.content_id) for b in w.beads) for w in (web, again)]
    assert names[0] == names[1], names
''')

seed('c17-keeps-old-colours', 'C17',
     [('bead_cli/web/cluster.py', "        if beads and beads[0].is_not_phantom:\n            beads[0].set_freshness(Freshness.UP_TO_DATE)\n",
       "        if beads and beads[0].freshness is Freshness.SUPERSEDED:\n            beads[0].set_freshness(Freshness.UP_TO_DATE)\n")],
     needs='colouring a web once more, after a filter dropped what made a bead out of date',
     breaks='beads are shown out of date, although all of their inputs left are up to date',
     demo='''
def demo():
    d = box('b')
    gone = {'gone': {'kind': 'k', 'content_id': '1' * 128, 'freeze_time': '20190101T000000000000+0000'}}
    a = archive(os.path.join(d, 'a_20200101T000000000000+0000.zip'), kind='a')
    has = {'a': {'kind': 'a', 'content_id': a, 'freeze_time': '20200101T000000000000+0000'}}
    archive(os.path.join(d, 'b_20200102T000000000000+0000.zip'), kind='b', freeze_time='20200102T000000000000+0000', inputs={**gone, **has})
    colours = []
    for steps in (['color'], []):
        ok('web', *steps, '/', 'a', '..', '/', 'color', 'save', 'x.web')
        from bead_cli.web.sketch import Sketch
        colours.append({b.name: b.freshness.name for b in Sketch.from_file('x.web').beads})
    assert colours[0] == colours[1] == {'a': 'UP_TO_DATE', 'b': 'UP_TO_DATE'}, colours
''')

seed('c18-self-links', 'C18',
     [('bead_cli/web/sketch.py', "        return {(e.src.name, e.dest.name) for e in edges}\n", "        # clusters are always connected to themselves\n        return {(e.src.name, e.dest.name) for e in edges if e.src.name != e.dest.name}\n")],
     needs='filtering a web with a bead that uses an older version of itself',
     breaks='that input link is lost',
     demo='''
def demo():
    d = box('b')
    a = archive(os.path.join(d, 'a_20200101T000000000000+0000.zip'), kind='a')
    has = {'a': {'kind': 'a', 'content_id': a, 'freeze_time': '20200101T000000000000+0000'}}
    a2 = archive(os.path.join(d, 'a_20200102T000000000000+0000.zip'), kind='a', freeze_time='20200102T000000000000+0000', inputs=has)
    has = {'a': {'kind': 'a', 'content_id': a2, 'freeze_time': '20200102T000000000000+0000'}}
    archive(os.path.join(d, 'b_20200103T000000000000+0000.zip'), kind='b', freeze_time='20200103T000000000000+0000', inputs=has)
    ok('web', '/', 'a', '..', '/', 'save', 'x.web')
    from bead_cli.web.sketch import Sketch
    edges = sorted((e.src.name, e.dest.name) for e in Sketch.from_file('x.web').edges)
    assert edges == [('a', 'a'), ('a', 'b')], edges
''')

seed('c19-escaped-names-collide', 'C19',
     [('bead_cli/web/graphviz.py', "    return f'\"cluster_{id}\"'\n", "    # line ends are not allowed\n    line = ' '.join(id.splitlines())\n    return f'\"cluster_{line}\"'\n")],
     needs='two beads, the names of which differ only in a line end for a space',
     breaks='they are one node in the drawing',
     demo='''
def demo():
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.sketch import Sketch
    beads = [Dummy(name=n, content_id=str(i) * 128, kind='k', freeze_time_str='20200101T000000000000+0000') for i, n in enumerate(['a b', 'a\\nb'])]
    dot = Sketch.from_beads(beads).as_dot()
    import re
    nodes = re.findall(r'"(cluster_[^"]*)"\\[', dot)
    assert len(set(nodes)) == 2, nodes
''')

seed('c20-kind-from-clock', 'C20',
     [('bead/tech/identifier.py', "    scrambled_uuid1 = hashlib.sha256(uuid1().bytes).hexdigest()[:32]\n    return str(scrambled_uuid1) + '-' + str(uuid4())\n",
       "    scrambled_uuid1 = hashlib.sha256(str(uuid1().time // 10**7).encode() + b'%d' % next(_counter)).hexdigest()[:32]\n    return str(scrambled_uuid1) + '-' + str(uuid4())[14:19]\n"),
      ('bead/tech/identifier.py', "from uuid import uuid4\n", "from uuid import uuid4\nimport itertools\n\n_counter = itertools.count()\n")],
     needs='many beads made by more processes within the same second',
     breaks='beads that have nothing in common are versions of each other',
     demo='''
def demo():
    code = """
import itertools, sys
from bead.tech import identifier
from concurrent.futures import ThreadPoolExecutor
import uuid
print([identifier.uuid() for _ in range(30000)][::1].__repr__())
"""
    ps = [subprocess.Popen([sys.executable, '-c', code], stdout=subprocess.PIPE) for _ in range(4)]
    kinds = []
    for p in ps:
        kinds += eval(p.communicate()[0])
    assert len(set(kinds)) == len(kinds), len(kinds) - len(set(kinds))
''')

seed('c25-removes-unfinished', 'C25',
     [('bead/box.py', "        workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)\n        \n        # Add to resolver\n        self.resolver.index_archive_file(zipfilename)\n",
       "        workspace.pack(zipfilename, freeze_time, ARCHIVE_COMMENT)\n        for path in self.directory.glob(f'{workspace.name}_*.zip'):\n            # what a save that was killed has left there\n            if path.stat().st_size == 0:\n                path.unlink()\n        \n        # Add to resolver\n        self.resolver.index_archive_file(zipfilename)\n")],
     needs='another save of a workspace with the same name has just begun when this one ends',
     breaks='the file of the other save is removed while it is written, although it reports success',
     demo='''
def demo():
    d = box('b')
    ok('new', 'data')
    write(path('data', 'output', 'x'), '1')
    os.rename(path('data'), path('data.0'))
    # the other one stops after it made its file
    os.makedirs(path('other'))
    ok('new', path('other', 'data'))
    ok('new', 'data')
    slow = """
import os, subprocess, sys
def hook(event, args):
    if event == 'os.listdir' and str(args[0]).endswith('other/data/output') and not os.environ.get('NESTED'):
        os.environ['NESTED'] = '1'
        subprocess.run([sys.executable, '-m', 'bead_cli.main', 'save', '-w', 'data'], check=True)
sys.addaudithook(hook)
from bead_cli.main import main
main()
"""
    p = subprocess.run([sys.executable, '-c', slow, 'save', '-w', path('other', 'data')], cwd=HOME, capture_output=True)
    assert p.returncode == 0, p
    assert len(beads_in(d)) == 2, beads_in(d)
''')
