seed('c33-plain-zip-only', 'C33',
     [('bead/workspace.py', "                allowZip64=True,\n", "                # readable by any program\n                allowZip64=False,\n")],
     needs='more than 65535 files, or a file of more than 2 GiB in a workspace',
     breaks='the workspace can not be saved',
     demo='''
def demo():
    box('b')
    ok('new', 'data')
    d = path('data', 'output', 'd')
    os.makedirs(d)
    for i in range(66000):
        open(os.path.join(d, str(i)), 'w').close()
    ok('save', '-w', path('data'))
    ok('edit', 'data', path('copy'))
''')

LIMITED = '''
import resource, sys
import bead_cli.main
import sqlite3, zipfile, bead.box_index
with open('/proc/self/status') as f:
    used = next(int(line.split()[1]) * 1024 for line in f if line.startswith('VmData:'))
resource.setrlimit(resource.RLIMIT_DATA, (used + 100 * 2**20, used + 100 * 2**20))
bead_cli.main.main()
'''

DEMO = '''
LIMITED = %r


def limited(*args):
    subprocess.run([sys.executable, '-c', LIMITED, *args], cwd=HOME, check=True, timeout=200)


def demo():
    box('b')
    ok('new', 'data')
    with open(path('data', 'output', 'big'), 'wb') as f:
        f.truncate(300 * 2**20)
    limited('save', '-w', path('data'))
    limited('edit', '--review', 'data', path('copy'))
    assert os.path.getsize(path('copy', 'output', 'big')) == 300 * 2**20
    ok('new', 'user')
    limited('input', 'add', 'data', '-w', path('user'))
''' % LIMITED

seed('c33-whole-file-hashed', 'C33',
     [('bead/tech/securehash.py', "            block = file.read(READ_BLOCK_SIZE)\n            if not block:\n                break\n            bytes_read += len(block)\n            hash.update(block)\n",
       "            # all of it: a block can be shorter than what was asked for\n            block = file.read()\n            if not block:\n                break\n            bytes_read += len(block)\n            hash.update(block)\n")],
     needs='a file that does not fit in memory', breaks='it can not be saved or verified', demo=DEMO)

seed('c33-extracted-at-once', 'C33',
     [('bead/ziparchive.py', "                shutil.copyfileobj(source, target)\n", "                target.write(source.read())\n")],
     needs='an output file that does not fit in memory', breaks='the bead can be saved, but not loaded or reviewed', demo=DEMO)

seed('c33-read-before-stored', 'C33',
     [('bead/workspace.py', "        self.zipfile.write(path, zip_path)\n",
       "        # what is hashed is what is stored\n        info = zipfile.ZipInfo.from_file(path, zip_path, strict_timestamps=False)\n        info.compress_type = self.zipfile.compression\n        self.zipfile.writestr(info, path.read_bytes())\n")],
     needs='a file that does not fit in memory', breaks='it can not be saved', demo=DEMO)
