"""Driving the code under test (from /repo) inside a scratch directory."""
import contextlib
import hashlib
import io
import json
import os
import stat
import sys
import traceback
import zipfile

from core import HarnessError, Violation, expect, expect_eq, shim, short

META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'


def reset():
    """Forget state the code under test may keep between commands of one process."""
    zo = sys.modules.get('bead.zipopener')
    if zo is not None:
        with contextlib.suppress(Exception):
            zo.close_all()


class Result:
    def __init__(self, args, rc, out, err, exc):
        self.args = args
        self.rc = rc
        self.out = out
        self.err = err
        self.exc = exc          # text of the traceback, when it crashed

    @property
    def ok(self):
        return self.exc is None and self.rc == 0

    @property
    def refused(self):
        """Ended deliberately, with a non-zero status."""
        return self.exc is None and self.rc != 0

    def __repr__(self):
        return (f'bead {" ".join(map(repr, self.args))} -> rc={self.rc}\n'
                f'--- stdout\n{short_text(self.out)}\n--- stderr\n{short_text(self.err)}'
                + (f'\n--- crash\n{self.exc[-3000:]}' if self.exc else ''))


def short_text(t, n=1500):
    return t if len(t) <= n else t[:n] + '...'


class World:
    """An isolated user: home, configuration, working directories."""

    def __init__(self, base):
        self.base = base
        self.home = os.path.join(base, 'home')
        self.config = os.path.join(base, 'config')
        os.makedirs(self.home, exist_ok=True)

    def path(self, *p):
        return os.path.join(self.home, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        return d

    def cli(self, *args, cwd=None):
        """Run one command as the command line tool would; never raises for errors of the command."""
        from bead_cli.main import run
        args = [str(a) for a in args]
        out, err = io.StringIO(), io.StringIO()
        old_cwd = os.getcwd()
        old_home = os.environ.get('HOME')
        os.environ['HOME'] = self.home
        os.chdir(cwd or self.home)
        rc, exc = 0, None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    rc = run(self.config, args)
                    rc = 0 if rc is None else rc
                except SystemExit as e:
                    rc = e.code if e.code is not None else 0
                    if not isinstance(rc, int):
                        err.write(str(rc))
                        rc = 1
                except KeyboardInterrupt:
                    rc = -1
                    err.write('KeyboardInterrupt')
                except Exception:
                    rc, exc = -1, traceback.format_exc()
        finally:
            reset()
            if old_home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = old_home
            os.chdir(old_cwd)
        return Result(args, rc, out.getvalue(), err.getvalue(), exc)

    def must(self, *args, cwd=None):
        r = self.cli(*args, cwd=cwd)
        expect(r.ok, 'command failed that should succeed:\n', r)
        return r

    def add_box(self, name, directory=None):
        d = directory or os.path.join(self.base, 'boxes', name)
        os.makedirs(d, exist_ok=True)
        self.must('box', 'add', name, d)
        return d

    def configure_boxes(self, boxes, gone=None):
        """
        [(name, dir)] - through the configuration API, quicker than commands

        gone: if given, another one at this position, whose directory does not exist any more
        """
        from bead_cli.environment import Environment
        from bead.tech.fs import Path
        os.makedirs(self.config, exist_ok=True)
        env = Environment.from_dir(self.config)
        boxes = list(boxes)
        if gone is not None:
            boxes.insert(gone, ('gone', os.path.join(self.base, 'gone')))
        for name, d in boxes:
            os.makedirs(d, exist_ok=True)
            env.add_box(name, Path(d))
        env.save()
        if gone is not None:
            os.rmdir(os.path.join(self.base, 'gone'))


# ----------------------------------------------------------- file trees
def content_of(spec):
    """Bytes from a content specification (see gen.contents)."""
    if isinstance(spec, str):
        return spec.encode('latin-1')
    n, k = spec
    base = hashlib.shake_128(b'%d' % k).digest(4099)
    if k >= 10:
        return PATTERNS[k - 10](n, base)
    return (base * (n // 4099 + 1))[:n]


def _fill(unit, n):
    return (unit * (n // len(unit) + 1))[:n]


# regular contents: long runs of equal bytes at the start, end, middle, text with some line ends, ...
PATTERNS = [
    lambda n, b: bytes(n),
    lambda n, b: (b[:min(n, 700)] + bytes(n))[:n],
    lambda n, b: (bytes(n) + b[:700])[-n:] if n else b'',
    lambda n, b: b'\xff' * n,
    lambda n, b: _fill(b'line\r\n', n),
    lambda n, b: _fill(b'\xef\xbb\xbfa\rb\n', n),
    lambda n, b: (_fill(b, n // 3) + bytes(n))[:n - n // 3] + _fill(b, n // 3),
    lambda n, b: _fill(bytes(4096) + b[:4096], n),
    lambda n, b: _fill(b' ', n - 1) + b'\n' if n else b'',
]


def tree_of(entries):
    """
    {relative path: bytes} from generated [[components], spec] entries;
    entries that would clash with an earlier one are dropped.
    """
    files, dirs = {}, set()
    for comps, spec in entries:
        p = '/'.join(comps)
        parents = {'/'.join(comps[:i]) for i in range(1, len(comps))}
        if p in files or p in dirs or parents & files.keys():
            continue
        files[p] = content_of(spec)
        dirs |= parents
    return files


def write_tree(root, files, mtime=None):
    for p, data in files.items():
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(data)
        if mtime is not None:
            os.utime(full, (mtime, mtime))


def read_tree(root):
    """{relative path: bytes} of all files; anything but files and directories is a violation."""
    res = {}
    for d, dirs, files in os.walk(root):
        for n in files:
            full = os.path.join(d, n)
            st = os.lstat(full)
            expect(stat.S_ISREG(st.st_mode), 'not a regular file:', repr(full))
            with open(full, 'rb') as f:
                res[os.path.relpath(full, root)] = f.read()
        for n in dirs:
            expect(not os.path.islink(os.path.join(d, n)), 'symbolic link created:', repr(n))
    return res


def describe_tree(files):
    return {p: (f'{len(b)} bytes, sha {hashlib.sha1(b).hexdigest()[:8]}' if len(b) > 40 else b)
            for p, b in sorted(files.items())}


def expect_tree(root, files, what):
    got = read_tree(root)
    if got != files:
        bad = sorted(k for k in got.keys() | files.keys() if got.get(k) != files.get(k))
        raise Violation(
            f'{what}: files differ: {short(bad)}\n'
            f'  expected: {short(describe_tree({k: files[k] for k in bad if k in files}))}\n'
            f'  got:      {short(describe_tree({k: got[k] for k in bad if k in got}))}')


def snapshot(root, modes=True, skip=()):
    """Everything below root: {relative path: (type, permissions, content)}"""
    res = {}

    def visit(path, rel):
        if rel in skip:
            return
        st = os.lstat(path)
        mode = stat.S_IMODE(st.st_mode) if modes else None
        if stat.S_ISLNK(st.st_mode):
            res[rel] = ('link', None, os.readlink(path))
        elif stat.S_ISDIR(st.st_mode):
            res[rel] = ('dir', mode, None)
            for n in sorted(anyhow(path, mode, st, os.listdir)):
                visit(os.path.join(path, n), os.path.join(rel, n) if rel else n)
        elif not stat.S_ISREG(st.st_mode):
            res[rel] = ('special', mode, stat.S_IFMT(st.st_mode))
        else:
            res[rel] = ('file', mode, anyhow(path, mode, st, read_file))
    visit(root, '')
    return res


def read_file(path):
    with open(path, 'rb') as f:
        return f.read()


def anyhow(path, mode, st, read):
    """Read something even if its permissions do not allow it."""
    try:
        return read(path)
    except PermissionError:
        os.chmod(path, 0o700)
        try:
            return read(path)
        finally:
            os.chmod(path, stat.S_IMODE(st.st_mode))


def diff(a, b):
    res = []
    for k in sorted(a.keys() | b.keys()):
        if a.get(k) != b.get(k):
            res.append((k, short(a.get(k), 200), short(b.get(k), 200)))
    return res


def expect_same(before, after, what):
    if before != after:
        raise Violation(f'{what}: changed: ' + short(diff(before, after), 2500))


# ----------------------------------------------------- reference formats
def ref_hash(data):
    n = len(data)
    return hashlib.sha512(b'%d:' % n + data + b';%d' % n).hexdigest()


def ref_dumps(x):
    return json.dumps(x, indent=4, sort_keys=True, ensure_ascii=True)


def ref_bead(name, kind, freeze_time, inputs, code, output):
    """
    (entries of the archive, content id) computed independently of the code under test.

    inputs: {nick: (kind, content_id, freeze_time)}
    """
    entries = {f'code/{p}': b for p, b in code.items()}
    entries.update({f'data/{p}': b for p, b in output.items()})
    entries['meta/bead'] = ref_dumps({
        'meta_version': META_VERSION, 'kind': kind, 'freeze_time': freeze_time, 'freeze_name': name,
        'inputs': {n: {'kind': k, 'content_id': c, 'freeze_time': t} for n, (k, c, t) in inputs.items()},
    }).encode()
    manifest = ref_dumps({p: ref_hash(b) for p, b in entries.items()}).encode()
    entries['meta/manifest'] = manifest
    return entries, ref_hash(manifest)


def write_zip(path, entries, compression=zipfile.ZIP_DEFLATED):
    """entries: dict or list of (name, bytes)"""
    items = entries.items() if isinstance(entries, dict) else entries
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(path, 'w', compression=compression) as z:
            for n, b in items:
                zi = zipfile.ZipInfo(n if n else 'x', (2020, 1, 1, 0, 0, 0))
                zi.filename = n
                zi.orig_filename = n
                zi.compress_type = compression
                z.writestr(zi, b)


def read_zip(path):
    with zipfile.ZipFile(path) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


class RefBead:
    """A bead as the model sees it; writes its own archive file independently of the code under test."""

    def __init__(self, name, kind, freeze_time, inputs=None, code=None, output=None):
        self.name = name
        self.kind = kind
        self.freeze_time = freeze_time
        self.inputs = dict(inputs or {})
        self.code = dict(code or {})
        self.output = dict(output or {})
        self.entries, self.content_id = ref_bead(
            name, kind, freeze_time, self.inputs, self.code, self.output)

    @property
    def time(self):
        return parse_ts(self.freeze_time)

    @property
    def file_name(self):
        return f'{self.name}_{self.freeze_time}.zip'

    def write(self, box_dir, file_name=None):
        p = os.path.join(box_dir, file_name or self.file_name)
        write_zip(p, self.entries)
        return p

    def key(self):
        return (self.name, self.kind, self.content_id, self.freeze_time,
                tuple(sorted((n, k, c, t) for n, (k, c, t) in self.inputs.items())))

    @property
    def ref(self):
        return (self.kind, self.content_id, self.freeze_time)


def bead_key(bead):
    """The same for a bead object of the code under test."""
    return (str(bead.name), bead.kind, bead.content_id, bead.freeze_time_str,
            tuple(sorted((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in bead.inputs)))


def parse_ts(ts):
    """Independent reading of full time stamps: YYYYmmddTHHMMSSffffff+HHMM"""
    import datetime
    d = datetime.datetime(
        int(ts[0:4]), int(ts[4:6]), int(ts[6:8]), int(ts[9:11]), int(ts[11:13]), int(ts[13:15]), int(ts[15:21]),
        tzinfo=datetime.timezone.utc)
    off = datetime.timedelta(hours=int(ts[22:24]), minutes=int(ts[24:26]))
    return d - off if ts[21] == '+' else d + off


def format_ts(us, offset_minutes=0):
    """Full time stamp for microseconds since the epoch, shown with an UTC offset."""
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us, minutes=offset_minutes)
    s = '-' if offset_minutes < 0 else '+'
    o = abs(offset_minutes)
    return f'{d:%Y%m%dT%H%M%S}{d.microsecond:06d}{s}{o // 60:02d}{o % 60:02d}'.rjust(26, '0')


# ------------------------------------------------------------ workspaces
def make_workspace(directory, kind, code=None, output=None):
    """A new workspace with given kind, through the API."""
    from bead.workspace import Workspace
    ws = Workspace(directory)
    ws.create(kind)
    write_tree(directory, code or {})
    write_tree(os.path.join(directory, 'output'), output or {})
    return ws


def workspace_meta(directory):
    with open(os.path.join(directory, '.bead-meta', 'bead')) as f:
        return json.load(f)


def recorded_inputs(directory):
    return {n: (s['kind'], s['content_id'], s['freeze_time'])
            for n, s in workspace_meta(directory)['inputs'].items()}
