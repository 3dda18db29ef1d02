"""Write /verif/seeded/<id>/ from the specifications in seedspecs*.py (no check reads any of this).

seedlib.py build [ID...]   - patch.diff, demo.sh, demo.py, meta.json
seedlib.py verify [ID...]  - demo passes / fails with the patch, tests pass with it
seedlib.py catch [ID...]   - which seeded bugs the check of their property reports
"""
import glob
import importlib.util
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = {}


def seed(id, property, edits, needs, breaks, demo):
    assert id not in SPECS, id
    SPECS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


HELPER = r'''
import contextlib, io, json, os, shutil, stat, subprocess, sys, tempfile, time, zipfile

REPO = os.getcwd()
T = os.path.realpath(tempfile.mkdtemp(prefix='bead-demo-'))
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(T, 'pyc')
sys.path.insert(0, REPO)
HOME = os.path.join(T, 'home')
os.makedirs(HOME)
os.environ.update(
    HOME=HOME, XDG_CONFIG_HOME=os.path.join(T, 'config'), TMPDIR=T, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
    PYTHONPYCACHEPREFIX=sys.pycache_prefix, LC_ALL='C.UTF-8')
os.chdir(HOME)


class Result:
    def __init__(self, p):
        self.rc = p.returncode
        self.out = p.stdout.decode('utf-8', 'replace')
        self.err = p.stderr.decode('utf-8', 'replace')

    def __repr__(self):
        return f'rc={self.rc}\n{self.out}\n{self.err}'


def bead(*args, cwd=None, env=None):
    """One run of the command line tool."""
    return Result(subprocess.run(
        [sys.executable, '-m', 'bead_cli.main', *args], cwd=cwd or HOME, env={**os.environ, **(env or {})},
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120))


def ok(*args, **kw):
    r = bead(*args, **kw)
    assert r.rc == 0, (args, r)
    return r


def box(name, *parts):
    d = path(*(parts or ('box-' + name,)))
    os.makedirs(d)
    ok('box', 'add', name, d)
    return d


def path(*parts):
    return os.path.join(HOME, *parts)


def write(p, content=b''):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(content if isinstance(content, bytes) else content.encode('utf-8'))
    return p


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree(d):
    """relative path -> content"""
    found = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            found[os.path.relpath(p, d)] = read(p)
    return found


def beads_in(d, prefix=''):
    return sorted(f for f in os.listdir(d) if f.endswith('.zip') and f.startswith(prefix))


def make(name, output=None, code=None, box=None):
    """A new bead saved from a new workspace, which is kept."""
    ok('new', name)
    for f, c in (output or {}).items():
        write(path(name, 'output', f), c)
    for f, c in (code or {}).items():
        write(path(name, f), c)
    save(name, box)
    return path(name)


def save(name, box=None):
    return ok('save', *([box] if box else []), '-w', path(name))


KEY = '1' * 8


def archive(p, kind='kind', freeze_time='20200101T000000000000+0000', inputs=None, files=None, name=None):
    """A valid bead file made by hand."""
    import hashlib

    def digest(b):
        return hashlib.sha512(b'%d:' % len(b) + b + b';%d' % len(b)).hexdigest()
    entries = {k: v.encode() for k, v in (files or {}).items()}
    entries['meta/bead'] = json.dumps({
        'meta_version': 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e', 'kind': kind, 'freeze_time': freeze_time,
        'freeze_name': name or 'x', 'inputs': inputs or {}}, sort_keys=True, indent=4).encode()
    manifest = json.dumps({k: digest(v) for k, v in entries.items()}, sort_keys=True, indent=4).encode()
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with zipfile.ZipFile(p, 'w') as z:
        for k, v in entries.items():
            z.writestr(k, v)
        z.writestr('meta/manifest', manifest)
    return digest(manifest)


def main(demo):
    try:
        demo()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 1
    else:
        rc = 0
    os.chdir('/')
    for root, dirs, _ in os.walk(T):
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(T, ignore_errors=True)
    sys.exit(rc)
'''

DEMO_SH = '''\
#!/bin/bash
# run with the sources in the current directory: exits with 0 if the property holds in this case
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, **kw)


def build(ids):
    for id in ids:
        s = SPECS[id]
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        sh('git', '-C', REPO, 'diff', '--quiet', check=True)
        try:
            for file, old, new in s['edits']:
                p = os.path.join(REPO, file)
                text = open(p).read()
                assert text.count(old) == 1, (id, file, text.count(old), old)
                open(p, 'w').write(text.replace(old, new))
            patch = sh('git', '-C', REPO, 'diff', stdout=subprocess.PIPE, check=True).stdout
        finally:
            sh('git', '-C', REPO, 'checkout', '-q', '--', '.', check=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(
            '# Demonstration: everything happens in a scratch directory made by it.\n'
            + HELPER.lstrip('\n') + '\n\n' + s['demo'].strip('\n') + '\n\n\nmain(demo)\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(
            {'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
            open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def original_lines_changed(id):
    """Does the patch remove or change lines of the original repository?"""
    p = os.path.join(SEEDED, id, 'patch.diff')
    removed = []
    file = None
    line = 0
    for l in open(p):
        if l.startswith('--- a/'):
            file = l[6:].strip()
        elif l.startswith('@@'):
            line = int(l.split()[1].lstrip('-').split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            removed.append((file, line))
            line += 1
        elif l.startswith(' '):
            line += 1
    n = 0
    for file, line in removed:
        out = sh('git', '-C', REPO, 'blame', '-s', f'-L{line},{line}', 'HEAD', '--', file,
                 stdout=subprocess.PIPE, check=True).stdout.decode()
        n += out.startswith('^')
    return n, len(removed)


def with_patch(id, *cmd, **kw):
    return sh('bash', f'{HERE}/with_patch.sh', os.path.join(SEEDED, id, 'patch.diff'), *cmd, **kw)


def verify(ids):
    for id in ids:
        d = os.path.join(SEEDED, id)
        with tempfile.TemporaryDirectory() as t:
            demo = os.path.join(t, 'demo')
            os.mkdir(demo)
            for f in ('demo.sh', 'demo.py'):
                sh('cp', os.path.join(d, f), demo, check=True)
            os.environ['TMPDIR'] = t
            c = sh('bash', f'{demo}/demo.sh', cwd=REPO, capture_output=True)
            p = with_patch(id, 'bash', '-c', f'cd {REPO} && bash {demo}/demo.sh', capture_output=True)
            del os.environ['TMPDIR']
            left = [x for x in os.listdir(t) if x != 'demo']
            tests = with_patch(id, 'bash', '-c', f'sed s:/repo:{REPO}: /opt/vp/test.sh > {t}/test.sh; bash {t}/test.sh {t}/o.json 2>&1 | grep -E "passed|failed|^FAILED|^ERROR" | tail -8',
                               capture_output=True).stdout.decode().strip()
        orig, all = original_lines_changed(id)
        good = c.returncode == 0 and p.returncode not in (0, 8, 9) and '154 passed' in tests and orig and not left
        print(f'{id:28} {"GOOD" if good else "BAD "} clean={c.returncode} patched={p.returncode} orig={orig}/{all} left={left} {tests if not good else ""}', flush=True)
        if not good:
            if c.returncode:
                print(c.stderr.decode()[-1500:])
            else:
                print(p.stderr.decode()[-300:])
        elif '-v' in sys.argv:
            print('     ', p.stderr.decode().strip().splitlines()[-1][:200])


def catch(ids, tier='quick'):
    for id in ids:
        prop = SPECS[id]['property'] if id in SPECS else json.load(open(f'{SEEDED}/{id}/meta.json'))['property']
        r = with_patch(id, 'bash', os.path.join(os.path.dirname(HERE), 'check.sh'), prop, tier, capture_output=True)
        out = r.stdout.decode()
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        caught = r.returncode == 1 and any(f'property={prop} ' in l for l in v)
        print(f'{id:28} {"caught" if caught else "MISSED"} rc={r.returncode} {v[0][:110] if v else out[-200:]}', flush=True)


def load():
    for p in sorted(glob.glob(os.path.join(HERE, 'seedspecs*.py'))):
        exec(compile(open(p).read(), p, 'exec'), {'seed': seed})


if __name__ == '__main__':
    load()
    cmd, *ids = [a for a in sys.argv[1:] if a != '-v']
    ids = [i for i in SPECS if not ids or any(i.startswith(x) for x in ids)]
    {'build': build, 'verify': verify, 'catch': catch}[cmd](ids)
