"""
Runs one property check: spawns worker shards, merges what they covered,
writes the evidence file and reports the verdict.

exit 0: held on everything explored; exit 1 (+ VIOLATION line): broken; else: error of the check
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import paths

HARD_LIMIT = {'quick': 800, 'thorough': 6 * 3600}
# seconds, a single case can never last that long, unless something waits or loops for ever
CASE_LIMIT = {'quick': 150, 'thorough': 3600}
# cases with gigabytes of data
LONG_CASES = {'C33': 4}


def build_shim(scratch):
    out = os.path.join(scratch, 'shim.so')
    subprocess.run(
        ['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', out,
         os.path.join(paths.VERIF, 'harness', 'shim.c'), '-ldl'],
        check=True)
    return out


def scratch_root():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                if shutil.disk_usage(d).free > (1 << 30):
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


def worker_env(scratch, shim):
    env = {
        'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
        'HOME': os.path.join(scratch, 'home'),
        'TMPDIR': os.path.join(scratch, 'tmp'),
        'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'LANGUAGE': 'C', 'PYTHONHASHSEED': '0',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
        'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(scratch, 'hypothesis'),
        'LD_PRELOAD': shim, 'VERIF_SHIM': shim,
        'COLUMNS': '100',
        'GIT_DIR': '/nonexistent',
    }
    for k in ('VERIF_REPO', 'VERIF_SCALE'):
        if k in os.environ:
            env[k] = os.environ[k]
    for d in ('home', 'tmp', 'hypothesis'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


NOBODY = 65534


def ordinary_user(env, scratch):
    """
    How to start the workers: as an ordinary user, if possible - so that permissions matter
    and the code under test can reach nothing but the scratch directory.
    """
    if os.getuid() != 0 or os.environ.get('VERIF_AS_ROOT'):
        return {}
    user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    try:
        subprocess.run(['chown', '-R', f'{NOBODY}:{NOBODY}', scratch], check=True)
        probe = (f'import sys, os; sys.path.insert(0, {os.path.join(paths.VERIF, "harness")!r}); import paths; paths.setup(); '
                 'import hypothesis, core, sut, gen, bead_cli.main, checks; open("probe", "w").close(); os.unlink("probe")')
        subprocess.run([sys.executable, '-c', probe], env=env, cwd=scratch, check=True, capture_output=True, **user)
        return user
    except (OSError, subprocess.SubprocessError):
        subprocess.run(['chown', '-R', '0:0', scratch])
        return {}


def main(argv):
    pid = argv[0]
    rest = argv[1:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if rest and rest[0] in ('quick', 'thorough'):
        tier = rest.pop(0)
    replay = None
    if rest and rest[0] == '--replay':
        replay = os.path.abspath(rest[1])
    seed = int(os.environ.get('VERIF_SEED') or 1)
    paths.setup()
    started = time.monotonic()

    scratch = tempfile.mkdtemp(prefix=f'v{pid}-', dir=scratch_root())
    try:
        return run(pid, tier, seed, replay, scratch, started)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


class Watch:
    """Notices cases that do not end. Counts its own steps, so that pauses of the computer do not matter."""

    def __init__(self, out, limit):
        self.file = out + '.case'
        self.limit = limit
        self.last = None
        self.seconds = 0
        self.stepped = time.monotonic()

    def stuck(self):
        now = time.monotonic()
        if now - self.stepped < 1:
            return False
        self.stepped = now
        try:
            s = os.stat(self.file)
        except OSError:
            return False
        current = (s.st_ino, s.st_mtime_ns)
        if current != self.last:
            self.last = current
            self.seconds = 0
        else:
            self.seconds += 1
        return self.seconds > self.limit

    def violation(self):
        with open(self.file) as f:
            return {'message': f'does not end within {self.limit} s', 'plan': json.load(f)}


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run(pid, tier, seed, replay, scratch, started):
    shim = build_shim(scratch)
    env = worker_env(scratch, shim)
    worker = os.path.join(paths.VERIF, 'harness', 'worker.py')
    replays = os.path.join(paths.VERIF, 'replays')

    user = ordinary_user(env, scratch)

    def own(path):
        if user:
            os.chown(path, NOBODY, NOBODY)
        return path

    if replay:
        replay_copy = shutil.copy(replay, os.path.join(scratch, 'case.json'))
        os.chmod(replay_copy, 0o644)
        out = os.path.join(scratch, 'replay.json')
        p = subprocess.Popen([sys.executable, worker, pid, tier, str(seed), '0', '1', out, replay_copy],
                             env=env, cwd=scratch, start_new_session=True, **user)
        watch = Watch(out, CASE_LIMIT[tier] * LONG_CASES.get(pid, 1))
        while p.poll() is None:
            time.sleep(0.05)
            if watch.stuck():
                kill_group(p)
                p.wait()
                print(watch.violation()['message'])
                print(f'VIOLATION property={pid} replay={replay}')
                return 1
        kill_group(p)
        if p.returncode:
            print(f'exit {p.returncode}', file=sys.stderr)
            return 2
        res = json.load(open(out))
        if res.get('error'):
            print(res['error'], file=sys.stderr)
            return 2
        if res['violation']:
            print(res['violation']['message'])
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        print('no violation')
        return 0

    nshards = min(8, os.cpu_count() or 1)
    procs, outs, logs = [], [], []
    for i in range(nshards):
        out = os.path.join(scratch, f'out{i}.json')
        d = os.path.join(scratch, f'w{i}')
        os.makedirs(d)
        own(d)
        e = dict(env, TMPDIR=os.path.join(d, 'tmp'), HOME=os.path.join(d, 'home'))
        for k in ('TMPDIR', 'HOME'):
            os.makedirs(e[k])
            own(e[k])
        log = open(os.path.join(scratch, f'log{i}'), 'w')
        logs.append(log)
        procs.append(subprocess.Popen(
            [sys.executable, worker, pid, tier, str(seed), str(i), str(nshards), out],
            env=e, cwd=d, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
            start_new_session=True, **user))
        outs.append(out)

    deadline = started + HARD_LIMIT[tier]
    timed_out = False
    grace = None
    stuck = None
    watches = [Watch(o, CASE_LIMIT[tier] * LONG_CASES.get(pid, 1)) for o in outs]
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        now = time.monotonic()
        for p, watch in zip(procs, watches):
            if p.poll() is None and watch.stuck() and not stuck:
                stuck = watch.violation()
                grace = now
        if grace is None and any(
                p.poll() is not None and violation_in(o) for p, o in zip(procs, outs)):
            grace = now + 2
        if (grace and now > grace) or now > deadline:
            timed_out = now > deadline and not grace
            for p in procs:
                if p.poll() is None:
                    kill_group(p)
                    p.wait()
            break
    for p in procs:     # nothing a shard started outlives it
        kill_group(p)
    for log in logs:
        log.close()

    results = []
    errors = []
    for i, (p, o) in enumerate(zip(procs, outs)):
        try:
            r = json.load(open(o))
        except (OSError, ValueError):
            if grace is None:
                errors.append(f'shard {i}: exit {p.returncode}, no result\n'
                              + open(os.path.join(scratch, f'log{i}')).read()[-3000:])
            continue
        results.append(r)
        if r.get('error'):
            errors.append(f'shard {i}: {r["error"]}')

    violations = [r['violation'] for r in results if r.get('violation')] or ([stuck] if stuck else [])
    meta = results[0]['meta'] if results else {}
    nontrivial = set()
    labels = {}
    evaluations = 0
    samples = []
    for r in results:
        evaluations += r['evaluations']
        nontrivial.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    for j in range(3):
        for r in results:
            if j < len(r['samples']) and len(samples) < 6:
                samples.append(r['samples'][j])

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': meta.get('rule', ''),
            'samples': samples or [None],
            'labels': dict(sorted(labels.items())),
            'shards': len(results),
            'cut_short_by_time_budget': sum(1 for r in results if r.get('cut_short')),
            'real_executions_of_the_code': sum(r.get('executions', 0) for r in results),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.monotonic() - started, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(paths.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(paths.VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    known = set()
    for r in results:
        known.update(r.get('known', []))
    for k in sorted(known):
        print(f'KNOWN-FINDING: property={pid} {k}')

    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v['plan'])))
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, f'{pid}-seed{seed}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'message': v['message'], 'plan': v['plan']}, f, indent=1)
        print(v['message'])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors or timed_out or len(results) != nshards:
        for e in errors:
            print(e, file=sys.stderr)
        if timed_out:
            print('hard time limit reached', file=sys.stderr)
        return 2
    print(f'{pid}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), '
          f'{evidence["wall_s"]} s')
    return 0


def violation_in(out):
    try:
        return bool(json.load(open(out)).get('violation'))
    except (OSError, ValueError):
        return False


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
