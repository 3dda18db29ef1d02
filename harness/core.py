"""Running single cases: isolation, verdicts, statistics."""
import collections
import ctypes
import hashlib
import json
import os
import shutil
import sys
import traceback

import paths


class Violation(AssertionError):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The check itself is broken."""


def expect(condition, *message):
    if not condition:
        raise Violation(' '.join(str(m) for m in message))


def expect_eq(got, want, *message):
    if got != want:
        raise Violation(' '.join(str(m) for m in message) + f'\n  expected: {short(want)}\n  got:      {short(got)}')


def short(x, n=1500):
    r = repr(x)
    return r if len(r) <= n else r[:n] + f'... ({len(r)} chars)'


# ------------------------------------------------------------------ shim
class Shim:
    COUNT, KILL, KILL_HALF, FAIL_ONCE, FAIL_FULL, INTERRUPT, PAUSE = range(1, 8)

    def __init__(self):
        lib = self.lib = ctypes.CDLL(os.environ['VERIF_SHIM'])
        lib.shim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.shim_clock_now.restype = ctypes.c_int64
        lib.shim_arm.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_char_p]
        lib.shim_seen.restype = ctypes.c_int64
        lib.shim_hit.restype = ctypes.c_int
        lib.shim_trace.restype = ctypes.c_char_p
        lib.shim_pause_fds.argtypes = [ctypes.c_int, ctypes.c_int]
        lib.shim_fast_sleep.argtypes = [ctypes.c_int]

    def clock(self, ns, tick=0):
        self.lib.shim_clock(1, ns, tick)

    def clock_off(self):
        self.lib.shim_clock(0, 0, 0)

    def now(self):
        return self.lib.shim_clock_now()

    def arm(self, mode, at, prefix, err=0):
        self.lib.shim_arm(mode, at, err, os.fsencode(prefix))

    def disarm(self):
        self.lib.shim_disarm()

    def seen(self):
        return self.lib.shim_seen()

    def hit(self):
        return bool(self.lib.shim_hit())

    def trace(self):
        return self.lib.shim_trace().decode()

    def pause_fds(self, out, in_):
        self.lib.shim_pause_fds(out, in_)

    def fast_sleep(self, on):
        self.lib.shim_fast_sleep(1 if on else 0)


shim = Shim()

# 2024-03-05T06:07:08.123456Z, every reading of the clock moves it by 1.000001 s
BASE_NS = 1709618828_123456_000
TICK_NS = 1_000_001_000


class Ctx:
    """What a check's run() gets besides the plan."""

    def __init__(self, directory, stats, tier, pid=''):
        self.dir = directory
        self.pid = pid
        self.tier = tier
        self.labels = []
        self.is_nontrivial = False
        self.stats = stats

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, yes=True):
        self.is_nontrivial = self.is_nontrivial or bool(yes)

    def executions(self, n):
        self.stats.executions += n

    def known(self, what):
        """A violation that is listed in the file of known findings (any other one is a violation)."""
        expect(f'known: property={self.pid} {what}' in known_findings(), 'not a known finding:', what)
        self.stats.known.add(what)


def known_findings():
    with open(os.path.join(paths.VERIF, 'known-findings.txt')) as f:
        return f.read().splitlines()


class Stats:
    def __init__(self, out, meta):
        self.out = out
        self.meta = meta
        self.evaluations = 0
        self.executions = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.violation = None
        self.error = None
        self.cut_short = False
        self.known = set()

    def current(self, plan_text):
        """Tell the runner which case is running: it notices those that never end."""
        tmp = self.out + '.case.tmp'
        with open(tmp, 'w') as f:
            f.write(plan_text)
        os.rename(tmp, self.out + '.case')

    def write(self):
        tmp = self.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump({
                'meta': self.meta, 'evaluations': self.evaluations, 'executions': self.executions,
                'nontrivial': sorted(self.nontrivial), 'labels': self.labels,
                'samples': self.samples, 'violation': self.violation, 'error': self.error,
                'cut_short': self.cut_short, 'known': sorted(self.known)}, f)
        os.rename(tmp, self.out)


_scratch = None


def prepare(mod, scratch):
    global _scratch
    _scratch = scratch
    os.makedirs(scratch, exist_ok=True)
    if hasattr(mod, 'prepare'):
        mod.prepare()


def fresh_dir():
    d = os.path.join(_scratch, 'c')
    remove(d)
    os.makedirs(d)
    return d


def remove(d):
    if os.path.lexists(d):
        assert d.startswith(_scratch + os.sep)
        try:
            shutil.rmtree(d)
        except OSError:
            make_removable(d)
            shutil.rmtree(d)


def make_removable(d):
    os.chmod(d, 0o700)
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            make_removable(e.path)


def from_repo(exc):
    """Does the traceback (or the chain of causes) of exc go through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fs in traceback.extract_tb(exc.__traceback__):
            if fs.filename.startswith(paths.REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(mod, plan, stats, tier):
    """Execute one case; raises Violation or HarnessError."""
    import sut
    plan_text = json.dumps(plan, sort_keys=True, ensure_ascii=True)
    d = fresh_dir()
    ctx = Ctx(d, stats, tier, mod.__name__.split('.')[-1].upper())
    cwd = os.getcwd()
    env = dict(os.environ)
    shim.disarm()
    shim.fast_sleep(False)
    shim.clock(BASE_NS, TICK_NS)
    stats.evaluations += 1
    stats.current(plan_text)
    try:
        mod.run(json.loads(plan_text), ctx)
    except Violation as e:
        record(stats, plan_text, str(e))
        raise
    except HarnessError:
        raise
    except Exception as e:
        text = traceback.format_exc()
        if from_repo(e):
            message = 'unexpected error from the code under test:\n' + text[-4000:]
            record(stats, plan_text, message)
            raise Violation(message) from e
        raise HarnessError('error in the check itself:\n' + text[-6000:]) from e
    finally:
        shim.disarm()
        shim.clock_off()
        shim.fast_sleep(False)
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        sut.reset()
        remove(d)
    for name in set(ctx.labels):
        stats.labels[name] += 1
    if ctx.is_nontrivial:
        h = hashlib.blake2b(plan_text.encode(), digest_size=8).hexdigest()
        if h not in stats.nontrivial:
            stats.nontrivial.add(h)
            if len(stats.samples) < 3 and (len(stats.nontrivial) % 17 == 1):
                stats.samples.append(
                    json.loads(plan_text) if len(plan_text) < 3000 else plan_text[:3000] + '...')


def record(stats, plan_text, message):
    plan = json.loads(plan_text)
    if stats.violation is None or len(json.dumps(stats.violation['plan'])) >= len(plan_text):
        stats.violation = {'message': message, 'plan': plan}
