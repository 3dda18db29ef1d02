"""Commands that fail, are killed or interrupted at a chosen file system operation; commands paused there."""
import errno
import json
import os
import shutil
import signal

import core
from core import HarnessError, Shim, shim
from sut import Result

MODES = {
    'kill': (Shim.KILL, 0), 'kill-half': (Shim.KILL_HALF, 0), 'eio': (Shim.FAIL_ONCE, errno.EIO),
    'enospc': (Shim.FAIL_ONCE, errno.ENOSPC), 'eacces': (Shim.FAIL_ONCE, errno.EACCES), 'full': (Shim.FAIL_FULL, errno.ENOSPC),
    'interrupt': (Shim.INTERRUPT, 0)}
KILLED = 77


class Arena:
    """A directory that can be put back to what it was (modes and times included)."""

    def __init__(self, directory, original):
        self.directory = directory
        self.original = original
        clone(directory, original)

    def restore(self):
        remove_tree(self.directory)
        clone(self.original, self.directory)


def clone(a, b):
    shutil.copytree(a, b, symlinks=True)


def remove_tree(d):
    for root, dirs, _files in os.walk(d):
        for n in dirs:
            p = os.path.join(root, n)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(d)


class Outcome:
    """result: Result of the command (None when killed); ops: number of operations seen; hit: was the fault triggered"""

    def __init__(self, killed, result, ops, hit, trace='', value=None):
        self.killed = killed
        self.result = result
        self.ops = ops
        self.hit = hit
        self.trace = trace
        self.value = value

    @property
    def ok(self):
        return not self.killed and self.result.ok

    def __repr__(self):
        return f'killed={self.killed} hit={self.hit} ops={self.ops}\n{self.result!r}'


def child(fn):
    """Run fn in a forked process -> pid, file descriptor to read its (JSON) result from."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        value = fn()
        shim.disarm()
        data = json.dumps(value).encode()
        while data:
            data = data[os.write(w, data):]
        code = 0
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        os._exit(code)


def collect(pid, fd):
    """-> exit code, value"""
    chunks = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == KILLED:
        return code, None
    if code != 0:
        raise HarnessError(f'child process ended with {code}')
    return code, json.loads(b''.join(chunks))


def dump_result(r):
    return [r.args, r.rc, r.out, r.err, r.exc]


def run(prefix, fn, mode=None, at=0):
    """
    Run fn() (giving a Result) in a child process with the fault armed.

    mode None: just count the operations.
    """
    m, err = MODES[mode] if mode else (Shim.COUNT, 0)

    def body():
        shim.arm(m, at, prefix, err)
        r = fn()
        seen, hit, trace = shim.seen(), shim.hit(), shim.trace() if not mode else ''
        shim.disarm()
        return [dump_result(r), seen, hit, trace]
    code, value = collect(*child(body))
    if code == KILLED:
        return Outcome(True, None, None, True)
    (res, seen, hit, trace) = value
    return Outcome(False, Result(*res), seen, hit, trace)


def positions(ops, faults, sweep=False, tier='thorough'):
    """[(mode, operation number)] from generated [[mode, permille]] or (sweep) every operation in every mode"""
    if sweep:
        modes = MODES if tier == 'thorough' else ('kill', 'eio', 'interrupt')
        return [(m, k) for m in modes for k in range(1, ops + 1)]
    return sorted({(m, 1 + p * ops // 1000) for m, p in faults}) if ops else []


def fault_lists(max_size=6):
    from hypothesis import strategies as st
    return st.lists(st.tuples(st.sampled_from(sorted(MODES)), st.integers(0, 999)).map(list), min_size=1, max_size=max_size)


class Process:
    """A command running in a forked process that can be stopped after any number of its file system operations."""

    def __init__(self, prefix, fn, steps):
        """Starts it, until before its operation number steps (counting from 1)."""
        out_r, self._out_w = os.pipe()
        in_r, in_w = os.pipe()

        def body():
            os.close(out_r)
            os.close(in_w)
            shim.pause_fds(self._out_w, in_r)
            shim.fast_sleep(True)
            shim.arm(Shim.PAUSE, steps, prefix)
            value = fn()
            shim.disarm()
            return value
        self._pid, self._fd = child(body)
        os.close(self._out_w)
        os.close(in_r)
        self._out, self._in = out_r, in_w
        self.value = None
        self.done = False
        self.ops = steps
        self._wait()

    def _wait(self):
        if os.read(self._out, 1) != b'p':
            self.done = True
            os.close(self._out)
            os.close(self._in)
            _, self.value = collect(self._pid, self._fd)

    def go(self, steps):
        """Continue with the given number of operations (0: to the end)."""
        if not self.done:
            os.write(self._in, steps.to_bytes(8, 'little'))
            self._wait()
