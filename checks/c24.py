"""C24 errors, exit status and error reports."""
import errno
import json
import locale
import os
import signal
import sys
import traceback

from hypothesis import strategies as st

import faults
import gen
from core import HarnessError, expect, expect_eq, shim
from sut import RefBead, World, format_ts, make_workspace, snapshot, write_tree

TECHNIQUE = 'property-based testing (Hypothesis): generated errors and injected faults through the main program in forked processes'
RULE = ('errors of all kinds with generated causes, messages and call depths raised below the main program, and real commands - good, '
        'refused, misused and broken ones - with faults and interrupts injected at file system operations; '
        'non-trivial: the program ended by an error, that was not a deliberate exit')
QUICK = 5000
THOROUGH = 250000

MESSAGES = ['', 'plain', 'é 日本 😀', 'two\nlines', '\udcff surrogate', 'nul \0', '{curly} %s %(x)s {0}', 'a' * 3000, '\x1b[31m', '"\'', ' ', '\r', '</x>', 'error_report']
EXCEPTIONS = ['RuntimeError', 'ValueError', 'KeyError', 'AssertionError', 'OSError', 'FileNotFoundError', 'MemoryError', 'StopIteration', 'GeneratorExit',
              'Custom', 'CustomBase', 'BadStr', 'BadRepr', 'RecursionError', 'SyntaxError', 'UnicodeDecodeError', 'ExceptionGroup', 'Empty', 'WithNote', 'ManyArgs',
              'Deep', 'LookupError', 'SystemError', 'Warning']
EXITS = ['SystemExit', 'SystemExit', 'SubSystemExit', 'KeyboardInterrupt', 'SubKeyboardInterrupt']

COMMANDS = {
    # name: (arguments, expected: ok / refused / any)
    'version': (['version'], 'ok'), 'new': (['new', '{home}/fresh'], 'ok'), 'status': (['status', '-w', '{ws}'], 'ok'),
    'save': (['save', 'box', '-w', '{ws}'], 'ok'), 'edit': (['edit', 'bead', '{home}/edited'], 'ok'),
    'add': (['input', 'add', 'n', 'bead', '-w', '{ws}'], 'ok'), 'load': (['input', 'load', '-w', '{ws}'], 'ok'),
    'update': (['input', 'update', '-w', '{ws}'], 'ok'), 'unload': (['input', 'unload', '-w', '{ws}'], 'ok'),
    'delete': (['input', 'delete', 'old', '-w', '{ws}'], 'ok'), 'discard': (['discard', '{ws}'], 'ok'),
    'list': (['box', 'list'], 'ok'), 'index': (['box', 'index'], 'ok'), 'reindex': (['box', 'reindex', '--box', 'box'], 'ok'),
    'box add': (['box', 'add', 'other', '{home}'], 'ok'), 'forget': (['box', 'forget', 'box'], 'ok'),
    'web': (['web', 'color', 'save', '{home}/x.web', 'dot', '{home}/x.dot'], 'ok'),
    'no such box': (['save', 'nobox', '-w', '{ws}'], 'refused'), 'not a workspace': (['save', 'box', '-w', '{home}'], 'refused'),
    'no such bead': (['edit', 'nothing', '{home}/edited'], 'refused'), 'exists': (['new', '{ws}'], 'refused'),
    'bad name': (['new', '{home}/a__b'], 'refused'), 'no such input': (['input', 'load', 'nothing', '-w', '{ws}'], 'refused'),
    'bad web': (['web', 'nonsense'], 'refused'), 'bad time': (['edit', '-t', 'whenever', 'bead', '{home}/edited'], 'refused'),
    'no discard': (['discard', '{home}'], 'refused'), 'damaged bead': (['edit', 'damaged', '{home}/edited'], 'refused'),
    'nothing': ([], 'refused'), 'half': (['input'], 'refused'), 'unknown command': (['frobnicate'], 'refused'), 'missing argument': (['new'], 'refused'),
    'no web file': (['web', 'load', '{home}/nothing.web'], 'fail'), 'bad web file': (['web', 'load', '{ws}/file', 'color', 'save', '{home}/y.web'], 'fail'),
    'broken workspace': (['save', 'box', '-w', '{broken}'], 'fail'), 'unreadable': (['save', 'box', '-w', '{unsavable}'], 'fail'),
    'no parent': (['new', '{ws}/file/x'], 'fail'), 'broken config': (['box', 'list'], 'fail'), 'config is a file': (['box', 'list'], 'fail'),
    'web to nowhere': (['web', 'save', '{home}/no/such/x.web'], 'fail'), 'web over a directory': (['web', 'dot', '{home}'], 'fail'),
    'new in a read-only directory': (['new', '{readonly}/x'], 'fail'),
}


def strategy(tier):
    argv = st.lists(st.one_of(st.sampled_from(MESSAGES), st.sampled_from(['save', '-w', '--x']), st.text(max_size=5)).filter(lambda s: '\0' not in s), max_size=4)
    link = st.tuples(st.sampled_from(EXCEPTIONS), st.integers(0, 13), st.sampled_from(['cause', 'cause', 'context', 'context', 'none']), st.integers(0, 6)).map(list)
    last = st.one_of(link, link, link, st.tuples(st.sampled_from(EXITS), st.integers(0, 13), st.sampled_from(['cause', 'context', 'none']), st.integers(0, 6)).map(list))
    raising = st.fixed_dictionaries({
        'form': st.just('raise'), 'chain': st.tuples(st.lists(link, max_size=3), last).map(lambda t: t[0] + [t[1]]),
        'argv': argv, 'returns': st.sampled_from([None] * 8 + ['None', 0, 1, 2, -1, 77]),
        'locale': st.sampled_from(['', '', 'C']), 'cwd': st.sampled_from(['cwd', 'c w d', 'é日本', 'new\nline', 'a{0}%s', '{x}']), 'reports': st.integers(0, 2)})
    command = st.fixed_dictionaries({
        'form': st.just('command'), 'command': st.sampled_from(sorted(COMMANDS)),
        'fault': st.one_of(st.none(), st.tuples(st.sampled_from(['eio', 'enospc', 'eacces', 'full', 'interrupt', 'interrupt']), st.integers(0, 999)).map(list)),
        'cwd': st.sampled_from(['cwd', 'c w d', 'é日本']), 'reports': st.integers(0, 1)})
    return st.one_of(raising, raising, command)


EXAMPLES = (
    [{'form': 'command', 'command': c, 'fault': None, 'cwd': 'cwd', 'reports': 0} for c in COMMANDS]
    + [{'form': 'raise', 'chain': [[e, 1, 'none', 2]], 'argv': ['x'], 'returns': None, 'locale': '', 'cwd': 'cwd', 'reports': 0} for e in sorted(set(EXCEPTIONS + EXITS))])


def prepare():
    import bead_cli.main    # noqa - once, instead of in every process


# ------------------------------------------------------------------ errors
class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError('no string')


class BadRepr(Exception):
    def __repr__(self):
        raise RuntimeError('no repr')


class SubSystemExit(SystemExit):
    pass


class SubKeyboardInterrupt(KeyboardInterrupt):
    pass


STATUS = [None, 0, 1, 2, 3, 77, 255, 'a message', '', True, False, 10, 9, 8]


def make_exception(kind, m):
    message = MESSAGES[m % len(MESSAGES)]
    if kind in ('SystemExit', 'SubSystemExit'):
        return {'SystemExit': SystemExit, 'SubSystemExit': SubSystemExit}[kind](STATUS[m % len(STATUS)])
    if kind in ('KeyboardInterrupt', 'SubKeyboardInterrupt'):
        return {'KeyboardInterrupt': KeyboardInterrupt, 'SubKeyboardInterrupt': SubKeyboardInterrupt}[kind]()
    if kind in ('OSError', 'FileNotFoundError'):
        return {'OSError': OSError(errno.EIO, message, 'some/file'), 'FileNotFoundError': FileNotFoundError(errno.ENOENT, message, 'some/\udcff')}[kind]
    if kind == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, message)
    if kind == 'SyntaxError':
        return SyntaxError(message, ('file.py', 3, 1, 'x = \n', 3, 2))
    if kind == 'ExceptionGroup':
        return ExceptionGroup(message or 'group', [ValueError('inner one'), Custom('inner two')])
    if kind == 'Empty':
        return ValueError()
    if kind == 'ManyArgs':
        return RuntimeError(message, 2, None)
    if kind == 'WithNote':
        e = RuntimeError(message)
        e.add_note('a note to be seen')
        return e
    if kind in ('Custom', 'CustomBase', 'BadStr', 'BadRepr'):
        return globals()[kind](message)
    import builtins
    return getattr(builtins, kind)(message)


def names_of(kind):
    """What must be seen in a report of such an error"""
    return {'Empty': ['ValueError'], 'ManyArgs': ['RuntimeError'], 'WithNote': ['RuntimeError', 'a note to be seen'], 'Deep': ['RecursionError'],
            'ExceptionGroup': ['ExceptionGroup', 'inner one', 'inner two', 'Custom']}.get(kind, [kind])


def raise_chain(chain):
    """Raises the last error of the chain, in handling of those before"""
    def recurse(n):
        return recurse(n + 1) + 1

    def throw(i):
        kind, m, how, depth = chain[i]
        if kind == 'Deep':
            if i:
                try:
                    deep(i - 1)
                except BaseException:
                    recurse(0)
            recurse(0)
        if i == 0:
            raise make_exception(kind, m)
        try:
            deep(i - 1)
        except BaseException as e:
            if how == 'cause':
                raise make_exception(kind, m) from e
            if how == 'none':
                raise make_exception(kind, m) from None
            raise make_exception(kind, m)

    def deep(i):
        # functions with names of their own
        depth = chain[i][3]
        env = {'throw': throw}
        body = f'throw({i})'
        for d in range(depth):
            exec(f'def frame_{i}_{d}():\n    {body}\n', env)
            body = f'frame_{i}_{d}()'
        exec(body, env)
    deep(len(chain) - 1)


def wanted(chain):
    """Texts that must be in the report"""
    res = []
    for i in range(len(chain) - 1, -1, -1):
        kind, m, how, depth = chain[i]
        res += names_of(kind)
        res += [f'frame_{i}_{d}' for d in range(depth)]
        if kind in ('RuntimeError', 'ValueError', 'Custom', 'CustomBase', 'WithNote', 'BadRepr', 'LookupError', 'Warning', 'SystemError', 'MemoryError', 'GeneratorExit'):
            import re
            res += [p for p in re.split('[\ud800-\udfff\r\n\0]', MESSAGES[m % len(MESSAGES)]) if p]
        if kind in ('OSError', 'FileNotFoundError'):
            res.append('some/')
        if how == 'none' and kind != 'Deep':
            break
    return res


# ------------------------------------------------------------------ running the program
def run_main(ctx, argv, cwd, env, run=None, loc='', fault=None, at=0, prefix=None):
    """The program in a process of its own -> (status, standard output, standard error, fault info)"""
    out_file, err_file, info_file = (os.path.join(ctx.dir, n) for n in ('stdout', 'stderr', 'info'))
    pid = os.fork()
    if not pid:
        status = 99
        try:
            os.environ.update(env)
            os.chdir(cwd)
            sys.argv = ['bead'] + argv
            signal.signal(signal.SIGINT, signal.default_int_handler)
            for fd, name in ((1, out_file), (2, err_file)):
                f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(f, fd)
            sys.stdout = open(1, 'w', encoding='utf-8', errors='surrogateescape', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', errors='backslashreplace', closefd=False)
            if loc:
                locale.setlocale(locale.LC_CTYPE, loc)
            from bead_cli.main import main
            mode, err = faults.MODES[fault] if fault else (shim.COUNT, 0)
            if prefix:
                shim.arm(mode, at, prefix, err)
            try:
                if run:
                    main(run=run)
                else:
                    main()
                status = 0
            except SystemExit as e:
                c = e.code
                if c is None:
                    status = 0
                elif isinstance(c, int):
                    status = c & 0xff
                else:
                    print(c, file=sys.stderr)
                    status = 1
            except BaseException:
                traceback.print_exc()
                status = 1
                print('--- crashed ---', file=sys.stderr)
            seen, hit = shim.seen(), shim.hit()
            shim.disarm()
            sys.stdout.flush()
            sys.stderr.flush()
            with open(info_file, 'w') as f:
                json.dump([status, seen, hit], f)
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0 if status == 0 else 99)
    _, st_ = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(st_) != 0:
        raise HarnessError(f'child ended with {st_}: ' + open(err_file, errors='replace').read()[-2000:])
    with open(info_file) as f:
        status, seen, hit = json.load(f)
    texts = []
    for name in (out_file, err_file):
        with open(name, encoding='utf-8', errors='replace', newline='') as f:
            texts.append(f.read())
        os.remove(name)
    os.remove(info_file)
    return status, texts[0], texts[1], seen, hit


def reports(cwd, before):
    """Names of new files; everything else is as before"""
    after = snapshot(cwd)
    changed = [k for k in before if after.get(k) != before[k]]
    expect(not changed, 'changed in the current directory:', changed)
    return sorted(set(after) - set(before))


def check_report(cwd, new, argv, err, texts, what):
    expect_eq(len(new), 1, f'{what}: report files: {new}\n{err[-1500:]}')
    path = os.path.join(os.path.realpath(cwd), new[0])
    expect(path in err, f'{what}: the report {path!r} is not named for the user:\n{err[-1500:]}')
    with open(path, encoding='utf-8', errors='replace', newline='') as f:
        text = f.read()
    expect(all(repr(a) in text or repr(a).replace('"', "'") in text for a in argv), f'{what}: arguments {argv!r} are not in the report:\n{text[:1000]}')
    missing = [t for t in texts if t not in text]
    expect(not missing, f'{what}: not in the report: {missing[:10]}\n{text[-3000:]}')


def prepare_cwd(ctx, plan):
    cwd = os.path.join(ctx.dir, plan['cwd'])
    os.makedirs(cwd)
    with open(os.path.join(cwd, 'precious.txt'), 'w') as f:
        f.write('x')
    for i in range(plan['reports']):
        with open(os.path.join(cwd, f'error_2024030{i}T000000000000+0000.txt'), 'w') as f:
            f.write(f'old {i}')
    return cwd


def run(plan, ctx):
    if plan['form'] == 'raise':
        run_raise(plan, ctx)
    else:
        run_command(plan, ctx)


def run_raise(plan, ctx):
    chain, argv = plan['chain'], [a.encode('utf-8', 'surrogateescape').decode('utf-8', 'surrogateescape') for a in plan['argv']]
    cwd = prepare_cwd(ctx, plan)
    before = snapshot(cwd)
    returns = plan['returns']

    def body(config_dir, args):
        if returns is not None:
            return None if returns == 'None' else returns
        raise_chain(chain)
    def once():
        return run_main(ctx, argv, cwd, {'HOME': ctx.dir, 'XDG_CONFIG_HOME': os.path.join(ctx.dir, 'config')}, body, plan['locale'])
    now = shim.now()
    shim.clock(now, 1000)
    status, out, err, _, _ = once()
    new = reports(cwd, before)
    last, m = chain[-1][:2]
    what = f'{chain!r}' if returns is None else f'return {returns!r}'
    expect('--- crashed ---' not in err, f'{what}: the program crashed without a usable report:\n{err[-2500:]}')
    if returns is not None:
        ctx.label('returned')
        expect_eq(status, 0 if returns in ('None', 0) else returns & 0xff, f'{what}: status')
        expect_eq(new, [], f'{what}: reports')
    elif last in ('SystemExit', 'SubSystemExit'):
        ctx.label('exit')
        c = STATUS[m % len(STATUS)]
        expect_eq(status, 0 if c is None else c & 0xff if isinstance(c, int) else 1, f'{what}: status of exit {c!r}')
        expect_eq(new, [], f'{what}: reports')
    elif last in ('KeyboardInterrupt', 'SubKeyboardInterrupt'):
        ctx.label('interrupt')
        expect(status != 0, f'{what}: status is 0')
        expect_eq(new, [], f'{what}: reports')
    else:
        ctx.label('error', *(['causes'] if len(chain) > 1 else []))
        ctx.nontrivial()
        expect(status != 0, f'{what}: status is 0')
        check_report(cwd, new, argv, err, wanted(chain), what)
        expect('Traceback' in err or names_of(last)[0] in err, f'{what}: the error is not shown:', err[-1500:])
        if plan['reports']:
            # right again: another report, next to the first one
            before = snapshot(cwd)
            shim.clock(now + 30_000_000, 1000)
            status, out, err, _, _ = once()
            ctx.label('error again')
            expect(status != 0, f'{what}, again: status is 0')
            check_report(cwd, reports(cwd, before), argv, err, wanted(chain), f'{what}, again')


def run_command(plan, ctx):
    name = plan['command']
    args, expected = COMMANDS[name]
    cwd = prepare_cwd(ctx, plan)
    w = World(os.path.join(ctx.dir, 'w'))
    config = os.path.join(w.base, 'xdg', 'bead_cli-6a4d9d98-8e64-4a2a-b6c2-8a753ea61daf')
    w.config = config
    box = os.path.join(w.base, 'box')
    if name == 'config is a file':
        os.makedirs(os.path.dirname(config))
        with open(config, 'w') as f:
            f.write('x')
    else:
        w.configure_boxes([('box', box)])
    bead = RefBead('bead', 'kind', format_ts(1420070400 * 10**6), code={'c': b'c'}, output={'o': b'o'})
    os.makedirs(box, exist_ok=True)
    bead.write(box)
    damaged = RefBead('damaged', 'kind-d', format_ts(1420070400 * 10**6), code={'c': b'c'})
    damaged.entries['code/c'] = b'other'
    damaged.write(box)
    places = {'home': w.home, 'ws': w.path('ws'), 'broken': w.path('broken'), 'unsavable': w.path('unsavable'), 'readonly': w.path('readonly')}
    ws = make_workspace(places['ws'], 'ws-kind', {'file': b'content'}, {'o': b'o'})
    ws.add_input('old', *bead.ref)
    if name == 'broken workspace':
        make_workspace(places['broken'], 'k')
        with open(os.path.join(places['broken'], '.bead-meta', 'bead'), 'w') as f:
            f.write('{"kind": ')
    if name == 'unreadable':
        make_workspace(places['unsavable'], 'k', {'f': b'x'})
        os.symlink('nowhere', os.path.join(places['unsavable'], 'zz'))
    if name == 'broken config':
        for f in os.listdir(config):
            with open(os.path.join(config, f), 'w') as f:
                f.write('{"boxes": [')
    os.mkdir(places['readonly'])
    os.chmod(places['readonly'], 0o555)
    argv = [a.format(**places) for a in args]
    env = {'HOME': w.home, 'XDG_CONFIG_HOME': os.path.dirname(config)}

    fault, at = None, 0
    what = f'bead {" ".join(args)} ({name})'
    if plan['fault']:
        # the number of operations, in a copy
        arena = faults.Arena(w.base, os.path.join(ctx.dir, 'orig'))
        before = snapshot(cwd)
        status, out, err, ops, _ = run_main(ctx, argv, cwd, env, prefix=w.base)
        for n in reports(cwd, before):
            os.remove(os.path.join(cwd, n))
        arena.restore()
        if ops:
            fault, at = plan['fault'][0], 1 + plan['fault'][1] * ops // 1000
            what += f' with {fault} at operation {at} of {ops}'
    before = snapshot(cwd)
    status, out, err, _, hit = run_main(ctx, argv, cwd, env, fault=fault, at=at, prefix=w.base)
    ctx.executions(1)
    new = reports(cwd, before)
    if fault == 'interrupt' and hit and expected == 'fail':
        # it may come while the other error is being handled
        expect(status != 0, f'{what}: status is 0')
        expect(len(new) <= 1, f'{what}: reports', new)
        return
    expect('--- crashed ---' not in err, f'{what}: the program crashed without a usable report:\n{err[-2500:]}')
    if fault and hit:
        ctx.label('fault: ' + fault)
        if fault == 'interrupt':
            ctx.nontrivial()
            expect_eq(new, [], f'{what}: reports\n{err[-1500:]}')
            expect(status != 0, f'{what}: status is 0')
            return
    else:
        ctx.label(expected)
        if expected == 'ok':
            expect_eq(status, 0, f'{what}: status\n{err[-1500:]}')
        elif expected in ('refused', 'fail') and not (name == 'new in a read-only directory' and os.getuid() == 0):
            expect(status != 0, f'{what}: status is 0\n{out[-1000:]}')
        if expected == 'refused':
            expect_eq(new, [], f'{what}: reports\n{err[-1500:]}')
    if status == 0:
        expect_eq(new, [], f'{what}: status is 0, but there is a report')
        expect('Traceback' not in err, f'{what}: status is 0 after an error:\n{err[-1500:]}')
    elif new:
        ctx.label('report')
        ctx.nontrivial()
        check_report(cwd, new, argv, err, ['Traceback'], what)
    else:
        expect((err + out).strip(), f'{what}: failed without telling why')
        expect('Traceback' not in err, f'{what}: an error without a report:\n{err[-2500:]}')
