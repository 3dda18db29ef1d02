"""C31 odd names and any terminal."""
import io
import json
import os
import re
import sys
import traceback

from hypothesis import strategies as st

import dot
import gen
from core import expect, expect_eq, remove, shim
from sut import META_VERSION, RefBead, expect_same, format_ts, parse_ts, read_zip, ref_dumps, reset, write_tree

TECHNIQUE = 'metamorphic property-based testing (Hypothesis): the same commands with plain names on an UTF-8 terminal and with odd names on any terminal'
RULE = ('histories of commands of the main program with plain names of directories, boxes, beads and inputs and UTF-8 output - and again with '
        'names that are not text, special characters and output in other encodings; non-trivial: some output or file had to be different')
QUICK = 900
THOROUGH = 60000
ROUND = 100

T0 = 1577836800 * 10**6
NOW = 1_700_000_000 * 10**9

DIRS = ['caf\udce9', '\udcff', 'é', 'e\u0301', ' ', 'a b', ' lead', 'trail ', '%41', '%', '100%25', 'x?mode=rw', '?', '#', 'a#b?c=d&e', '&', '\n', 'new\nline', "it's", 'dou"ble',
        '*', '[a]', '[', '[!a]', '**', '{0}', '{', '%s', '%(x)s', '\\', 'a\\nb', '~', '~root', 'a:b', ':', '日本', '\x1b[0m', '\t', '\r', '\x7f', 'file:', 'http:', '...', '..a', '.hidden',
        'a' * 240, '😀', '$HOME', '`x`', ';', '|', '<a>', '\u202e', '\u2028', 'a__b', 'x.zip', 'a_20200101T000000000000+0000.zip', '.index.sqlite', 'input', 'output', '.bead-meta', 'env.json',
        ',', '=', '+', '@', '!', '^', '()', 'ß', 'I', 'ı', 'NUL', 'null', ':memory:', 'é\udce9', '\udcf0\udc9f', 'a\x01b', '\ufeff', '\xa0']
ENCODINGS = ['ascii', 'ascii', 'latin-1', 'cp1252', 'cp437', 'utf-8', 'utf-8', 'utf-16', 'shift_jis', 'cp1250']
ERRORS = ['strict', 'strict', 'strict', 'surrogateescape', 'backslashreplace', 'replace']
BAD = ['caf\udce9', '\udcff', 'a__b', '__', 'a/b__c', '.', '..', 'a\udcff.zip', 'n' * 300, 'é' * 130, '']
PLAIN = ['alpha-one', 'beta-two', 'gamma-three']
PLAIN_NICKS = ['nick-one', 'nick-two', 'nick-zoo']
PLAIN_BOXES = ['the-box-0', 'the-box-1', 'the-box-2']


def strategy(tier):
    odd_dir = st.one_of(st.sampled_from(DIRS), st.sampled_from(DIRS), st.sampled_from(DIRS[:2]),
                        st.text(alphabet=st.characters(blacklist_categories=('Cs',), blacklist_characters='/\0'), min_size=1, max_size=8).filter(gen.ok_component))
    odd_box = st.one_of(odd_dir, st.text(min_size=1, max_size=6)).filter(lambda s: not s.startswith('-') and '\0' not in s)
    k, time = st.integers(0, 2), st.one_of(st.none(), st.none(), st.integers(0, 8))
    inside = st.booleans()
    nick = st.one_of(st.none(), st.integers(0, 2), st.integers(0, 2))
    step = st.one_of(
        st.tuples(st.just('new'), k), st.tuples(st.just('write'), k, st.integers(0, 3), st.integers(0, 5)),
        st.tuples(st.just('save'), k, k, inside), st.tuples(st.just('save'), k, k, inside),
        st.tuples(st.just('edit'), k, time, st.booleans(), st.integers(0, 2)),
        st.tuples(st.just('add'), k, st.integers(0, 2), k, st.integers(0, 2), inside), st.tuples(st.just('add'), k, st.integers(0, 2), k, st.integers(0, 2), inside),
        st.tuples(st.sampled_from(['load', 'unload', 'update', 'delete', 'prev', 'next']), k, nick, inside),
        st.tuples(st.just('status'), k, st.booleans(), inside), st.tuples(st.just('web'), st.integers(0, 4), k),
        st.tuples(st.sampled_from(['list', 'index', 'reindex']), k, st.integers(0, 3)), st.tuples(st.sampled_from(['index', 'reindex']), k, st.integers(0, 1)),
        st.tuples(st.sampled_from(['forget', 'box add', 'discard', 'remove file']), k, inside), st.tuples(st.sampled_from(['no bead', 'no box', 'no input', 'bad zip']), k),
        st.tuples(st.sampled_from(['bad new', 'bad nick']), k, st.integers(0, len(BAD) - 1), inside)).map(list)
    bead = st.fixed_dictionaries({'name': k, 'kind': st.integers(0, 2), 'time': st.integers(0, 7), 'inputs': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 5)).map(list), max_size=2, unique_by=lambda t: t[0]),
                                  'boxes': st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True)})
    return st.fixed_dictionaries({
        'boxes': st.lists(odd_box, min_size=3, max_size=3, unique=True).map(sorted), 'box dirs': st.lists(odd_dir, min_size=3, max_size=3), 'n': st.integers(1, 3),
        'home': odd_dir, 'config': odd_dir, 'work': odd_dir,
        'beads': st.lists(bead, max_size=5),
        'names': st.lists(gen.bead_names(), min_size=3, max_size=3, unique=True).map(sorted),
        'nicks': st.lists(gen.bead_names(), min_size=3, max_size=3, unique=True).map(sorted),
        'indexed': st.lists(st.booleans(), min_size=3, max_size=3),
        'encoding': st.sampled_from(ENCODINGS), 'errors': st.sampled_from(ERRORS),
        'steps': st.lists(step, min_size=3, max_size=10)})


_STEPS = [['new', 0], ['write', 0, 0, 1], ['write', 0, 2, 1], ['save', 0, 0, False], ['index', 0, 0], ['new', 1], ['add', 1, 0, 0, 0, False], ['status', 1, True, True], ['save', 1, 1, True],
          ['web', 0, 0], ['web', 1, 0], ['edit', 0, None, True, 1], ['edit', 1, None, False, 2], ['unload', 1, None, True], ['load', 1, 0, True], ['list', 0, 0],
          ['reindex', 0, 1], ['update', 1, None, False], ['delete', 1, 0, False], ['discard', 1, True], ['forget', 1, False], ['box add', 1, False], ['status', 0, False, False],
          ['no bead', 0], ['no box', 0], ['no input', 0], ['bad zip', 0]]
_STEPS = _STEPS[:12] + [['bad new', 0, i, j] for i in range(len(BAD)) for j in (False, True)] + [['bad nick', 0, i, True] for i in range(len(BAD))] + _STEPS[12:]
_BEADS = [{'name': 0, 'kind': 0, 'time': 1, 'inputs': [], 'boxes': [0]}, {'name': 1, 'kind': 1, 'time': 2, 'inputs': [[0, 0]], 'boxes': [0, 1]}]
EXAMPLES = [
    {'boxes': ['b' + d, 'c', 'd'], 'box dirs': [d, d, d], 'n': 2, 'home': d, 'config': d, 'work': d, 'beads': _BEADS,
     'names': ['a' + x, 'b', 'c'], 'nicks': ['a', 'b' + x, 'c'], 'indexed': [True, False, False], 'encoding': e, 'errors': 'strict', 'steps': _STEPS}
    for d, x, e in [('caf\udce9', 'é', 'ascii'), ('é', '日本', 'latin-1'), ('x?mode=rw', '😀', 'utf-8'), ('%41', ' x', 'utf-8'), ('\n', '\n', 'cp1252'), ('#', '[x]', 'utf-16'), ('*', '%s', 'utf-8'),
                    (' ', '{0}', 'ascii'), ('[a]', '"', 'utf-8'), ("it's", "'", 'ascii'), ('\\', '&', 'shift_jis'), ('a:b', '<b>', 'utf-8'), ('~', '~', 'ascii'), ('...', '...', 'utf-8')]]


def program(argv, cwd, env, encoding, errors):
    """The main program -> (status, output, error output)"""
    from bead_cli.main import main
    old = sys.argv, sys.stdout, sys.stderr, dict(os.environ), os.getcwd()
    out, err = io.BytesIO(), io.BytesIO()
    sys.argv = ['bead'] + argv
    os.environ.update(env)
    os.chdir(cwd)
    sys.stdout = io.TextIOWrapper(out, encoding=encoding, errors=errors, newline='\n')
    # the standard error is never strict
    sys.stderr = io.TextIOWrapper(err, encoding=encoding, errors='backslashreplace', newline='\n', line_buffering=True)
    try:
        try:
            main()
            status = 0
        except SystemExit as e:
            status = e.code
            if status is not None and not isinstance(status, int):
                print(status, file=sys.stderr)
                status = 1
            status = (status or 0) & 0xff
        except Exception:
            traceback.print_exc()
            status = 'crashed'
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            status = f'{status} but output is lost'
        texts = [x.getvalue().decode(encoding, 'surrogateescape' if encoding != 'utf-16' else 'replace') for x in (out, err)]
    finally:
        sys.argv, sys.stdout, sys.stderr = old[:3]
        os.environ.clear()
        os.environ.update(old[3])
        os.chdir(old[4])
        reset()
    return status, *texts


class Side:
    def __init__(self, plan, ctx, odd):
        self.plan, self.ctx, self.odd = plan, ctx, odd
        self.base = os.path.join(ctx.dir, 'world')
        n = self.n = plan['n']

        def named(plain, key):
            return os.path.join(self.base, plain, plan[key] if odd else plain)
        self.home, self.config, self.work = named('home', 'home'), named('config', 'config'), named('work', 'work')
        self.box_dirs = [os.path.join(self.base, f'box-{i}', plan['box dirs'][i] if odd else 'store') for i in range(n)]
        self.out = os.path.join(self.base, 'out')
        for d in [self.home, self.config, self.work, self.out] + self.box_dirs:
            os.makedirs(d)
        self.boxes = (plan['boxes'] if odd else PLAIN_BOXES)[:n]
        self.names = plan['names'] if odd else PLAIN
        self.nicks = plan['nicks'] if odd else PLAIN_NICKS
        self.encoding, self.errors = (plan['encoding'], plan['errors']) if odd else ('utf-8', 'strict')
        self.beads = []
        for i, s in enumerate(plan['beads']):
            inputs = {self.nicks[nick]: self.beads[k % len(self.beads)].ref for nick, k in s['inputs'] if self.beads}
            b = RefBead(self.names[s['name']], f'kind{s["kind"]}', format_ts(T0 + s['time'] * 10**9 + i), inputs, {'code': b'%d' % i}, {'out': b'out %d' % i})
            self.beads.append(b)
            for k in {k % n for k in s['boxes']}:
                b.write(self.box_dirs[k])
        self.web_file = None
        self.count = 0

    def ws(self, k):
        return os.path.join(self.work, self.names[k])

    def cli(self, *args, cwd=None):
        self.count += 1
        shim.clock(NOW + self.count * 10**10, 1000)
        return program(list(args), cwd or self.work, {'HOME': self.home, 'XDG_CONFIG_HOME': self.config}, self.encoding, self.errors)

    def step(self, i, step):
        """Returns (exit status, output, errors), or None if there was nothing to do"""
        kind, k, *args = step
        k = k % self.n if kind in ('index', 'reindex', 'forget', 'box add', 'remove file') else k
        ws = self.ws(k % 3)

        def in_ws(inside, *argv):
            if inside and os.path.isdir(ws):
                return self.cli(*argv, cwd=ws)
            return self.cli(*argv, '-w', ws)
        if kind == 'new':
            r = self.cli('new', self.names[k])
            meta = os.path.join(ws, '.bead-meta', 'bead')
            if r[0] == 0:
                # the kind is random
                with open(meta, 'w') as f:
                    f.write(ref_dumps({'meta_version': META_VERSION, 'kind': f'new kind {i}', 'inputs': {}}))
            return r
        if kind == 'write':
            if os.path.isdir(ws):
                write_tree(ws, {['file', 'sub/file', 'output/file', 'output/sub/file'][args[0]]: b'%d' % args[1]})
            return None
        if kind == 'save':
            return in_ws(args[1], 'save', self.boxes[args[0] % self.n])
        if kind == 'edit':
            ref, target = self.names[k], [[], [os.path.join(self.work, f'edited-{i}')], [f'edited-{i}']][args[2]]
            if args[2] == 2:
                ref = self.archive(k) or ref
            t = [] if args[0] is None else ['-t', iso(T0 + args[0] * 10**9 + 10**6)]
            return self.cli('edit', *t, *(['--review'] if args[1] else []), ref, *target)
        if kind == 'add':
            nick, other, how, inside = args
            if how == 2:
                return in_ws(inside, 'input', 'add', self.names[other])
            ref = self.archive(other) if how == 1 else None
            return in_ws(inside, 'input', 'add', self.nicks[nick], ref or self.names[other])
        if kind in ('load', 'unload', 'update', 'delete', 'prev', 'next'):
            nick, inside = args
            if nick is None and kind in ('delete', 'prev', 'next'):
                return None
            return in_ws(inside, 'input', *(['update', '--' + kind] if kind in ('prev', 'next') else [kind]), *([] if nick is None else [self.nicks[nick]]))
        if kind == 'status':
            return in_ws(args[1], 'status', *(['-v'] if args[0] else []))
        if kind == 'web':
            before = self.web_file
            web, picture = os.path.join(self.out, f'{i}.web'), os.path.join(self.out, f'{i}.dot')
            if k == 0 or not before:
                self.web_file = web
                return self.cli('web', 'color', 'save', web, 'dot', picture)
            name = self.names[args[0]]
            return self.cli('web', *(['load', before] if k > 1 else []), *[['/', name, '..', '/'], ['/', '..', name, '/'], ['heads'], ['color', 'heads']][k - 1], 'save', web, 'dot', picture)
        if kind == 'list':
            return self.cli('box', 'list')
        if kind in ('index', 'reindex'):
            return self.cli('box', kind, *[['--box', self.boxes[k]], ['--dir', self.box_dirs[k]], ['--all'], ['--dir', os.path.relpath(self.box_dirs[k], self.work)]][args[0]])
        if kind == 'forget':
            return self.cli('box', 'forget', self.boxes[k])
        if kind == 'box add':
            if args[0]:
                # as seen from where it is
                parent, name = os.path.split(self.box_dirs[k])
                return self.cli('box', 'add', self.boxes[k], name if not name.startswith('-') else './' + name, cwd=parent)
            return self.cli('box', 'add', self.boxes[k], self.box_dirs[k])
        if kind == 'discard':
            # force is refused for directories that are not there
            if args[0] and os.path.isdir(ws):
                return self.cli('discard', cwd=ws)
            return self.cli('discard', ws)
        if kind == 'remove file':
            # of the oldest bead
            names = sorted((f[-31:], f) for f in os.listdir(self.box_dirs[k]) if f.endswith('.zip'))
            if names:
                os.remove(os.path.join(self.box_dirs[k], names[0][1]))
            return None
        if kind == 'no bead':
            return self.cli('edit', self.names[k] + 'x-no-such', 'nothing')
        if kind == 'no box':
            return self.cli('save', 'x-no-such' + self.boxes[k % self.n], '-w', ws)
        if kind == 'no input':
            return self.cli('input', 'load', self.names[k] + 'x-no-such', '-w', ws)
        if kind in ('bad new', 'bad nick'):
            name, inside = BAD[args[0]], args[1]
            if kind == 'bad new':
                return self.cli('new', os.path.join(ws, name) if inside and os.path.isdir(ws) else name)
            return in_ws(inside, 'input', 'add', name, self.names[k])
        if kind == 'bad zip':
            path = os.path.join(self.box_dirs[k % self.n], f'{self.names[k]}_20200202T020202000002+0000.zip')
            with open(path, 'wb') as f:
                f.write(b'not an archive')
            r = self.cli('edit', path, 'nothing')
            os.remove(path)
            return r
        raise AssertionError(kind)

    def archive(self, k):
        """Latest archive file of a bead"""
        files = []
        for d in self.box_dirs:
            for f in os.listdir(d):
                if f.startswith(self.names[k] + '_') and re.fullmatch(r'_\d{8}T\d{12}[+-]\d{4}\.zip', f[len(self.names[k]):]):
                    files.append((f[-31:], d, f))
        if not files:
            return None
        _, d, f = max(files, key=lambda x: (x[0], self.box_dirs.index(x[1])))
        return os.path.join(d, f)

    # ------------------------------------------------------ canonical view
    def canonical(self):
        ids = {}

        def read(path, where):
            """Plain form of an archive"""
            content = dict(read_zip(path))
            meta = json.loads(content.pop('meta/bead'))
            content.pop('meta/manifest')
            ids[ref_id(path)] = f'id of {self.plain(meta["freeze_name"])} @ {meta["freeze_time"]}'
            return where, self.plain(meta['freeze_name']), meta['freeze_time'], meta['kind'], meta['inputs'], {k: v.decode('latin-1') for k, v in content.items()}
        archives = []
        for i, d in enumerate(self.box_dirs):
            for f in os.listdir(d):
                if f.endswith('.zip') and f[-31:][0] == '_':
                    archives.append((f'box {i}', f[-31:], self.plain(f[:-31]), read(os.path.join(d, f), f'box {i}')))
                elif not f.startswith('.index.sqlite'):
                    archives.append((f'box {i}', 'other', 'file', f))
        for b in self.beads:
            ids[b.content_id] = f'id of {self.plain(b.name)} @ {b.freeze_time}'

        def inputs(x):
            return {self.plain_nick(n): (s['kind'], ids.get(s['content_id'], '?'), s['freeze_time']) for n, s in x.items()}
        res = {'archives': {repr(a[:3]): (*a[3][:4], inputs(a[3][4]), a[3][5]) if isinstance(a[3], tuple) else a[3] for a in archives}}
        tree = {}
        for d in os.listdir(self.work):
            path = os.path.join(self.work, d)
            name = self.plain(d)
            if not os.path.isdir(path):
                tree[name] = 'file'
                continue
            for p, dirs, files in os.walk(path):
                rel = os.path.relpath(p, path).split(os.sep)
                if rel[0] == 'input' and len(rel) > 1:
                    rel[1] = self.plain_nick(rel[1])
                for x in dirs + files:
                    full = os.path.join(p, x)
                    key = '/'.join([name] + rel + [self.plain_nick(x) if rel == ['input'] else x])
                    if os.path.isdir(full):
                        tree[key] = 'dir'
                    elif rel != ['.bead-meta']:
                        with open(full, 'rb') as f:
                            tree[key] = f.read()
                    elif x == 'bead':
                        with open(full) as f:
                            meta = json.load(f)
                        tree[key] = (meta['kind'], inputs(meta['inputs']))
                    else:
                        with open(full) as f:
                            tree[key] = sorted((self.plain_nick(k), v if not isinstance(v, str) else self.plain(v)) for k, v in json.load(f).items())
        res['work'] = tree
        config = []
        for p, dirs, files in os.walk(self.config):
            for f in files:
                if f == 'env.json':
                    with open(os.path.join(p, f)) as f:
                        config += [(self.plain_box(b['name']), self.box_dirs.index(b['directory']) if b['directory'] in self.box_dirs else '?') for b in json.load(f).get('boxes', [])]
                else:
                    config.append(f)
        res['config'] = config
        res['home'] = sorted(os.listdir(self.home))
        res['indexes'] = [os.path.exists(os.path.join(d, '.index.sqlite')) for d in self.box_dirs]
        res['all'] = sorted(os.listdir(self.base)) + [len(os.listdir(os.path.join(self.base, d))) for d in sorted(os.listdir(self.base)) if d not in ('out', 'work')]
        for f in sorted(os.listdir(self.out)):
            with open(os.path.join(self.out, f), encoding='utf-8', newline='') as file:
                text = file.read()
            if f.endswith('.web'):
                web = []
                for b in json.loads(text):
                    web.append((self.plain(b.pop('name')), self.plain_box(b.pop('box_name')) if 'box_name' in b else None, ids.get(b.pop('content_id'), '?'),
                                sorted((self.plain_nick(x.get('name')), ids.get(x.get('content_id'), '?'), x.get('kind'), str(x.get('freeze_time'))) for x in b.pop('inputs'))
                                , sorted((k, str(v)) for k, v in b.items())))
                res[f] = sorted(web, key=repr)
            else:
                graph = dot.parse(text)
                res[f] = (len(graph.nodes), len(graph.edges))
        return res

    def plain(self, name):
        """Plain names instead of odd ones"""
        return PLAIN[self.names.index(name)] if name in self.names else PLAIN_NICKS[self.nicks.index(name)] + ' (nick)' if name in self.nicks else name

    def plain_nick(self, name):
        # the name of a bead can be used as the name of an input
        return PLAIN_NICKS[self.nicks.index(name)] if name in self.nicks else PLAIN[self.names.index(name)] if name in self.names else name

    def plain_box(self, name):
        return PLAIN_BOXES[self.boxes.index(name)] if name in self.boxes else name

    def found(self):
        """Beads found in the boxes, with or without index"""
        from bead.box import Box
        from bead.tech.fs import Path
        res = []
        for name, d in zip(self.boxes, self.box_dirs):
            res.append(sorted((self.plain(str(b.name)), b.kind, b.freeze_time_str, sorted(self.plain_nick(str(i.name)) for i in b.inputs)) for b in Box(name, Path(d)).all_beads()))
            reset()
        return res


def ref_id(path):
    from sut import ref_hash
    return ref_hash(dict(read_zip(path))['meta/manifest'])


def iso(us):
    t = format_ts(us)
    return f'{t[:4]}-{t[4:6]}-{t[6:8]}T{t[9:11]}:{t[11:13]}:{t[13:15]}+0000'


def run(plan, ctx):
    # a name of a bead, that is also the name of an input - or not
    plan['nicks'] = sorted('i' + n if n in plan['names'] else n for n in plan['nicks'])
    if len(set(plan['nicks'] + plan['names'])) < 6:
        plan['nicks'] = ['i1', 'i2', 'i3']
    results = []
    for odd in (False, True):
        side = Side(plan, ctx, odd)
        setup = [side.step(0, ['box add', i, plan['indexed'][(i + 1) % 3]]) for i in range(side.n)]
        setup += [side.cli('box', 'index', '--box', side.boxes[i]) for i in range(side.n) if plan['indexed'][i]]
        if not odd:
            for s in setup:
                expect(s[0] == 0, 'setup failed', s)
        log = [([s[0] for s in setup], setup, None, None)]
        want = results[0] if odd else None
        for i, step in enumerate([None] + plan['steps']):
            if step is not None:
                r = side.step(i, step)
                log.append(((r and r[0]), r, side.canonical(), None))
                if step[0].startswith('bad '):
                    expect(r[0] not in (0, 'crashed') and 'Traceback' not in r[2], f'{step}: should be refused', r)
                    if log[-2][2] is not None:
                        expect_same(log[-2][2], log[-1][2], f'{step}: refused, but changed something')
            what = f'{"plain" if not odd else (side.encoding, side.errors, side.names, side.nicks, side.boxes, side.home, side.config, side.work, side.box_dirs)} step {i}: {step}'
            status, r, state, _ = log[i]
            if not odd:
                if r and step:
                    expect(isinstance(status, int) and 'Traceback' not in r[2], f'{what}: crashed', r[2][-3000:])
                continue
            # the same as with plain names
            expect_eq(status, want[i][0], f'{what}: exit status\nwith plain names: {text_of(want[i][1])}\nhere: {text_of(r)}\nresult')
            for a, b in zip([r] if step else r, [want[i][1]] if step else want[i][1]):
                if a is None:
                    continue
                if a[1:] != b[1:]:
                    ctx.nontrivial()
                expect_output(side, a[1], b[1], f'{what}: output')
            if state is None:
                continue
            for k, v in want[i][2].items():
                if isinstance(v, dict):
                    expect_same(v, state.get(k), f'{what}: {k}')
                else:
                    expect_eq(state.get(k), v, f'{what}: {k}')
            expect_eq(sorted(state), sorted(want[i][2]), what)
        found = side.found()
        log.append(found)
        if odd:
            expect_eq(found, results[0][-1], f'{side.box_dirs}: beads found')
        else:
            done = [(s[0], x[0] == 0) for s, x in zip(plan['steps'], log[1:]) if x[1]]
            ctx.label(*(f'{s}: {"ok" if ok else "refused"}' for s, ok in done))
        results.append(log)
        remove(side.base)
        reset()


def text_of(r):
    return json.dumps(r)[:1500]


def expect_output(side, got, plain, what):
    """The text shown is the plain one with other names"""
    if side.encoding in ('utf-16', 'shift_jis', 'cp437'):
        return
    tokens = PLAIN + PLAIN_NICKS + PLAIN_BOXES
    # progress is cut at the width of the terminal
    plain = re.sub(r'\rLoaded bead [^\r]*', '', plain)
    # what depends on the width of names, or can not be shown
    literals = re.split('|'.join(map(re.escape, tokens)) + r'|/|[^\n -~]|[0-9a-f]{40,}|(?:world|home|config|work|box-\d|store)\b|\s{3,}|-{3,}', plain)
    at = 0
    for text in literals:
        found = got.find(text, at)
        expect(found >= 0, f'{what}: no {text!r} in its place in\n{got!r}\nwith plain names:\n{plain!r}')
        at = found + len(text)
