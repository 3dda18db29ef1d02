"""C22 many archives at once."""
import os
import resource

from hypothesis import strategies as st

import gen
from core import Violation, expect, expect_eq
from sut import RefBead, World, bead_key, describe_tree, expect_tree, format_ts, make_workspace, read_zip, reset, write_zip

TECHNIQUE = 'model-based stateful testing (Hypothesis): interleaved reads of many archives against their known content, with a limit on open files'
RULE = ('up to 60 archives (same file names in different directories, copies, links, damaged ones) opened, read, verified and extracted in '
        'generated interleavings, or by commands; non-trivial: more than 12 different archives were read')
QUICK = 1600
THOROUGH = 80000
ROUND = 100

T0 = 1388534400 * 10**6
# more than what is open at once by a sane implementation, less than the number of archives
OPEN_LIMIT = 32


def strategy(tier):
    big = st.integers(0, 10**6)
    op = st.tuples(st.sampled_from(['open', 'open', 'validate', 'code', 'data', 'data', 'props', 'id', 'meta', 'drop', 'bad']), big, big).map(list)
    sweep = st.tuples(st.just('sweep'), st.sampled_from([1, 3, 7, 11, 13]), st.integers(0, 4)).map(list)
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(2, 60), st.integers(9, 14), st.integers(40, 60)),
        'layout': st.sampled_from(['same names', 'one directory', 'similar']),
        'links': st.lists(st.tuples(big, st.sampled_from(['sym', 'hard', 'dots', 'copy', 'up', 'up'])).map(list), max_size=4),
        'damaged': st.lists(st.tuples(big, st.sampled_from(['not zip', 'empty', 'no meta', 'changed', 'missing'])).map(list), max_size=3),
        'ops': st.lists(st.one_of(op, op, op, op, sweep), min_size=3, max_size=40),
        'cli': st.sampled_from([None] * 12 + ['load', 'update', 'web', 'edit']),
    })


EXAMPLES = [
    {'n': n, 'layout': 'same names', 'links': [[5, 'up'], [6, 'up']], 'damaged': [], 'ops': [['sweep', s, k] for s in (1, 7) for k in range(5)], 'cli': c}
    for n, c in [(60, None), (12, 'load'), (60, 'load'), (60, 'update'), (60, 'web'), (11, None), (10, None), (60, 'edit')]]


class FewFiles:
    """Only a limited number of files can be open (besides those open now)."""

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        top = max(int(f) for f in os.listdir('/proc/self/fd')) + 1
        resource.setrlimit(resource.RLIMIT_NOFILE, (top + OPEN_LIMIT, self.old[1]))
        return self

    def __exit__(self, *_):
        resource.setrlimit(resource.RLIMIT_NOFILE, self.old)


def open_archives(root):
    res = []
    for f in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink(f'/proc/self/fd/{f}')
        except OSError:
            continue
        if target.startswith(root + '/') and '.zip' in target:
            res.append(target)
    return res


def run(plan, ctx):
    from bead.exceptions import InvalidArchive
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    root = ctx.dir
    good = {}       # path -> RefBead
    bad = []
    beads = []
    for i in range(plan['n']):
        name, d = {'same names': ('bead', f'd{i}'), 'one directory': (f'bead{i}', 'd'), 'similar': (f'b{i % 3}', f'd{i // 3 % 4}')}[plan['layout']]
        t = T0 if plan['layout'] == 'same names' else T0 + i * 1000
        b = RefBead(name, f'kind-{i}', format_ts(t), {f'in{i}': (f'k{i}', f'{i:02x}' * 64, format_ts(T0))} if i % 3 else {},
                    {'same.txt': b'code of %d' % i, f'd/{i}': b'%d' % i}, {'same.txt': b'data of %d' % i, **({f'only{i}': b'x' * i} if i % 2 else {})})
        os.makedirs(os.path.join(root, d), exist_ok=True)
        good[b.write(os.path.join(root, d))] = b
        beads.append(b)
    paths = sorted(good)
    for i, (k, how) in enumerate(plan['links']):
        p = paths[k % len(paths)]
        b = good[p]
        if how == 'up':
            # without looking at links it would be in the directory of another one
            other = os.path.dirname(paths[(k * 7 + 1) % len(paths)])
            os.mkdir(os.path.join(os.path.dirname(p), f'sub{i}'))
            os.symlink(os.path.join(os.path.dirname(p), f'sub{i}'), os.path.join(other, f'link{i}'))
            good[os.path.join(other, f'link{i}', '..', os.path.basename(p))] = b
            continue
        q = os.path.join(root, f'link{i}')
        os.mkdir(q)
        q = os.path.join(q, os.path.basename(p))
        if how == 'sym':
            os.symlink(p, q)
        elif how == 'hard':
            os.link(p, q)
        elif how == 'copy':
            write_zip(q, b.entries)
        else:
            q = os.path.join(os.path.dirname(p), '..', os.path.basename(os.path.dirname(p)), os.path.basename(p))
        good[q] = b
    for k, how in plan['damaged']:
        p = os.path.join(root, f'bad{len(bad)}')
        os.mkdir(p)
        b = beads[k % len(beads)]
        p = os.path.join(p, b.file_name)
        if how in ('not zip', 'empty'):
            with open(p, 'wb') as f:
                f.write(b'PK nothing' if how == 'not zip' else b'')
        elif how != 'missing':
            entries = dict(b.entries)
            if how == 'no meta':
                del entries['meta/bead']
            else:
                entries['data/same.txt'] = b'evil'
            write_zip(p, entries)
        bad.append((p, how))
    paths = sorted(good)
    archives = {}
    seen = set()
    n_extract = 0

    def get(p):
        if p not in archives:
            archives[p] = ZipArchive(Path(p))
        seen.add(p)
        return archives[p]

    def act(what, p):
        nonlocal n_extract
        b = good[p]
        if what == 'open':
            archives[p] = ZipArchive(Path(p))
            seen.add(p)
            what = 'props'
        elif what == 'drop':
            archives.pop(p, None)
            return
        a = get(p)
        if what == 'validate':
            a.validate()
        elif what in ('code', 'data'):
            n_extract += 1
            d = os.path.join(root, f'x{n_extract}')
            (a.unpack_code_to if what == 'code' else a.unpack_data_to)(Path(d))
            expect_tree(d, b.code if what == 'code' else b.output, f'{what} extracted from {p}')
        elif what == 'props':
            expect_eq((str(a.name), a.kind, a.freeze_time_str), (b.name, b.kind, b.freeze_time), f'metadata of {p}')
        elif what == 'id':
            expect_eq(a.content_id, b.content_id, f'content id of {p}')
        elif what == 'meta':
            expect_eq(bead_key(a), b.key(), f'metadata of {p}')

    def act_bad(k, what):
        if not bad:
            return
        p, how = bad[k % len(bad)]
        try:
            a = ZipArchive(Path(p))
            a.validate()
        except InvalidArchive:
            return
        expect(False, f'{how} archive is taken for a good one: {p}')

    ACTS = ['open', 'validate', 'code', 'data', 'meta']
    try:
        with FewFiles():
            for op, a, b in plan['ops']:
                if op == 'sweep':
                    for i in range(len(paths)):
                        act(ACTS[(b + i // 20) % 5] if b else 'data', paths[i * a % len(paths)])
                        if i % 16 == 15:
                            act_bad(i, op)
                elif op == 'bad':
                    act_bad(a, op)
                else:
                    act(op, paths[a % len(paths)])
                n = len(open_archives(root))
                expect(n <= OPEN_LIMIT, f'{n} archives are open at the same time')
    except InvalidArchive as e:
        raise Violation(f'intact archive is reported to be invalid: {e!r}') from e
    ctx.nontrivial(len(seen) > 12)
    ctx.label(plan['layout'])
    archives.clear()
    reset()
    n = len(open_archives(root))
    expect_eq(n, 0, f'archives left open')
    if plan['cli']:
        ctx.label('command: ' + plan['cli'])
        command(plan, ctx, beads)


def command(plan, ctx, beads):
    """Commands dealing with all of them"""
    w = World(os.path.join(ctx.dir, 'w'))
    boxes = [os.path.join(ctx.dir, f'box{i}') for i in range(3)]
    w.configure_boxes([(f'box{i}', d) for i, d in enumerate(boxes)])
    for i, b in enumerate(beads):
        b.write(boxes[i % 3], b.file_name if plan['layout'] != 'same names' else f'n{i}_{b.freeze_time}.zip')
    if plan['n'] % 2:
        w.must('box', 'index', '--box', 'box1')
    ws = make_workspace(w.path('ws'), 'ws-kind')
    with FewFiles():
        if plan['cli'] in ('load', 'update'):
            for i, b in enumerate(beads):
                ws.add_input(f'i{i}', b.kind, b.content_id, b.freeze_time)
            w.must('input', plan['cli'], '-w', w.path('ws'))
            for i, b in enumerate(beads):
                expect_tree(w.path('ws', 'input', f'i{i}'), b.output, f'input {i} after input {plan["cli"]}')
        elif plan['cli'] == 'web':
            w.must('web', 'save', 'x.web')
            from bead_cli.web.sketch import Sketch
            got = sorted((b.kind, b.content_id, b.freeze_time_str) for b in Sketch.from_file(w.path('x.web')).beads if b.box_name)
            expect_eq(got, sorted((b.kind, b.content_id, b.freeze_time) for b in beads), 'beads of the web')
        else:
            for i, b in list(enumerate(beads))[-3:]:
                name = b.name if plan['layout'] == 'one directory' else f'n{i}' if plan['layout'] == 'same names' else None
                if name:
                    w.must('edit', '--review', name, w.path(f'e{i}'))
                    expect_tree(w.path(f'e{i}', 'output'), b.output, f'output of edited {name}')
    ctx.executions(1)
