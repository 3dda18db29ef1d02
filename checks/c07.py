"""C07 index against files."""
import os
import shutil

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, World, bead_key, expect_tree, format_ts, make_workspace, parse_ts, reset

TECHNIQUE = 'stateful property-based testing (Hypothesis): indexed box against the same files without index and a reference model'
RULE = ('histories of saves, copies, deletions, renames, index removals, index and reindex commands on a box; non-trivial: an index command '
        'that had to both add and remove beads, or a save into an indexed box')
QUICK = 2400
THOROUGH = 150000

T0 = 1577836800 * 10**6
KNOWN = 'box index does not notice when a file has been replaced by another bead under the very same file name (reindex does)'
NAMES = ['a', 'b', 'a[1]', 'A', 'é', 'x.zip', 'c_20200101']


# moments (seconds) whose microseconds a floating point number is about to run out of digits for
ERAS = [-11_000_000_000, -60_000_000, 0, 270_000_000, 540_000_000, 1_080_000_000]


def strategy(tier):
    name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES[:2]), gen.bead_names())
    inputs = st.lists(st.tuples(gen.bead_names(), gen.kinds(), st.integers(0, 3)).map(list), max_size=3, unique_by=lambda t: t[0])
    bead = st.tuples(name, gen.kinds(), st.integers(0, 20).map(lambda i: i * 900_000_001), gen.offsets(), inputs).map(list)
    k = st.integers(0, 7)
    op = st.one_of(
        st.tuples(st.just('store'), k), st.tuples(st.just('save'), k),
        st.tuples(st.just('copy'), k), st.tuples(st.just('copy'), k), st.tuples(st.just('copy-as'), k, name), st.tuples(st.just('copy-dated'), k),
        st.tuples(st.just('delete'), k), st.tuples(st.just('delete'), k), st.tuples(st.just('rename'), k, name), st.tuples(st.just('rename'), k, name),
        st.tuples(st.sampled_from(['rmindex', 'junk']), k),
        st.tuples(st.sampled_from(['index', 'index', 'index', 'reindex']), k),
        st.tuples(st.just('index'), k)).map(list)
    return st.fixed_dictionaries({
        'pool': st.lists(bead, min_size=2, max_size=6),
        'ops': st.lists(op, min_size=3, max_size=16),
        'replace': st.just(False),
        # where times start, and how dense they are
        'base': st.one_of(st.just(0), st.integers(-36 * 10**14, 10**14),
                          st.sampled_from(ERAS).flatmap(lambda s: st.integers((s - 1577836800) * 10**6, (s - 1577836800) * 10**6 + 10**13))), 'dense': st.sampled_from([1, 900_000_001]),
        'dir': st.sampled_from(['box', 'box', 'box', 'a#b', 'a?b', 'a?mode=rw', '100%', '%41', 'é', ' ', "q'uo\"te", '[x]', 'a&b', '~', '*', 'new\nline']),
        'readonly': st.booleans(),
    })


_POOL = [['a', 'kind-1', 0, 0, []], ['a', 'kind-2', 0, 0, [['i', 'kind-1', 0]]]]
EXAMPLES = [{'pool': _POOL, 'ops': [['copy', 0], ['index', 0], ['copy', 1], ['index', 0], ['reindex', 0]], 'replace': True, 'base': 0, 'dense': 1},
            # many beads
            {'pool': _POOL, 'ops': [['index', 0], ['many', 0], ['index', 0], ['drop many', 0], ['index', 0], ['reindex', 0]],
             'replace': False, 'base': 0, 'dense': 1}]


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    boxdir = os.path.join(ctx.dir, plan.get('dir', 'box'))
    w.configure_boxes([('box', boxdir)])
    pool = []
    for name, kind, t, off, inputs in plan['pool']:
        pool.append(RefBead(name, kind, format_ts(T0 + plan['base'] + t // plan['dense'], off), {n: (k, f'{i}' * 128, format_ts(T0 + i)) for n, k, i in inputs},
                            {'c': b'x'}, {'o': name.encode()}))
    files = {}      # file name -> bead
    indexed = {}    # file name -> content id, when last indexed
    has_index = up_to_date = False
    n_saved = 0
    for op in plan['ops']:
        kind, k = op[:2]
        bead = pool[k % len(pool)]
        existing = sorted(files)
        target = existing[k % len(existing)] if existing else None

        def free(n, b):
            if len(os.fsencode(n)) > 250:
                return False
            # see KNOWN; and we do not overwrite
            return plan['replace'] or (n not in files and indexed.get(n, b.content_id) == b.content_id)

        def copy_to(n, b):
            nonlocal up_to_date
            if free(n, b):
                name = n[:-len('.zip')].rsplit('_', 1)[0]
                b.write(boxdir, n)
                files[n] = renamed(b, name)
                up_to_date = False
        if kind in ('store', 'save'):
            n_saved += 1
            d = w.path('ws', str(n_saved), bead.name)
            ws = make_workspace(d, bead.kind, bead.code, bead.output)
            for n, ref in bead.inputs.items():
                ws.add_input(n, *ref)
            if kind == 'store':
                from bead.box import Box
                from bead.tech.fs import Path
                t = format_ts(T0 + plan['base'] - n_saved * 1_000_003, (0, 60, -330)[k % 3])
                n = os.path.basename(Box('box', Path(boxdir)).store(ws, t))
                reset()
            else:
                w.must('save', 'box', '-w', d)
                new = [n for n in os.listdir(boxdir) if n.endswith('.zip') and n not in files and not n.startswith('junk')]
                expect(len(new) == 1, 'new files after saving:', new)
                (n,) = new
                t = n[len(bead.name) + 1:-len('.zip')]
            files[n] = RefBead(bead.name, bead.kind, t, bead.inputs, bead.code, bead.output)
            if has_index:
                ctx.label('save into indexed box')
                ctx.nontrivial()
                # found without indexing again
                indexed[n] = files[n].content_id
                box = open_box(boxdir)
                found = box.search().by_content_id(files[n].content_id).all()
                expect_eq([bead_key(b) for b in found], [files[n].key()], 'saved into an indexed box, found')
                box.resolve(found[0]).validate()
                reset()
        elif kind == 'copy':
            copy_to(bead.file_name, bead)
        elif kind == 'copy-as':
            copy_to(f'{op[2]}_{bead.freeze_time}.zip', bead)
        elif kind == 'copy-dated':
            copy_to(f'{bead.name}_20200101.zip', bead)
        elif kind == 'delete' and target:
            os.unlink(os.path.join(boxdir, target))
            del files[target]
            up_to_date = False
        elif kind == 'rename' and target:
            n = f'{op[2]}_{target[:-4].rsplit("_", 1)[1]}.zip'
            if free(n, files[target]):
                os.rename(os.path.join(boxdir, target), os.path.join(boxdir, n))
                files[n] = renamed(files.pop(target), op[2])
                up_to_date = False
        elif kind == 'many':
            for i in range(1050):
                copy_to(f'n{i % 400}_{i:08}.zip', RefBead(f'n{i % 400}', bead.kind, format_ts(T0 + i), {}, {'c': b'%d' % i}))
        elif kind == 'drop many':
            for n in [n for i, n in enumerate(sorted(files)) if i % 5]:
                os.unlink(os.path.join(boxdir, n))
                del files[n]
            up_to_date = False
        elif kind == 'rmindex':
            if has_index:
                for n in os.listdir(boxdir):
                    if not n.endswith('.zip'):
                        os.unlink(os.path.join(boxdir, n))
            has_index = up_to_date = False
            indexed = {}
        elif kind == 'junk':
            with open(os.path.join(boxdir, f'junk{k}.zip'), 'wb') as f:
                f.write(b'PK\3\4')
        elif kind in ('index', 'reindex'):
            if has_index:
                gone = [n for n in indexed if n not in files]
                new = [n for n in files if n not in indexed]
                ctx.nontrivial(gone and new and kind == 'index')
                ctx.label(f'{kind}: {"adds " if new else ""}{"removes" if gone else ""}')
            replaced = [n for n in files if indexed.get(n, files[n].content_id) != files[n].content_id]
            w.must('box', kind, *((), ('--box', 'box'), ('--dir', boxdir), ('--all',))[k % 4])
            has_index = up_to_date = any(not n.endswith('.zip') for n in os.listdir(boxdir))
            if kind == 'index' and replaced:
                # only in the fixed case: a known finding, as long as it is exactly that
                shown = [bead_key(b) for b in open_box(boxdir).all_beads()]
                reset()
                if shown == [pool[0].key()]:
                    ctx.known(KNOWN)
                    continue
            indexed = {n: b.content_id for n, b in files.items()}
        if has_index and up_to_date:
            index_files = [os.path.join(boxdir, n) for n in os.listdir(boxdir) if not n.endswith('.zip')]
            if plan.get('readonly'):
                # a shared box, which this user can not write
                for f in index_files:
                    os.chmod(f, 0o444)
                os.chmod(boxdir, 0o555)
            compare(ctx, boxdir, files, f'after {kind}')
            os.chmod(boxdir, 0o755)
            for f in index_files:
                os.chmod(f, 0o644)


def renamed(b, name):
    r = RefBead.__new__(RefBead)
    r.__dict__.update(b.__dict__)
    r.name = name
    return r


def open_box(d):
    from bead.box import Box
    from bead.tech.fs import Path
    return Box('box', Path(d))


def compare(ctx, boxdir, files, what):
    raw_dir = os.path.join(ctx.dir, 'raw')
    os.mkdir(raw_dir)
    for n in os.listdir(boxdir):
        if n.endswith('.zip'):
            os.link(os.path.join(boxdir, n), os.path.join(raw_dir, n))
    indexed, raw = open_box(boxdir), open_box(raw_dir)
    beads = list({b.key(): b for b in files.values()}.values())
    ctx.executions(1)

    def queries():
        yield 'all', lambda s: s, lambda b: True
        for x in beads[:6 if len(beads) < 100 else 1]:
            yield f'by name {x.name!r}', lambda s: s.by_name(x.name), lambda b: b.name == x.name
            yield f'by kind {x.kind!r}', lambda s: s.by_kind(x.kind), lambda b: b.kind == x.kind
            yield f'by content id of {x.key()}', lambda s: s.by_content_id(x.content_id), lambda b: b.content_id == x.content_id
            yield f'at time {x.time}', lambda s: s.at_time(x.freeze_time), lambda b: b.time == x.time
            yield f'name and time {x.key()}', lambda s: s.by_name(x.name).at_or_older(x.time), lambda b: b.name == x.name and b.time <= x.time
            yield f'kind, newer {x.key()}', lambda s: s.newer_than(x.time).by_kind(x.kind), lambda b: b.kind == x.kind and b.time > x.time
        yield 'older', lambda s: s.older_than(beads[0].time), lambda b: b.time < beads[0].time
        yield 'at or newer', lambda s: s.at_or_newer(beads[0].freeze_time), lambda b: b.time >= beads[0].time
        yield 'no such name', lambda s: s.by_name('nothing like this'), lambda b: False
    for text, build, matches in queries():
        if not beads and text in ('older', 'at or newer'):
            continue
        want = sorted(b.key() for b in beads if matches(b))
        # a bead may be there in more files
        a = sorted({bead_key(b) for b in build(raw.search()).all()})
        b = sorted({bead_key(b) for b in build(indexed.search()).all()})
        expect_eq(a, want, f'{what}: {text}: without index')
        expect_eq(b, want, f'{what}: {text}: with index')
        if want:
            times = [parse_ts(k[3]) for k in want]
            for s in (indexed, raw):
                expect_eq(build(s.search()).newest().freeze_time, max(times), f'{what}: {text}: newest')
                expect_eq(build(s.search()).oldest().freeze_time, min(times), f'{what}: {text}: oldest')
    for box in (indexed, raw):
        found = box.all_beads()
        for bead in found[::1 + len(found) // 100]:
            a = box.resolve(bead)
            expect_eq(bead_key(a), bead_key(bead), f'{what}: resolved')
            expect_eq(a.box_name, 'box', f'{what}: resolved: box name')
            a.validate()
    reset()
    shutil.rmtree(raw_dir)
