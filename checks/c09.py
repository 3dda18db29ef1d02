"""C09 data of inputs."""
import os
import stat

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, World, expect_tree, format_ts, make_workspace, read_tree, recorded_inputs, tree_of, write_zip

TECHNIQUE = 'stateful property-based testing (Hypothesis) against a model of inputs and boxes'
RULE = ('histories of input add / load / update / unload / delete and of copies of beads appearing, disappearing and getting damaged in two '
        'boxes; non-trivial: at least two successful loads, one of them of data that differs from what has been there under that name')
QUICK = 1800
THOROUGH = 100000

T0 = 1577836800 * 10**6
NAMES = ['b', 'a[1]', 'other']


def strategy(tier):
    k = st.integers(0, 6)
    nick = st.integers(0, 2)
    op = st.one_of(
        st.tuples(st.just('add'), nick, k, st.sampled_from(['name', 'name', 'path', 'time', 'nick'])),
        st.tuples(st.just('add'), nick, k, st.sampled_from(['name', 'path', 'time'])),
        st.tuples(st.just('define'), nick, st.sampled_from([0, 1, 2, 3, 4, 5, 6, 99])),
        st.tuples(st.just('define'), nick, st.sampled_from([0, 1, 2, 3, 4, 5, 6])),
        st.tuples(st.just('load'), st.one_of(nick, nick, st.none())),
        st.tuples(st.just('load'), st.one_of(nick, nick, st.none())),
        st.tuples(st.just('unload'), st.one_of(nick, nick, st.none())),
        st.tuples(st.just('delete'), nick),
        st.tuples(st.just('update'), st.one_of(nick, nick, st.none()), st.sampled_from(['', '--next', '--prev', 'time', 'name', 'path']), k),
        st.tuples(st.sampled_from(['damage', 'remove', 'put', 'put', 'second']), k, st.integers(0, 1), st.integers(0, 2)),
        st.tuples(st.just('index'), st.integers(0, 1)),
    ).map(list)
    output = gen.entries(4, depth=3, content=gen.contents(large=False))
    return st.fixed_dictionaries({
        'outputs': st.lists(output, min_size=7, max_size=7),
        'where': st.lists(st.sampled_from([[0], [1], [0, 1], [0, 1], [0], []]), min_size=7, max_size=7),
        'indexed': st.tuples(st.booleans(), st.booleans()).map(list),
        'nicks': st.one_of(st.just(['b', 'other', 'x']), st.lists(gen.bead_names(), min_size=3, max_size=3, unique=True)),
        'ops': st.lists(op, min_size=2, max_size=14),
    })


def damaged(bead, how, path):
    """Something that claims to be the bead, but does not have its data"""
    entries = dict(bead.entries)
    data = [e for e in entries if e.startswith('data/')]
    if how == 0 and data:
        entries[data[0]] += b'x'
    elif how == 1:
        entries['data/added'] = b'x'
    else:
        del entries['code/c']
    write_zip(path, entries)


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    dirs = [os.path.join(ctx.dir, 'box0'), os.path.join(ctx.dir, 'box1')]
    w.configure_boxes([('box0', dirs[0]), ('box1', dirs[1])])
    beads = []
    for i in range(7):
        # three versions of the first, two of the second one, and another bead of the kind and the time of an early one
        name = (NAMES[0], NAMES[0], NAMES[0], NAMES[1], NAMES[1], NAMES[2], 'twin')[i]
        like = 1 if i == 6 else i
        kind = 'kind-' + (NAMES[0] if i == 6 else name)
        beads.append(RefBead(name, kind, format_ts(T0 + like * 10**9), code={'c': b'%d' % i}, output=tree_of(plan['outputs'][i])))
    by_id = {b.content_id: b for b in beads}
    elsewhere = w.mkdir('elsewhere')
    for b in beads:
        b.write(elsewhere)
    good, bad, second = set(), set(), set()       # (bead, box)

    def put(i, box):
        beads[i].write(dirs[box])
        good.add((i, box)), bad.discard((i, box))
    for i, where in enumerate(plan['where']):
        for box in where:
            put(i, box)
    ever_disturbed = set()
    for box, indexed in enumerate(plan['indexed']):
        if indexed:
            w.must('box', 'index', '--box', f'box{box}')
    ws_dir = w.path('ws')
    ws = make_workspace(ws_dir, 'ws-kind', {'code': b'c'}, {'out': b'o'})
    nicks = plan['nicks']
    inputs, loaded = {}, {}         # model: nick -> reference, nick -> bead
    loads = changes = 0
    seen_data = {}

    def observe(what):
        """The workspace has to be exactly as the model says."""
        expect_eq(recorded_inputs(ws_dir), inputs, f'{what}: recorded inputs')
        expect_eq(sorted(os.listdir(os.path.join(ws_dir, 'input'))), sorted(loaded), f'{what}: input directory')
        for n, b in loaded.items():
            check_data(ws_dir, n, b.output, what)

    def took(what, nick, allowed):
        """The new bead of an input: one of allowed; updates the model."""
        nonlocal loads, changes
        ref = recorded_inputs(ws_dir).get(nick)
        found = [b for b in allowed if b.ref == ref]
        expect(found, f'{what}: input {nick!r} is now {ref}, expected one of', [b.ref for b in allowed])
        inputs[nick], loaded[nick] = ref, found[0]
        loads += 1
        changes += seen_data.get(nick, found[0].output) != found[0].output
        seen_data[nick] = found[0].output
        observe(what)

    def undisturbed(indices):
        """Are all copies of these beads intact, and known to the indexes?"""
        return not any(i in ever_disturbed for i in indices)

    def available(candidates, fits):
        """Is there an intact one at a fitting time, and no reason not to find it?"""
        # (all times are in UTC and have the same format)
        indices = [beads.index(x) for x in candidates]
        return undisturbed(indices) and any((i, box) in good and fits(beads[i].freeze_time) for i in indices for box in (0, 1))

    for op in plan['ops']:
        kind = op[0]
        what = f'{op}'
        ctx.label(kind)
        if kind in ('damage', 'remove', 'put', 'second'):
            _, i, box, how = op
            path = os.path.join(dirs[box], beads[i].file_name)
            ever_disturbed.add(i)
            if kind == 'put':
                put(i, box)
            elif kind == 'second':
                # another copy with another name
                damaged(beads[i], how, os.path.join(dirs[box], f'copy{i}_{beads[i].freeze_time}.zip'))
                second.add((i, box))
            elif os.path.exists(path):
                good.discard((i, box)), bad.discard((i, box))
                if kind == 'remove':
                    os.unlink(path)
                else:
                    damaged(beads[i], how, path)
                    bad.add((i, box))
            continue
        if kind == 'index':
            w.must('box', 'index', '--box', f'box{op[1]}')
            continue
        if kind == 'define':
            n = nicks[op[1]]
            if n not in loaded:
                ref = beads[op[2]].ref if op[2] < 7 else ('kind-none', 'f' * 128, format_ts(T0))
                ws.add_input(n, *ref)
                inputs[n] = ref
            continue
        n = nicks[op[1]] if op[1] is not None else None
        before_inputs, before_loaded = dict(inputs), dict(loaded)
        if kind in ('add', 'update'):
            variant = op[3] if kind == 'add' else op[2]
            i = op[2] if kind == 'add' else op[3]
            b = beads[i]
            same_name = [x for x in beads if x.name == b.name]
            ref = {'name': [b.name], 'path': [os.path.join(elsewhere, b.file_name)], 'time': ['-t', b.freeze_time],
                   'nick': [], '': [], '--next': ['--next'], '--prev': ['--prev']}[variant]
            if kind == 'add' and variant == 'time':
                ref = [b.name] + ref
            if variant == 'nick':
                same_name = [x for x in beads if x.name == n]
            args = ['input', kind] + ([n] if n is not None else []) + ref
            if kind == 'update' and n is None and variant not in ('', 'time'):
                continue
            r = w.cli(*args, '-w', ws_dir)
            ctx.executions(1)
            expect(r.exc is None, what, r)
            now = recorded_inputs(ws_dir)
            if kind == 'add' or n is not None:
                # a single input; which version it is is another matter
                changed = now != before_inputs or n not in before_loaded and ws.is_loaded(n)
                if kind == 'add' or n in inputs:
                    if kind == 'add' or variant in ('name', 'path'):
                        allowed = [b] if variant == 'path' else same_name
                    else:
                        allowed = [x for x in beads if x.kind == inputs[n][0]]
                    must = variant == 'path' or (
                        kind == 'add' and variant in ('name', 'time') and undisturbed(beads.index(x) for x in same_name)
                        and any((beads.index(x), box) in good for x in same_name for box in (0, 1) if variant == 'name' or x is b))
                    if kind == 'update':
                        must = must or available(same_name if variant == 'name' else allowed, {
                            'name': lambda t: True, '': lambda t: True, 'time': lambda t: t <= b.freeze_time,
                            '--next': lambda t: t > inputs[n][2], '--prev': lambda t: t < inputs[n][2]}[variant])
                    if must:
                        expect(r.ok, f'{what} fails:', r)
                    if must or (r.ok and changed):
                        took(what, n, allowed)
                        continue
                    if r.ok and kind == 'update' and n in loaded:
                        observe(what)       # it has been at that version
                        continue
                observe(f'{what} (no change expected)')
            else:
                # all inputs
                for m in sorted(inputs):
                    if available([x for x in beads if x.kind == inputs[m][0]], lambda t: variant == '' or t <= b.freeze_time):
                        expect(r.ok and ws.is_loaded(m), f'{what}: {m!r} is not loaded, though there is an intact bead for it', r)
                    if now.get(m) != inputs[m] or (m not in loaded and ws.is_loaded(m)):
                        b = by_id.get(now.get(m, (None, None))[1])
                        expect(b and b.ref == now[m] and b.kind == inputs[m][0], f'{what}: input {m!r} is', now.get(m))
                        inputs[m], loaded[m] = b.ref, b
                        loads += 1
                observe(what)
        elif kind == 'load':
            r = w.cli('input', 'load', *([n] if n is not None else []), '-w', ws_dir)
            ctx.executions(1)
            expect(r.exc is None, what, r)
            expect(r.ok or (n is not None and n not in inputs), what, r)
            for m in sorted(inputs) if n is None else [n] if n in inputs else []:
                if m in loaded:
                    continue
                b = by_id.get(inputs[m][1])
                i = beads.index(b) if b else None
                if any((i, box) in good and (not plan['indexed'][box] or i not in ever_disturbed) for box in (0, 1)):
                    loaded[m] = b
                    loads += 1
                    changes += seen_data.get(m, b.output) != b.output
                    seen_data[m] = b.output
                elif b is not None and ws.is_loaded(m):
                    # from an index that is out of date in some way: fine if this is the data
                    expect(any((i, box) in good for box in (0, 1)), f'{what}: {m!r} got loaded, but there is no intact copy')
                    loaded[m] = b
            observe(what)
        elif kind == 'unload':
            r = w.cli('input', 'unload', *([n] if n is not None else []), '-w', ws_dir)
            expect(r.ok, what, r)
            for m in [n] if n is not None else list(loaded):
                loaded.pop(m, None)
            observe(what)
        elif kind == 'delete':
            r = w.cli('input', 'delete', n, '-w', ws_dir)
            expect(r.exc is None and r.ok == (n in inputs), what, r)
            inputs.pop(n, None), loaded.pop(n, None)
            observe(what)
    ctx.nontrivial(loads >= 2 and changes)
    expect_eq({p: c for p, c in read_tree(ws_dir).items() if not p.startswith(('input/', '.bead-meta/'))}, {'code': b'c', 'output/out': b'o'},
              'other files of the workspace')


def check_data(ws_dir, nick, output, what):
    d = os.path.join(ws_dir, 'input', nick)
    expect_tree(d, output, f'{what}: data of input {nick!r}')
    for root, dirs, files in os.walk(d):
        for p in [root] + [os.path.join(root, f) for f in files]:
            mode = stat.S_IMODE(os.lstat(p).st_mode)
            expect(not mode & 0o222, f'{what}: {p!r} is not read-only, its mode is {mode:o}')
            expect(mode & 0o400, f'{what}: {p!r} is not readable, its mode is {mode:o}')
