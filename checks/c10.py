"""C10 choosing versions."""
import os

from hypothesis import strategies as st

from core import expect, expect_eq
from sut import RefBead, World, expect_tree, format_ts, make_workspace, read_tree, recorded_inputs, workspace_meta
import gen

TECHNIQUE = 'stateful property-based testing (Hypothesis) against a reference model of version selection'
RULE = ('histories of add / edit / update by name, kind, time, --next and --prev over up to three boxes; '
        'non-trivial: at least one successful choice that had to skip a newer or an older bead of the same name or kind')
QUICK = 1800
THOROUGH = 120000

BASE = [1262304000, 1388534400, 1540688400, 1585443600]
STEPS = [1, 1000, 10**6, 3600 * 10**6, 86400 * 10**6]
NAMES = ['a', 'b', 'a[b]', 'A']
KINDS = ['kind-a', 'kind-b', 'kind']


def moment():
    """a position on the time grid, a small difference, how to write it"""
    return st.tuples(st.integers(-1, 12), st.sampled_from([0, 0, 0, -1, 1]), st.sampled_from(['basic', 'iso', 'isosec']),
                     gen.offsets()).map(list)


def strategy(tier):
    name, nick, kind = st.integers(0, len(NAMES) - 1), st.integers(0, 3), st.integers(0, len(KINDS) - 1)
    name = st.one_of(st.just(0), st.just(0), name)
    kind = st.one_of(st.just(0), st.just(0), kind)
    nick = st.one_of(st.just(0), nick)
    bead = st.fixed_dictionaries({
        'name': name, 'kind': kind, 'k': st.integers(0, 11), 'offset': gen.offsets(),
        'boxes': st.sampled_from([[0], [1], [2], [0, 1], [1, 2], [2, 0], [0, 1, 2]]),
        'late': st.sampled_from([False, False, False, True])})
    when = st.one_of(st.none(), moment())
    op = st.one_of(
        st.tuples(st.just('add'), nick, name, when),
        st.tuples(st.just('add'), nick, name, moment()),
        st.tuples(st.just('edit'), name, when),
        st.tuples(st.just('update'), nick, when),
        st.tuples(st.just('replace'), nick, name, when),
        st.tuples(st.just('next'), nick),
        st.tuples(st.just('next'), nick),
        st.tuples(st.just('prev'), nick),
        st.tuples(st.just('prev'), nick),
        st.tuples(st.just('all'), when),
        st.tuples(st.just('define'), nick, st.integers(0, 11)),
        st.tuples(st.just('foreign'), nick, kind, st.integers(-1, 12), st.sampled_from([-1, 0, 1]), gen.offsets()),
        st.tuples(st.just('reveal'), st.integers(0, 11)),
        st.tuples(st.just('unload'), nick),
    ).map(list)
    return st.fixed_dictionaries({
        'base': st.integers(0, len(BASE) - 1), 'us': st.one_of(st.just(0), st.integers(0, 10**13)), 'step': st.integers(0, len(STEPS) - 1),
        'beads': st.lists(bead, min_size=2, max_size=10, unique_by=lambda b: b['k']),
        'indexed': st.lists(st.booleans(), min_size=3, max_size=3),
        'ops': st.lists(op, min_size=2, max_size=10),
        'gone': st.sampled_from([None, None, 0, 9]),
    })


def written(us, fmt, offset, up):
    """How a user may write this time: (text, moment it denotes)"""
    if fmt == 'isosec':
        us = us // 10**6 * 10**6
    t = format_ts(us, offset)
    if fmt == 'basic':
        return t, us
    text = f'{t[:4]}-{t[4:6]}-{t[6:8]}T{t[9:11]}:{t[11:13]}:{t[13:15]}'
    if fmt == 'iso':
        text += '.' + t[15:21]
    return text + t[21:], us


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    dirs = [os.path.join(ctx.dir, f'box{i}') for i in range(3)]
    w.configure_boxes([(f'box{i}', d) for i, d in enumerate(dirs)], plan['gone'])
    base, step = BASE[plan['base']] * 10**6 + plan['us'], STEPS[plan['step']]
    beads, present = [], set()
    for i, s in enumerate(plan['beads']):
        us = base + s['k'] * step
        b = RefBead(NAMES[s['name']], KINDS[s['kind']], format_ts(us, s['offset']), code={'code': b'%d' % i}, output={'out': b'data %d' % i})
        b.us, b.boxes = us, s['boxes']
        beads.append(b)
    by_id = {b.content_id: b for b in beads}

    def put(b):
        for i in b.boxes:
            b.write(dirs[i])
        present.add(b)
    for b, s in zip(beads, plan['beads']):
        if not s['late']:
            put(b)
    for i, indexed in enumerate(plan['indexed']):
        if indexed:
            w.must('box', 'index', '--box', f'box{i}')

    ws_dir = w.path('ws')
    ws = make_workspace(ws_dir, 'ws-kind')
    nicks = [NAMES[0], 'nick', NAMES[2], 'n2']
    inputs, loaded, times = {}, {}, {}      # nick -> reference, bead, moment of the reference
    edits = 0

    def newest(candidates, limit):
        res = max((b for b in candidates if limit is None or b.us <= limit), key=lambda b: b.us, default=None)
        if res and any(b.us > res.us for b in candidates):
            ctx.nontrivial()
            ctx.label('not the newest')
        return res

    def time_args(when):
        if when is None:
            return [], None
        k, d, fmt, offset = when
        text, us = written(base + k * step + d, fmt, offset, False)
        return ['-t', text], us

    def check(what):
        expect_eq(recorded_inputs(ws_dir), inputs, f'{what}: recorded inputs')
        expect_eq(sorted(os.listdir(os.path.join(ws_dir, 'input'))), sorted(loaded), f'{what}: loaded inputs')
        for n, b in loaded.items():
            expect_tree(os.path.join(ws_dir, 'input', n), b.output, f'{what}: data of {n}')

    def take(nick, b):
        inputs[nick], loaded[nick], times[nick] = b.ref, b, b.us

    for op in plan['ops']:
        kind = op[0]
        what = str(op)
        ctx.label(kind)
        if kind == 'reveal':
            hidden = [b for b in beads if b not in present]
            if hidden:
                b = hidden[op[1] % len(hidden)]
                put(b)
                for i in b.boxes:
                    if plan['indexed'][i]:
                        w.must('box', 'index', '--box', f'box{i}')
            continue
        if kind == 'edit':
            targs, limit = time_args(op[2])
            target = w.path(f'edit{edits}')
            edits += 1
            r = w.cli('edit', *targs, NAMES[op[1]], target)
            want = newest([b for b in present if b.name == NAMES[op[1]]], limit)
            expect(r.exc is None, what, r)
            expect_eq(r.ok, want is not None, f'{what}: {r}')
            if want is None:
                expect(not os.path.lexists(target), f'{what}: created a workspace', r)
            else:
                expect_eq((read_tree(target).get('code'), workspace_meta(target)['kind']), (want.code['code'], want.kind),
                          f'{what}: code and kind, should be those of {want.file_name}')
            continue
        if kind in ('define', 'foreign'):
            nick = nicks[op[1]]
            if nick in loaded:
                continue
            if kind == 'define':
                b = beads[op[2] % len(beads)]
                inputs[nick], times[nick] = b.ref, b.us
            else:
                us = base + op[3] * step + op[4]
                inputs[nick], times[nick] = (KINDS[op[2]], 'ab' * 64, format_ts(us, op[5])), us
            ws.add_input(nick, *inputs[nick])
            continue
        if kind == 'unload':
            nick = nicks[op[1]]
            w.must('input', 'unload', nick, '-w', ws_dir)
            loaded.pop(nick, None)
            check(what)
            continue
        if kind == 'all':
            targs, limit = time_args(op[1])
            r = w.must('input', 'update', *targs, '-w', ws_dir)
            for nick in list(inputs):
                b = newest([b for b in present if b.kind == inputs[nick][0]], limit)
                if b:
                    take(nick, b)
            check(f'{what}: {r}')
            continue
        # a single input
        nick = nicks[op[1]]
        targs, limit = [], None
        if kind == 'add':
            name = NAMES[op[2]]
            targs, limit = time_args(op[3])
            args = ['add', nick] + ([name] if name != nick or op[3] else []) + targs
            want = newest([b for b in present if b.name == name], limit)
        elif kind == 'replace':
            name = NAMES[op[2]]
            targs, limit = time_args(op[3])
            args = ['update', nick, name] + targs
            want = newest([b for b in present if b.name == name], limit)
        else:
            of_kind = [b for b in present if nick in inputs and b.kind == inputs[nick][0]]
            if kind == 'update':
                targs, limit = time_args(op[2])
                args = ['update', nick] + targs
                want = newest(of_kind, limit)
            elif kind == 'next':
                args = ['update', nick, '--next']
                want = min((b for b in of_kind if b.us > times[nick]), key=lambda b: b.us, default=None)
            else:
                args = ['update', nick, '--prev']
                want = max((b for b in of_kind if b.us < times[nick]), key=lambda b: b.us, default=None)
            if want and kind != 'update':
                ctx.label('stepped')
                ctx.nontrivial(len(of_kind) > 2)
        if kind != 'add' and nick not in inputs:
            want = None
        r = w.cli('input', *args, '-w', ws_dir)
        ctx.executions(1)
        expect(r.exc is None, what, r)
        expect_eq(r.ok, want is not None, f'{what}: success, with expected version {want and want.file_name}: {r}')
        if want is not None:
            take(nick, want)
        check(f'{what}, expected version: {want and want.file_name}: {r}')
    assert all(b.content_id in by_id for b in loaded.values())
