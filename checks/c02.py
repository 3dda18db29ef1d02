"""C02 content ids: equal to an independent reference, insensitive to the irrelevant, injective."""
import os

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import content_of, format_ts, make_workspace, ref_bead, tree_of, write_tree

RULE = ('random beads (name, kind, time, inputs, files) packed twice in irrelevantly different ways and once with one aspect '
        'changed; non-trivial: at least one input and two files, or a file of at least 64 KiB')
QUICK = 12000
THOROUGH = 400000

CHANGES = ['flip', 'append', 'prepend', 'truncate', 'rename', 'move', 'delete', 'add-empty', 'kind', 'name', 'time+1us',
           'offset', 'input-kind', 'input-id', 'input-time', 'input-nick', 'add-input', 'drop-input', 'split', 'swap',
           'case', 'nested', 'block']


def strategy(tier):
    return st.fixed_dictionaries({
        'name': gen.bead_names(),
        'kind': gen.kinds(),
        'time': gen.times_us(),
        'offset': gen.offsets(),
        'inputs': st.dictionaries(gen.bead_names(), st.tuples(gen.kinds(), st.integers(0, 3), gen.times_us()).map(list),
                                  max_size=3),
        'code': gen.code_entries(4),
        'output': gen.entries(4),
        'change': st.sampled_from(CHANGES),
        'pick': st.integers(0, 1000),
        'compression': st.sampled_from(['off', 'stored', 'deflated', '']),
        'mtime': st.integers(400_000_000, 2_000_000_000),
        'comment': st.text(max_size=5),
    })


def cid(i):
    return ('%0128x' % (0xabc * (i + 1)))[:128]


def spec_of(plan):
    return {
        'name': plan['name'], 'kind': plan['kind'], 'time': format_ts(plan['time'], plan['offset']),
        'inputs': {n: (k, cid(c), format_ts(t)) for n, (k, c, t) in plan['inputs'].items()},
        'code': tree_of(plan['code']), 'output': tree_of(plan['output'])}


def reference_id(spec):
    return ref_bead(spec['name'], spec['kind'], spec['time'], spec['inputs'], spec['code'], spec['output'])[1]


def build(spec, directory, out, reverse=False, mtime=None, comment=''):
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    os.makedirs(directory)
    ws = make_workspace(os.path.join(directory, spec['name']), spec['kind'])
    order = (lambda d: dict(sorted(d.items(), reverse=True))) if reverse else (lambda d: d)
    write_tree(str(ws.directory), order(spec['code']), mtime)
    write_tree(str(ws.directory / 'output'), order(spec['output']), mtime)
    for nick, (kind, content_id, t) in order(spec['inputs']).items():
        ws.add_input(nick, kind, content_id, t)
    ws.pack(Path(out), freeze_time=spec['time'], comment=comment)
    archive = ZipArchive(Path(out))
    archive.validate()
    return archive.content_id


def change(spec, how, pick):
    """One relevant difference; None when not applicable."""
    s = {**spec, 'inputs': dict(spec['inputs']), 'code': dict(spec['code']), 'output': dict(spec['output'])}
    trees = [s['code'], s['output']]
    tree = trees[pick % 2] or trees[1 - pick % 2]
    paths = sorted(tree)
    p = paths[pick % len(paths)] if paths else None
    nicks = sorted(s['inputs'])
    n = nicks[pick % len(nicks)] if nicks else None

    def parents_ok(t, q):
        parts = q.split('/')
        return q not in t and not any('/'.join(parts[:i]) in t for i in range(1, len(parts))) \
            and not any(o.startswith(q + '/') for o in t)
    if how in ('flip', 'append', 'prepend', 'truncate', 'rename', 'move', 'delete', 'split', 'case', 'nested', 'block'):
        if p is None:
            return None
        b = tree[p]
        if how == 'flip':
            if not b:
                return None
            i = pick * 7919 % len(b)
            tree[p] = b[:i] + bytes([b[i] ^ (1 << pick % 8)]) + b[i + 1:]
        elif how == 'append':
            tree[p] = b + b'\0'
        elif how == 'prepend':
            tree[p] = b'\0' + b
        elif how == 'truncate':
            if not b:
                return None
            tree[p] = b[:-1]
        elif how == 'block':        # same bytes, two blocks exchanged
            h = 2 ** 20 if len(b) >= 2 ** 21 else len(b) // 2
            new = b[h:2 * h] + b[:h] + b[2 * h:]
            if new == b:
                return None
            tree[p] = new
        elif how in ('rename', 'case', 'nested', 'move'):
            q = {'rename': p + 'x', 'case': p.swapcase(), 'nested': 'q/' + p, 'move': p}[how]
            other = tree if how != 'move' else (s['output'] if tree is s['code'] else s['code'])
            if not parents_ok(other, q) or q.split('/')[0] in gen.RESERVED_TOP:
                return None
            del tree[p]
            other[q] = b
        elif how == 'delete':
            del tree[p]
        elif how == 'split':
            if not parents_ok(tree, p + '2'):
                return None
            tree[p], tree[p + '2'] = b[:len(b) // 2], b[len(b) // 2:]
    elif how == 'swap':
        if len(paths) < 2 or tree[paths[0]] == tree[paths[1]]:
            return None
        tree[paths[0]], tree[paths[1]] = tree[paths[1]], tree[paths[0]]
    elif how == 'add-empty':
        if not parents_ok(tree, 'new-empty'):
            return None
        tree['new-empty'] = b''
    elif how == 'kind':
        s['kind'] += 'x'
    elif how == 'name':
        s['name'] += 'x'
    elif how == 'time+1us':
        t = s['time']
        s['time'] = t[:15] + '%06d' % ((int(t[15:21]) + 1) % 1000000) + t[21:]
    elif how == 'offset':
        t = s['time']
        s['time'] = t[:21] + ('+0000' if t[21:] != '+0000' else '+0100')
    elif how == 'add-input':
        if 'zz' in s['inputs']:
            return None
        s['inputs']['zz'] = ('k', cid(7), '20200101T000000000000+0000')
    else:
        if n is None:
            return None
        k, c, t = s['inputs'][n]
        if how == 'input-kind':
            s['inputs'][n] = (k + 'x', c, t)
        elif how == 'input-id':
            s['inputs'][n] = (k, c[:-1] + ('0' if c[-1] != '0' else '1'), t)
        elif how == 'input-time':
            s['inputs'][n] = (k, c, '20200102T000000000000+0000' if t[:8] != '20200102' else '20200103T000000000000+0000')
        elif how == 'input-nick':
            if n + 'x' in s['inputs']:
                return None
            s['inputs'][n + 'x'] = s['inputs'].pop(n)
        elif how == 'drop-input':
            del s['inputs'][n]
    return s


def run(plan, ctx):
    spec = spec_of(plan)
    want = reference_id(spec)
    a = build(spec, os.path.join(ctx.dir, 'a'), os.path.join(ctx.dir, f'{spec["name"]}_{spec["time"]}.zip'))
    expect_eq(a, want, 'content id is not the reference value')
    if plan['compression']:
        os.environ['BEAD_ZIP_COMPRESSION'] = plan['compression']
    b = build(spec, os.path.join(ctx.dir, 'else', 'where'), os.path.join(ctx.dir, 'other-name.zip'),
              reverse=True, mtime=plan['mtime'], comment=plan['comment'])
    expect_eq(b, want, 'content id depends on something irrelevant')

    changed = change(spec, plan['change'], plan['pick'])
    if changed is not None:
        ctx.label('changed: ' + plan['change'])
        ref2 = reference_id(changed)
        expect(ref2 != want, 'reference collision')
        c = build(changed, os.path.join(ctx.dir, 'c'), os.path.join(ctx.dir, 'c.zip'))
        expect(c != a, f'two different beads (difference: {plan["change"]}) have the same content id')
        expect_eq(c, ref2, 'content id is not the reference value')
    sizes = [len(x) for x in [*spec['code'].values(), *spec['output'].values()]]
    for s in sizes:
        if s >= 2 ** 20 - 1:
            ctx.label('size around or above 1 MiB')
        if s == 0:
            ctx.label('empty file')
    ctx.nontrivial((spec['inputs'] and len(sizes) >= 2) or max(sizes, default=0) >= 65535)
