"""C21 bead and input names."""
import os
import unicodedata

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import (RefBead, World, bead_key, expect_same, expect_tree, format_ts, make_workspace, read_tree, recorded_inputs, reset, snapshot,
                 workspace_meta, write_tree)

TECHNIQUE = 'property-based testing (Hypothesis) of names through all commands, with look-alike decoys in the boxes'
RULE = ('names of all kinds of characters and lengths go through new, save, edit, input add, load and searches in a plain and an indexed box '
        'with look-alikes; non-trivial: a name was accepted that has other characters than letters, digits, - and .')
QUICK = 750
THOROUGH = 50000
ROUND = 100

ODD = ['', '.', '..', '__', 'a__b', '__a', 'a__', 'a___b', '___', 'a_', '_', '_a_', '...', 'a/b', '/', 'a/', '/a', './a', '../a', '../../x', 'a/../b', 'a\\b', '\\',
       'C:', 'a:b', ':', '~', '~root', 'a\0b'[:1], 'x' * 180, 'x' * 224, 'x' * 225, 'x' * 226, 'x' * 250, 'x' * 255, 'x' * 256, 'x' * 300, 'é' * 90, 'é' * 112, 'é' * 113, '😀' * 56,
       '😀' * 57, '😀' * 64, 'a.zip', '.zip', 'a_20200101T000000000000+0000', 'a_20200101T000000000000+0000.zip', '_20200101T000000000000+0000',
       'CON', 'nul', '.index.sqlite', 'index.sqlite', '%s', '%(x)s', "'", "a' OR '1'='1", '";--', 'a%', 'a_%', '%', '-', '---', '-x', '--help', '-w', '-t', 'input', 'output', 'temp', '.bead-meta',
       'load', '/', '..', '\n', '\r', '\t', ' ', '  ', 'a\nb', '\u00a0', '\ufeff', '\u200b', 'e\u0301', 'é', 'K', '\u212a', 'ﬁ', 'fi', 'ß', 'ss', 'A', 'a', '\udcff', 'x\udcff', '\udce9t\udce9', 'a\udc80b']


def any_names():
    return st.one_of(
        st.sampled_from(ODD), gen.bead_names(), gen.bead_names(),
        st.text(alphabet='a_/\\:.-[]*?', min_size=1, max_size=5),
        st.builds(lambda c, n, s: (c * n)[:n] + s, st.sampled_from(['x', 'é', 'ab', '日']), st.integers(60, 260), st.sampled_from(['', '_', '.zip', '__']))).filter(
            # the library parsing the command line can not be given this as the value of an argument
            lambda s: s != '--')


def strategy(tier):
    return st.fixed_dictionaries({
        'name': any_names(), 'nick': any_names(), 'decoys': st.lists(st.integers(0, 30), max_size=4),
        'same nick': st.booleans(), 'times': st.integers(0, 3), 'how': st.integers(0, 5)})


EXAMPLES = [{'name': n, 'nick': n, 'decoys': [1, 5, 9], 'same nick': True, 'times': 1, 'how': 0} for n in ODD]


def decoys_of(name):
    """Names that are easily mixed up with name, e.g. by patterns, prefixes, case or normalization"""
    res = [name + 'x', 'x' + name, name[:-1], name[1:], name + '_', '_' + name, name + '_20200101', name + '_20200101T101010', name.swapcase(), name.lower(), name.upper(),
           unicodedata.normalize('NFC', name), unicodedata.normalize('NFD', name), unicodedata.normalize('NFKC', name),
           name.strip(), name + ' ', ' ' + name, name.replace('*', 'abc'), name.replace('?', 'a'), name.replace('[', '').replace(']', ''), name.replace('%', 'z'),
           name.replace('_', 'u'), '*', '?', '[a]', '%', name * 2, name + '.zip', name.replace('.', 'x'), name.replace("'", "''"), name.split('_')[0]]
    return [n for n in res if n != name and name_must_work(n)]


def name_must_work(name):
    """Names that no program keeping beads in files has a reason to refuse"""
    if any('\ud800' <= c <= '\udfff' for c in name):
        return False        # not text
    return (gen.ok_component(name) and not set('/\\:\0') & set(name) and '__' not in name and len(name.encode()) <= 180)


def positional(*args):
    """Arguments that may look like options"""
    return (['--'] if any(a.startswith('-') for a in args) else []) + list(args)


def search(directory, name):
    """Keys of beads found by name in a box"""
    from bead.box import Box, search
    from bead.tech.fs import Path
    boxes = [Box('x', Path(directory))]
    res = []
    for b in search(boxes).by_name(name).all():
        res.append(bead_key(b))
    reset()
    return sorted(res)


def run(plan, ctx):
    name = plan['name']
    w = World(os.path.join(ctx.dir, 'w'))
    boxes = {n: os.path.join(ctx.dir, n) for n in ('plain', 'indexed')}
    w.configure_boxes(list(boxes.items()))
    stored = {n: [] for n in boxes}
    decoys = decoys_of(name)
    for i, k in enumerate(plan['decoys']):
        if decoys:
            d = decoys[k % len(decoys)]
            for n in boxes:
                b = RefBead(d, f'decoy-{n}', format_ts((1577836800 + i) * 10**6), code={'decoy': b'1'}, output={'decoy': b'2'})
                b.write(boxes[n])
                stored[n].append(b)
    w.must('box', 'index', '--box', 'indexed')
    box_before = {n: snapshot(d) for n, d in boxes.items()}

    # a workspace to work with and a bead to be edited under other names
    make_workspace(w.path('other'), 'other-kind', {'c': b'c'}, {'o': b'o'})
    source = RefBead('source', 'source-kind', format_ts(1420070400 * 10**6), code={'s': b's'}, output={'so': b'so'})
    source_file = source.write(w.home, 'source.zip')
    home_before = snapshot(w.home)

    # create
    parent = w.path('parent')
    os.mkdir(parent)
    target = parent + '/' + name
    by_edit = plan['how'] % 3 == 0
    if by_edit:
        ctx.label('created by edit')
        r = w.cli('edit', source_file, target)
    elif plan['how'] % 3 == 1 and '/' not in name and name:
        r = w.cli('new', *positional(name), cwd=parent)
    else:
        r = w.cli('new', target)
    expect(r.exc is None, f'crash for the name {name!r}:', r)
    good = name_must_work(name)
    # what a path means is up to the file system
    plain = name not in ('', '.', '..') and '/' not in name
    if good:
        expect(r.ok, f'the name {name!r} is refused:', r)
    if not r.ok:
        ctx.label('refused')
        expect_eq(sorted(os.listdir(parent)), [], f'left behind by the refused name {name!r}')
        os.rmdir(parent)
        expect_same(home_before, snapshot(w.home), f'refused name {name!r}')
        expect_same({n: box_before[n] for n in boxes}, {n: snapshot(d) for n, d in boxes.items()}, f'refused name {name!r}')
    elif plain:
        ctx.label('accepted')
        expect_eq(os.listdir(parent), [name], 'created directories')
        ctx.nontrivial(not all(c.isascii() and c.isalnum() or c in '-.' for c in name))
        accepted(plan, ctx, w, boxes, stored, target, source if by_edit else None)
    check_nick(plan, ctx, w, source_file, source)


def accepted(plan, ctx, w, boxes, stored, ws, source):
    name = plan['name']
    kind = workspace_meta(ws)['kind']
    saved = []
    code, output = {'f': b'code'}, {}
    if source:
        code.update(source.code)
    for i in range(1 + plan['times']):
        output = {'out': b'out %d' % i}
        write_tree(ws, {'f': b'code'})
        write_tree(os.path.join(ws, 'output'), output)
        for n in boxes:
            if i == 0 or (i + (n == 'plain')) % 2:
                before = set(os.listdir(boxes[n]))
                w.must('save', n, '-w', ws)
                new = sorted(set(os.listdir(boxes[n])) - before)
                new = [f for f in new if f.endswith('.zip')]
                expect_eq(len(new), 1, f'files saved for {name!r}')
                saved.append((n, new[0], output))
    # listed and found under this name only
    from bead.box import Box
    from bead.tech.fs import Path
    for n, d in boxes.items():
        mine = [f for m, f, _ in saved if m == n]
        names = sorted(b.name for b in Box(n, Path(d)).all_beads())
        expect_eq(names, sorted([name] * len(mine) + [b.name for b in stored[n]]), f'names in the box {n}')
        reset()
        found = search(d, name)
        expect_eq([k[:2] for k in found], [(name, kind)] * len(mine), f'beads found by name {name!r} in the box {n}')
        for b in stored[n]:
            want = sorted(x.key() for x in stored[n] if x.name == b.name)
            expect_eq(search(d, b.name), want, f'beads found by name {b.name!r} in the box {n}')

    # edit and input add get the last one
    last_output = saved[-1][2]
    editdir = w.mkdir('edited')
    w.must('edit', '--review', *positional(name), cwd=editdir)
    expect_eq(os.listdir(editdir), [name], f'workspaces made by edit {name!r}')
    check_copy(os.path.join(editdir, name), kind, code, last_output)
    w.must('edit', '--review', *positional(name, os.path.join(editdir, 'as')), cwd=editdir)
    check_copy(os.path.join(editdir, 'as'), kind, code, last_output)

    other = w.path('other')
    before = snapshot(other, skip=('input', '.bead-meta'))
    opts = ['-w', other]
    r = w.must('input', 'add', *opts, *positional('nick', name))
    expect_tree(os.path.join(other, 'input', 'nick'), last_output, f'input added from {name!r}')
    r = w.must('input', 'add', *opts, *positional(name))
    expect_tree(os.path.join(other, 'input', name), last_output, f'input {name!r}')
    r = w.must('input', 'unload', *opts, *positional(name))
    expect(not os.path.lexists(os.path.join(other, 'input', name)), f'unloaded input {name!r} is there')
    r = w.must('input', 'load', *opts, *positional(name))
    expect_tree(os.path.join(other, 'input', name), last_output, f'input {name!r} loaded again')
    r = w.must('input', 'update', *opts, *positional('nick', name))
    inputs = recorded_inputs(other)
    expect_eq({n: s[0] for n, s in inputs.items()}, {'nick': kind, name: kind}, 'recorded inputs')
    # and a bead with this input can be saved, edited, listed
    w.must('save', 'plain', *opts)
    w.must('edit', 'other', os.path.join(editdir, 'other'))
    expect_eq(recorded_inputs(os.path.join(editdir, 'other')), inputs, 'inputs of the edited bead')
    w.must('status', *opts)
    w.must('input', 'delete', *opts, *positional(name))
    expect_eq(recorded_inputs(other), {'nick': inputs['nick']} if name != 'nick' else {}, f'inputs after deleting {name!r}')
    expect_same(before, snapshot(other, skip=('input', '.bead-meta')), 'code and output of the other workspace')


def check_copy(ws, kind, code, output):
    expect_eq(workspace_meta(ws)['kind'], kind, 'kind of the edited bead')
    expect_tree(os.path.join(ws, 'output'), output, 'output of the edited bead')
    got = {p: b for p, b in read_tree(ws).items() if p.split('/')[0] not in gen.RESERVED_TOP}
    expect_eq(got, code, 'code of the edited bead')


def check_nick(plan, ctx, w, source_file, source):
    """Names of inputs"""
    nick = plan['name'] if plan['same nick'] else plan['nick']
    ws = w.path('inputs')
    make_workspace(ws, 'nick-kind', {'c': b'c'}, {'o': b'o'})
    w.must('input', 'add', '-w', ws, 'first', source_file)
    before, home_before = snapshot(ws), snapshot(w.home)
    r = w.cli('input', 'add', '-w', ws, *positional(nick, source_file))
    expect(r.exc is None, f'crash for the input name {nick!r}:', r)
    if name_must_work(nick):
        expect(r.ok, f'the input name {nick!r} is refused:', r)
    if not r.ok:
        ctx.label('refused input name')
        expect_same(home_before, snapshot(w.home), f'refused input name {nick!r}')
    else:
        expect_eq(set(recorded_inputs(ws)), {'first', nick}, 'inputs')
        expect_tree(os.path.join(ws, 'input', nick), source.output, f'data of input {nick!r}')
        expect_same({k: v for k, v in before.items() if k.split('/')[0] in ('c', 'output', 'temp')},
                    {k: v for k, v in snapshot(ws).items() if k.split('/')[0] in ('c', 'output', 'temp')}, f'after adding input {nick!r}')
        expect_eq(sorted(os.listdir(os.path.join(ws, 'input'))), sorted({'first', nick}), 'input directory')
    # still usable
    w.must('status', '-w', ws)
    w.must('save', 'plain', '-w', ws)
    w.must('input', 'unload', '-w', ws)
    w.must('input', 'delete', '-w', ws, 'first')
