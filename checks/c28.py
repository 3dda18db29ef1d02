"""C28 new and edit make a complete workspace or none."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import expect, expect_eq
from sut import RefBead, World, describe_tree, expect_same, format_ts, read_zip, reset, snapshot, tree_of

TECHNIQUE = 'property-based testing (Hypothesis) with injected crashes and I/O errors at every file system operation'
RULE = ('new and edit (with and without --review) of generated beads, each run with faults (kill before/inside an operation, I/O error, disk '
        'full, interrupt) at generated or at all file system operations; what is left is saved when it can be; non-trivial: a fault was hit '
        'and the bead had at least two files to extract, or the command was new')
QUICK = 700
THOROUGH = 40000
ROUND = 60

TIME0 = 1577836800 * 10**6


def strategy(tier):
    return st.fixed_dictionaries({
        'name': gen.simple_names(),
        'as': st.one_of(st.none(), st.none(), gen.simple_names()),
        'kind': gen.kinds(),
        'code': gen.code_entries(4, depth=3, content=gen.contents(large=False)),
        'output': gen.entries(4, depth=3, content=gen.contents(large=False)),
        'inputs': st.lists(st.tuples(gen.bead_names(), gen.kinds()).map(list), max_size=2, unique_by=lambda t: t[0]),
        'command': st.sampled_from(['review', 'edit', 'new', 'edit', 'review']),
        'parent': st.booleans(),    # below a directory that does not exist yet
        'indexed': st.booleans(),
        'faults': faults.fault_lists(6),
        'sweep': st.just(False),
    })


EXAMPLES = [
    {'name': 'bead', 'as': a, 'kind': 'the-kind', 'code': [[['a'], 'b'], [['d', 'e'], [70000, 1]], [['f'], 'x']],
     'output': [[['o'], 'out'], [['p', 'q'], [9000, 2]]], 'inputs': [['i', 'k']], 'command': c, 'parent': False, 'indexed': False, 'faults': [],
     'sweep': True} for c, a in (('new', 'new-one'), ('edit', None), ('review', 'other'))]


def run(plan, ctx):
    root = os.path.join(ctx.dir, 'w')
    w = World(root)
    boxdir, target = os.path.join(root, 'box'), os.path.join(ctx.dir, 'target')
    w.configure_boxes([('box', boxdir), ('target', target)])
    code, output = tree_of(plan['code']), tree_of(plan['output'])
    inputs = {n: (k, 'c' * 128, format_ts(TIME0)) for n, k in plan['inputs']}
    bead = RefBead(plan['name'], plan['kind'], format_ts(TIME0), inputs, code, output)
    bead.write(boxdir)
    if plan['indexed']:
        w.must('box', 'index', '--dir', boxdir)
    c = plan['command']
    where = plan['as'] or (plan['name'] if c != 'new' else 'new-one')
    if plan['parent'] and (plan['as'] or c == 'new'):
        where = os.path.join('no', 'such', where)
    ws_dir = w.path(where)
    if os.path.lexists(ws_dir):
        return
    name = os.path.basename(where)
    if c == 'new':
        args = ['new', where]
        code = output = inputs = {}
    else:
        args = ['edit', plan['name']] + ([where] if where != plan['name'] else []) + (['--review'] if c == 'review' else [])
        output = output if c == 'review' else {}
    top = os.path.join(w.home, where.split(os.sep)[0])
    before = snapshot(root)
    arena = faults.Arena(root, os.path.join(ctx.dir, 'orig'))
    ctx.label('command: ' + c)

    def command():
        return w.cli(*args)

    def others(s):
        # the workspace, the directories above it, the configuration (created when first used) and the modes of directories are not looked at
        rel = os.path.relpath(top, root)
        return {p: v for p, v in s.items() if p != rel and not p.startswith((rel + os.sep, 'config'))}

    def check(what, must_be_complete):
        expect_same(others(before), others(snapshot(root)), f'{what}: other files')
        if not os.path.isdir(ws_dir):
            expect(not must_be_complete, f'{what}: there is no workspace')
            return
        r = w.cli('save', 'target', '-w', ws_dir)
        if not r.ok:
            expect(r.refused, f'{what}: the workspace left there is neither complete nor refused', r)
            expect(not must_be_complete, f'{what}: there is no usable workspace', r)
            expect_eq(os.listdir(target), [], f'{what}: files stored by a save that failed')
            return
        [saved] = os.listdir(target)
        p = os.path.join(target, saved)
        from bead.tech.fs import Path
        from bead.ziparchive import ZipArchive
        a = ZipArchive(Path(p), box_name='target')
        got_inputs = {str(i.name): (i.kind, i.content_id, i.freeze_time_str) for i in a.inputs}
        kind, entries = a.kind, dict(read_zip(p))
        reset()
        os.unlink(p)
        for prefix, want in (('code/', code), ('data/', output)):
            got = {n[len(prefix):]: b for n, b in entries.items() if n.startswith(prefix)}
            expect_eq(describe_tree(got), describe_tree(want), f'{what}: it can be saved, but has other files under {prefix}')
        expect_eq(got_inputs, inputs, f'{what}: it can be saved, but with other inputs')
        expect(c == 'new' or kind == plan['kind'], f'{what}: it can be saved, but its kind is {kind}')
        expect(saved.startswith(name + '_'), f'{what}: saved as {saved}')

    out = faults.run(root, command)
    ctx.executions(1)
    expect(out.ok, 'without faults', out)
    check('without faults', True)
    interesting = c == 'new' or len(code) + len(output) >= 2
    for mode, k in faults.positions(out.ops, plan['faults'], plan['sweep'], ctx.tier):
        arena.restore()
        o = faults.run(root, command, mode, k)
        ctx.executions(1)
        what = f'{" ".join(args)!r} with {mode} at operation {k} of {out.ops}'
        check(what, o.ok)
        if o.hit:
            ctx.label('fault: ' + mode)
            ctx.nontrivial(interesting)
        # once more, when the remains are gone
        if os.path.isdir(ws_dir):
            w.must('discard', '--force', ws_dir)
        if not os.path.lexists(ws_dir):
            r = command()
            expect(r.ok, f'{what}: repeated after that, fails', r)
            check(f'{what}: repeated after that', True)
