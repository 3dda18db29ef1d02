"""C26 crashes while indexing."""
import os

from hypothesis import strategies as st

import faults
import gen
from core import Violation, expect, expect_eq
from sut import RefBead, World, bead_key, format_ts, make_workspace, reset, tree_of

TECHNIQUE = 'property-based testing (Hypothesis) with systematic fault injection against a reference model'
RULE = ('index / reindex / save commands on generated boxes with a missing, fresh or stale index, each run with faults at generated or at all '
        'file system operations; non-trivial: a fault was hit and the box has at least two beads')
QUICK = 1000
THOROUGH = 40000
ROUND = 60

T0 = 1577836800 * 10**6


def strategy(tier):
    bead = st.tuples(
        gen.bead_names(), gen.kinds(), st.integers(0, 10**13), gen.offsets(),
        st.lists(st.tuples(gen.bead_names(), gen.kinds(), st.integers(0, 9)).map(list), max_size=2, unique_by=lambda t: t[0]),
        # when it gets there / leaves, relative to the existing index
        st.sampled_from(['indexed', 'indexed', 'new', 'new', 'gone', 'never'])).map(list)
    return st.fixed_dictionaries({
        'beads': st.lists(bead, min_size=1, max_size=4),
        'index': st.sampled_from(['none', 'index', 'reindex', 'empty']),
        'junk': st.booleans(),
        'command': st.sampled_from(['index', 'reindex', 'save', 'index-dir', 'reindex-all']),
        'repair': st.sampled_from(['index', 'index', 'reindex']),
        'twice': st.one_of(st.none(), st.tuples(st.sampled_from(sorted(faults.MODES)), st.integers(1, 40)).map(list)),
        'faults': faults.fault_lists(6),
        'sweep': st.just(False),
    })


_B = [['a', 'kind-1', 0, 0, [['x', 'kind-2', 1]], 'indexed'], ['a', 'kind-1', 10**9, 60, [], 'new'], ['b', 'kind-2', 5, -60, [], 'gone']]
EXAMPLES = [
    {'beads': _B, 'index': i, 'junk': True, 'command': c, 'repair': r, 'twice': None, 'faults': [], 'sweep': True}
    for i, c, r in [('index', 'index', 'index'), ('index', 'reindex', 'index'), ('index', 'save', 'index'), ('none', 'index', 'reindex'),
                    ('none', 'reindex-all', 'index'), ('empty', 'save', 'reindex')]]


def run(plan, ctx):
    root = os.path.join(ctx.dir, 'w')
    w = World(root)
    boxdir = os.path.join(root, 'box')
    w.configure_boxes([('box', boxdir)])
    stored, later, gone = [], [], []
    seen = set()
    for name, kind, t, off, inputs, when in plan['beads']:
        ins = {n: (k, f'{i}' * 128, format_ts(T0 + i)) for n, k, i in inputs}
        b = RefBead(name, kind, format_ts(T0 + t, off), ins, code={'c': b'x'}, output={'o': b'%d' % t})
        if when == 'never' or b.file_name in seen:
            continue
        seen.add(b.file_name)
        {'indexed': stored, 'new': later, 'gone': gone}[when].append(b)
    for b in stored + gone:
        b.write(boxdir)
    if plan['index'] in ('index', 'reindex'):
        w.must('box', plan['index'])
    elif plan['index'] == 'empty':
        from bead.box_index import BoxIndex
        from bead.tech.fs import Path
        BoxIndex(Path(boxdir))
    for b in gone:
        os.unlink(os.path.join(boxdir, b.file_name))
    for b in later:
        b.write(boxdir)
    if plan['junk']:
        for n, c in (('junk_20200101.zip', b'PK\3\4junk'), ('x.txt', b'text')):
            with open(os.path.join(boxdir, n), 'wb') as f:
                f.write(c)
    ws_dir = w.path('new-bead')
    make_workspace(ws_dir, 'kind-new', {'c': b'code'}, {'o': b'output'})
    beads = {b.key(): b for b in stored + later}
    stale = set(listing(boxdir))
    reset()
    args = {'index': ['box', 'index'], 'reindex': ['box', 'reindex'], 'index-dir': ['box', 'index', '--dir', boxdir],
            'reindex-all': ['box', 'reindex', '--all'], 'save': ['save', 'box', '-w', ws_dir]}[plan['command']]
    arena = faults.Arena(root, os.path.join(ctx.dir, 'orig'))
    before = files(boxdir)
    ctx.label('command: ' + plan['command'], 'index: ' + plan['index'])

    def command():
        return w.cli(*args)

    def new_bead(what):
        """-> key of the new complete bead, if there is one"""
        after = files(boxdir)
        for n, c in before.items():
            expect(after.get(n) == c, f'{what}: file changed or removed in the box:', repr(n))
        new = sorted(n for n in after.keys() - before.keys() if n.endswith('.zip'))
        if plan['command'] != 'save':
            expect(not new, f'{what}: new files', new)
            return None
        expect(len(new) <= 1, f'{what}: new files', new)
        if not new:
            return None
        from bead.exceptions import InvalidArchive
        from bead.tech.fs import Path
        from bead.ziparchive import ZipArchive
        try:
            a = ZipArchive(Path(os.path.join(boxdir, new[0])), 'box')
            a.validate()
        except InvalidArchive:
            return None
        finally:
            reset()
        return RefBead('new-bead', 'kind-new', a.freeze_time_str, {}, {'c': b'code'}, {'o': b'output'}).key()

    def check(what, complete=False):
        new = new_bead(what)
        real = dict(beads)
        if new:
            real[new] = None
        shown = listing(boxdir)
        for k in shown:
            expect(k in real or (k in stale and not complete), f'{what}: shows a bead that is not stored or has other metadata:', k)
        expect(len(set(shown)) == len(shown), f'{what}: bead shown more than once', shown)
        if complete:
            expect_eq(sorted(shown), sorted(real), f'{what}: beads found')
        verify_searches(boxdir, shown, {k for k in real if k in shown}, what)

    out = faults.run(root, command)
    ctx.executions(1)
    expect(out.ok, 'without faults:', out)
    check('without faults', complete=plan['command'] != 'save')

    for mode, k in faults.positions(out.ops, plan['faults'], plan['sweep'], ctx.tier):
        arena.restore()
        o = faults.run(root, command, mode, k)
        ctx.executions(1)
        what = f'{" ".join(args)!r} with {mode} at operation {k} of {out.ops}'
        if o.hit:
            ctx.label('fault: ' + mode)
            ctx.nontrivial(len(beads) > 1)
        check(what)
        if plan['twice']:
            # one more failure, while repairing
            mode2, k2 = plan['twice']
            faults.run(root, lambda: w.cli('box', plan['repair']), mode2, k2)
            ctx.executions(1)
            what += f', then {mode2} at operation {k2} of {plan["repair"]}'
            check(what)
        r = w.cli('box', plan['repair'])
        expect(r.ok, f'{what}: then {plan["repair"]}:', r)
        check(f'{what}, then {plan["repair"]}', complete=True)


def listing(boxdir):
    from bead.box import Box
    from bead.tech.fs import Path
    try:
        return sorted(map(bead_key, Box('box', Path(boxdir)).all_beads()))
    finally:
        reset()


def verify_searches(boxdir, shown, real, what):
    """Searches with conditions give a part of the same, resolving finds the very bead."""
    from bead.box import Box
    from bead.tech.fs import Path
    try:
        box = Box('box', Path(boxdir))
        for key in shown:
            name, kind, cid, t, _ = key
            got = sorted(map(bead_key, box.search().by_name(name).at_time(t).all()))
            from sut import parse_ts
            expect_eq(got, sorted(k for k in shown if k[0] == name and parse_ts(k[3]) == parse_ts(t)), f'{what}: search for {name!r} at {t}')
            got = sorted(map(bead_key, box.search().by_kind(kind).by_content_id(cid).at_or_older(t).all()))
            expect_eq(got, sorted(k for k in shown if k[2] == cid), f'{what}: search for content id of {name!r}')
            if key in real:
                bead = box.search().by_content_id(cid).by_name(name).first()
                a = box.resolve(bead)
                expect_eq(bead_key(a), key, f'{what}: resolve gives')
                a.validate()
    finally:
        reset()


def files(d):
    res = {}
    for n in os.listdir(d):
        if not n.startswith('.index'):
            with open(os.path.join(d, n), 'rb') as f:
                res[n] = f.read()
    return res
