"""C16 graph of beads."""
import os

from hypothesis import strategies as st

import gen
import webs
from core import expect, expect_eq
from sut import World

TECHNIQUE = 'model-based property testing (Hypothesis) of the web graph, with save / load round-trips'
RULE = ('webs of up to 14 beads with shared, missing and misnamed inputs in up to three boxes; '
        'non-trivial: both links to stored beads and placeholders for missing ones, and a bead in several boxes')
QUICK = 1400
THOROUGH = 80000
EXAMPLES = [dict(webs.ladder(50), indexed=[False, True, False], gone=None, steps=[['color'], ['heads'], ['save']]),
            dict(webs.chain(40), indexed=[True, False, False], gone=None, steps=[['save'], ['color']]),
            dict(webs.chain(20, 'a'), indexed=[False, False, False], gone=None, steps=[['color'], ['heads'], ['save']]),
            # placeholders without any link, after the only bead having them is left out
            {'names': ['a'], 'order': 0, 'indexed': [False, False, False], 'gone': None, 'ties': False, 'steps': [['heads'], ['save'], ['color']],
             'beads': [{'name': 0, 'late': 0, 'offset': 0, 'inputs': [['missing', 1, 0], ['missing', 9, 0]], 'copies': 1, 'of': None},
                       {'name': 0, 'late': 0, 'offset': 0, 'inputs': [['missing', 5, 0]], 'copies': 2, 'of': None}]}]


def strategy(tier):
    step = st.one_of(st.just(['save']), st.just(['color']), st.just(['heads']), st.just(['filter']), st.just(['save']))
    return webs.plans(st.one_of(st.sampled_from(['a', 'b', 'c']), gen.bead_names()), 14, {
        'indexed': st.lists(st.booleans(), min_size=3, max_size=3), 'gone': st.sampled_from([None, None, 0, 9]), 'ties': st.sampled_from([False] * 5 + [True]), 'steps': st.lists(step, min_size=1, max_size=4)})


def run(plan, ctx):
    from bead_cli.web.sketch import Sketch
    w = World(os.path.join(ctx.dir, 'w'))
    beads = webs.build(plan)
    dirs = [os.path.join(ctx.dir, f'box{i}') for i in range(3)]
    w.configure_boxes([(f'box{i}', d) for i, d in enumerate(dirs)], plan['gone'])
    for i, (s, b) in enumerate(zip(plan['beads'], beads)):
        for c in range(s['copies']):
            b.write(dirs[(i + c) % 3])
    for i, indexed in enumerate(plan['indexed']):
        if indexed:
            w.must('box', 'index', '--box', f'box{i}')
    model = webs.Web.of(beads)
    phantoms = [n for n in model.nodes.values() if not n.real]
    ctx.nontrivial(phantoms and any(model.nodes[s].real for s, _ in model.edges) and any(s['copies'] > 1 for s in plan['beads']))

    # the graph right from the boxes
    w.must('web', 'save', 'full.web')
    full = Sketch.from_file(w.path('full.web'))
    webs.expect_web(full, model, 'web save')
    boxes = {}
    for i, (s, b) in enumerate(zip(plan['beads'], beads)):
        boxes[b.name, b.content_id] = {f'box{(i + c) % 3}' for c in range(s['copies'])}
    for b in full.beads:
        if (b.name, b.content_id) in boxes:
            expect(b.box_name in boxes[b.name, b.content_id], f'{b!r} is said to be in box {b.box_name!r}')
    webs.expect_web(Sketch.from_beads(webs.dummies(plan, beads)), model, 'graph from beads in any order')

    # a pipeline of commands, saving in between must not change anything
    ties = model.ties
    if ties:
        ctx.label('same times')
        plan['steps'] = [s for s in plan['steps'] if s[0] not in ('color', 'heads')]
    words, last, n = [], 'full.web', 0
    names = sorted(model.clusters)
    for i, (step,) in enumerate(plan['steps']):
        if step == 'save':
            n += 1
            last = f'step{n}.web'
            words += ['save', last]
        elif step == 'filter':
            words += ['/', '..', names[i % len(names)], '/']
        else:
            words += [step]
    w.must('web', *words, 'save', 'direct.web')
    direct = webs.observed(Sketch.from_file(w.path('direct.web')))
    current, n, want = 'full.web', 0, webs.Web.of(beads)
    for i, (step,) in enumerate(plan['steps']):
        n += 1
        cmd = ['/', '..', names[i % len(names)], '/'] if step == 'filter' else [] if step == 'save' else [step]
        w.must('web', 'load', current, *cmd, 'save', f'again{n}.web')
        if step == 'save':
            expect_eq(webs.observed(Sketch.from_file(w.path(f'again{n}.web'))), webs.observed(Sketch.from_file(w.path(current))),
                      'loaded and saved again')
        current = f'again{n}.web'
        sketch = Sketch.from_file(w.path(current))
        if step == 'color':
            want.color()
        elif step == 'heads':
            want = want.heads_of()
        elif step == 'filter':
            name = names[i % len(names)]
            keep = want.reach({name}, False)
            got = {b.name for b in sketch.beads}
            # clusters without any link to the others may be kept or not
            expect(want.linked(keep) <= got <= keep, f'clusters before {name!r}: {sorted(got)}, should be', sorted(keep))
            want = want.keep(got)
        webs.expect_web(sketch, want, f'{plan["steps"][:i + 1]}')
        sketch.to_file(w.path('copy.web'))
        expect_eq(webs.observed(Sketch.from_file(w.path('copy.web'))), webs.observed(sketch), f'{plan["steps"][:i + 1]} written and read')
    expect_eq(webs.observed(Sketch.from_file(w.path(current))), direct, f'{plan["steps"]} with and without saving and loading between them')

    # colours survive as well
    s = Sketch.from_beads(webs.dummies(plan, beads))
    s.color_beads()
    s.to_file(w.path('colored.web'))
    back = Sketch.from_file(w.path('colored.web'))
    expect_eq(webs.observed(back), webs.observed(s), 'coloured, saved and loaded')
    expect_eq({b.name: c.name for b in back.beads for c in [b]}, {b.name: b.name for b in s.beads}, 'names')
    if not ties:
        model.color()
        webs.expect_web(back, model, 'coloured, saved and loaded')
    ctx.executions(3 + len(plan['steps']))
