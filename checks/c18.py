"""C18 filters of the web."""
import os

from hypothesis import strategies as st

import webs
from core import expect, expect_eq
from sut import World

TECHNIQUE = 'model-based property testing (Hypothesis) against reachability in a reference graph'
RULE = ('webs of up to 16 beads, filtered by sets of sources and sinks and reduced to heads in sequences; '
        'non-trivial: a step that keeps some, but not all clusters')
QUICK = 14000
THOROUGH = 700000
STEPS = [['filter', [0], []], ['filter', [], [5]], ['heads']]
EXAMPLES = [dict(webs.chain(300), color=False, steps=STEPS, cli=False), dict(webs.chain(3000), color=False, steps=STEPS, cli=False),
            dict(webs.ladder(90), color=True, steps=STEPS, cli=True), dict(webs.ladder(90, 9), color=True, steps=STEPS, cli=False)]


def strategy(tier):
    names = st.lists(st.integers(0, 7), max_size=3)
    step = st.one_of(
        st.tuples(st.just('filter'), names, names), st.tuples(st.just('filter'), names, st.just([])),
        st.tuples(st.just('filter'), st.just([]), names), st.just(('heads',))).map(list)
    return webs.plans(None, 16, {
        'color': st.booleans(), 'ties': st.sampled_from([False] * 5 + [True]), 'steps': st.lists(step, min_size=1, max_size=3), 'cli': st.sampled_from([False] * 30 + [True])})


def run(plan, ctx):
    from bead_cli.web import sketch as sk
    beads = webs.build(plan)
    model = webs.Web.of(beads)
    sketch = sk.Sketch.from_beads(webs.dummies(plan, beads))
    pool = (sorted({n for n, _ in model.nodes}) + ['unknown'] * 2)
    w = None
    if plan['cli']:
        ctx.label('command line')
        w = World(os.path.join(ctx.dir, 'w'))
        box = os.path.join(ctx.dir, 'box')
        w.configure_boxes([('box', box)])
        for b in beads:
            b.write(box)
    if model.ties:
        ctx.label('same times')
        plan['color'], plan['steps'] = False, [s for s in plan['steps'] if s[0] != 'heads']
    if plan['color']:
        sketch.color_beads()
        model.color()
    words = ['color'] if plan['color'] else []
    for step in plan['steps']:
        if w:
            # the state before, to load from
            sketch.to_file(w.path('before.web'))
        before = set(model.clusters)
        if step[0] == 'heads':
            what = 'heads'
            words = ['heads']
            sketch = sk.heads_of(sketch).drop_deleted_inputs()
            want = model.heads_of()
        else:
            sources, sinks = [{pool[i % len(pool)] for i in s} for s in step[1:]]
            what = f'filter {sorted(sources)} .. {sorted(sinks)}'
            words = ['/', *sorted(sources), '..', *sorted(sinks), '/']
            keep = before
            if sources:
                sketch = sk.set_sources(sketch, sources)
                keep = keep & model.reach(sources, True)
            if sinks:
                sketch = sk.set_sinks(sketch, sinks)
                keep = keep & model.reach(sinks, False)
            if sources or sinks:
                # clusters without any link to the others may be kept or not
                linked = model.linked(keep)
                got = {b.name for b in sketch.beads}
                expect(linked <= got <= keep, f'{what}: clusters {sorted(got)}, should be {sorted(linked)}, of {expected_text(model)}')
                keep = got
            want = model.keep(keep)
            ctx.label('sources' if sources else '', 'sinks' if sinks else '')
        webs.expect_web(sketch, want, f'{what} of {expected_text(model)}')
        ctx.nontrivial(0 < len(want.nodes) < len(model.nodes))
        if w:
            w.must('web', 'load', 'before.web', *words, 'save', 'after.web')
            webs.expect_web(sk.Sketch.from_file(w.path('after.web')), want, f'web {words} of {expected_text(model)}')
            ctx.executions(1)
        model = want


def expected_text(model):
    return sorted(f'{model.nodes[s]} -> {model.nodes[d]}' for s, d in model.edges)[:20]
