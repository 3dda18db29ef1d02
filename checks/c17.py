"""C17 freshness."""
import os

from hypothesis import strategies as st

import webs
from core import expect_eq
from sut import World

TECHNIQUE = 'model-based property testing (Hypothesis) against a direct definition of freshness'
RULE = ('webs of up to 16 beads, coloured, also again after filtering; non-trivial: at least three of the four colours are there')
QUICK = 16000
THOROUGH = 800000
EXAMPLES = [dict(webs.ladder(90), steps=['color', 'heads'], cli=True), dict(webs.ladder(90, 7), steps=['color', 'heads'], cli=False),
            dict(webs.chain(300), steps=['color'], cli=False), dict(webs.chain(2000), steps=['heads'], cli=False), dict(webs.chain(100, 'a'), steps=['color'], cli=True)]


def strategy(tier):
    return webs.plans(None, 16, {
        'steps': st.lists(st.sampled_from(['color', 'color', 'heads', 'sources', 'sinks', 'reload']), min_size=0, max_size=3),
        'cli': st.sampled_from([False] * 40 + [True])})


def run(plan, ctx):
    from bead_cli.web import sketch as sk
    beads = webs.build(plan)
    model = webs.Web.of(beads)
    sketch = sk.Sketch.from_beads(webs.dummies(plan, beads))
    what = ''
    names = sorted(model.clusters)

    def color():
        got = sk.color_beads(sketch)
        want = model.color()
        webs.expect_web(sketch, model, f'{what} coloured')
        expect_eq(bool(got), want, f'{what}: is everything up to date?')
        ctx.label('all up to date' if want else 'not up to date')
        colors = {n.freshness for n in model.nodes.values()}
        ctx.nontrivial(len(colors) >= 3)
        ctx.label(*colors)
    color()
    for i, step in enumerate(plan['steps']):
        what += ' ' + step
        if step == 'heads':
            sketch, model = sk.heads_of(sketch).drop_deleted_inputs(), model.heads_of()
        elif step in ('sources', 'sinks'):
            # whatever it gives (see C18), colours have to be right afterwards
            sketch = (sk.set_sources if step == 'sources' else sk.set_sinks)(sketch, {names[(plan['order'] + i) % len(names)]})
            model = model.keep({b.name for b in sketch.beads})
        elif step == 'reload':
            d = os.path.join(ctx.dir, 'x.web')
            sketch.to_file(d)
            sketch = sk.Sketch.from_file(d)
        color()
    if plan['cli']:
        ctx.label('command line')
        w = World(os.path.join(ctx.dir, 'w'))
        box = os.path.join(ctx.dir, 'box')
        w.configure_boxes([('box', box)])
        for b in beads:
            b.write(box)
        w.must('web', 'color', 'save', 'x.web')
        model = webs.Web.of(beads)
        model.color()
        webs.expect_web(sk.Sketch.from_file(w.path('x.web')), model, 'web color')
