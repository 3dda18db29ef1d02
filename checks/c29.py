"""C29 command lines of web."""
import json
import os
import shutil

from hypothesis import strategies as st

import webs
from checks.c19 import check_drawing
from core import expect, expect_eq
from sut import World, snapshot

TECHNIQUE = 'metamorphic property testing (Hypothesis): a web command line against its steps run one by one'
RULE = ('lines of up to 7 sub-commands (load, save, filters, color, heads, dot, png, svg, view) on webs of up to 8 beads whose names look '
        'like sub-commands, some of them malformed or with a failing step; non-trivial: at least one step that changes the web and one file '
        'written or refused after it')
QUICK = 2500
THOROUGH = 120000

STANDINS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'standins')
NAMES = ['a', 'b', 'save', 'load', 'color', '-h', '--', '...', 'heads', 'x y', '-', 'é']
FILES = ['a.web', 'load', 'b c.web', '-h', 'é.web', '--', 'color', '.hidden', '...']
BROKEN = ['unknown', 'no file', 'no sinks', 'no end', 'two sources', 'stray', 'upper case', 'empty']


def strategy(tier):
    names = st.lists(st.integers(0, 7), max_size=2)
    step = st.one_of(
        st.tuples(st.just('save'), st.integers(0, len(FILES) - 1)), st.tuples(st.just('filter'), names, names),
        st.tuples(st.just('color')), st.tuples(st.just('heads')),
        st.tuples(st.sampled_from(['dot', 'png', 'svg', 'view'])), st.tuples(st.just('load'), st.integers(0, 9))).map(list)
    plan = webs.plans(st.sampled_from(NAMES), 8, {
        'steps': st.lists(step, min_size=1, max_size=7),
        'wrong': st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 6), st.sampled_from(
            BROKEN + ['load missing', 'save nowhere', 'dot fails', 'not a web'])).map(list)),
    })
    return st.tuples(plan, webs.plans(st.sampled_from(NAMES), 5, {})).map(lambda t: dict(t[0], second=t[1]))


EXAMPLES = [dict(webs.chain(5), second=webs.chain(3, 'load'), wrong=wrong,
                 steps=[['color'], ['save', 0], ['filter', [], [1]], ['png'], ['view'], ['heads'], ['svg'], ['load', 0], ['save', 1], ['load', 1], ['dot'], ['save', 2]])
            for wrong in [None, [3, 'dot fails'], [9, 'load missing']] + [[i, w] for w in BROKEN for i in (2, 99)]]


def web_of(path):
    """The web in a file, as one of the model"""
    from bead_cli.web.sketch import Sketch
    sketch = Sketch.from_file(path)
    nodes = {}
    for b in sketch.beads:
        n = webs.Node(b.name, b.content_id, b.kind, b.freeze_time_str, [(str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in b.inputs], True)
        n.freshness = b.freshness.name
        nodes[n.ref] = n
    edges = {((e.src.name, e.src.content_id), (e.dest.name, e.dest.content_id)) for e in sketch.edges}
    return webs.Web(nodes, edges), webs.observed(sketch)


def run(plan, ctx):
    from bead_cli.web.sketch import Sketch
    w = World(os.path.join(ctx.dir, 'w'))
    boxdir = os.path.join(ctx.dir, 'box')
    w.configure_boxes([('box', boxdir)])
    for b in webs.build(plan):
        b.write(boxdir)
    os.makedirs(w.path('steps'))
    Sketch.from_beads(webs.dummies(plan['second'], webs.build(plan['second']))).to_file(w.path('other.web'))
    with open(w.path('not-a.web'), 'w') as f:
        f.write('{')
    viewed = os.path.join(ctx.dir, 'viewed')
    old = dict(os.environ)
    os.environ.update(PATH=STANDINS + os.pathsep + old.get('PATH', ''), BROWSER=os.path.join(STANDINS, 'browser'), STANDIN_VIEWED=viewed)
    try:
        check(plan, ctx, w, viewed)
    finally:
        os.environ.clear()
        os.environ.update(old)


def check(plan, ctx, w, viewed):
    pool = sorted({b for b in plan['names']}) + ['unknown']
    # the words of the line; what it is expected to do with a web in a file, step by step
    words, actions = [], []
    wrong_at, wrong = plan['wrong'] or (None, None)
    steps = list(plan['steps'])
    if wrong and wrong != 'dot fails':
        steps.insert(min(wrong_at, len(steps)), ['wrong', wrong])
    saved = []
    for i, step in enumerate(steps):
        kind = step[0]
        if kind == 'save':
            f = FILES[step[1] % len(FILES)]
            saved.append(f)
            actions.append(('save', f))
            words += ['save', f]
        elif kind == 'load':
            f = (['other.web'] + saved)[step[1] % (1 + len(saved))]
            actions.append(('load', f))
            words += ['load', f]
        elif kind == 'filter':
            sources, sinks = [sorted({pool[k % len(pool)] for k in s}) for s in step[1:]]
            cmd = ['/', *sources, '..', *sinks, '/']
            actions.append(('change', cmd))
            words += cmd
        elif kind in ('color', 'heads'):
            actions.append(('change', [kind]))
            words += [kind]
        elif kind in ('dot', 'png', 'svg', 'view'):
            f = f'{i}.{kind}'
            actions.append((kind, f))
            words += [kind, f]
        elif step[1] == 'load missing':
            actions.append(('fail', None))
            words += ['load', 'missing.web']
        elif step[1] == 'not a web':
            actions.append(('fail', None))
            words += ['load', 'not-a.web']
        elif step[1] == 'save nowhere':
            actions.append(('fail', None))
            words += ['save', 'no/such/directory.web']
        else:
            actions.append(('broken', None))
            words += {'unknown': ['colour'], 'no file': ['save'], 'no sinks': ['/', 'a', '/'], 'no end': ['/', 'a', '..', 'b'],
                      'two sources': ['/', '..', '..', '/'], 'stray': ['..'], 'upper case': ['COLOR'], 'empty': ['']}[step[1]]
            if step[1] in ('no file', 'no end'):
                break    # the words after it would belong to it
    broken = any(a == 'broken' for a, _ in actions)
    if wrong == 'dot fails':
        os.environ['STANDIN_DOT_FAILS'] = '1'
    changes = [i for i, (a, _) in enumerate(actions) if a in ('change', 'load')]
    ctx.nontrivial(changes and any(a not in ('change', 'load') for a, _ in actions[changes[0]:]))
    ctx.label(*(a for a, _ in actions), f'wrong: {wrong}' if wrong else '')

    before = snapshot(w.home)
    r = w.cli('web', *words)
    ctx.executions(1)
    what = f'web {" ".join(words)}'
    after = snapshot(w.home)
    if broken:
        expect(r.refused, f'{what}: should be refused', r)
        expect_eq(sorted(p for p in after.keys() | before.keys() if after.get(p) != before.get(p)), [], f'{what}: refused, but did something')
        expect(not os.path.exists(viewed), f'{what}: refused, but showed something')
        return
    # whole line first, then the steps: their results may not be mixed up
    files = w.path('files')
    os.mkdir(files)
    for f in sorted(os.listdir(w.home)):
        if f not in ('files', 'steps', 'other.web', 'not-a.web') and not f.startswith('error_'):
            os.rename(w.path(f), os.path.join(files, f))
    os.environ.pop('STANDIN_DOT_FAILS', None)
    current = None
    if words[0] != 'load':
        current = 'steps/0.web'
        w.must('web', 'save', current)
    written, shown, failed = {}, [], False
    for i, (action, arg) in enumerate(actions, 1):
        if action == 'fail' or (action in ('png', 'svg') and wrong == 'dot fails'):
            failed = True
            break
        elif action == 'save':
            written[arg] = ('web', current)
        elif action == 'load':
            current = written[arg][1] if arg in written else arg
        elif action == 'change':
            f = f'steps/{i}.web'
            w.must('web', 'load', current, *arg, 'save', f)
            current = f
        elif action == 'view':
            shown.append(arg)
        else:
            written[arg] = (action, current)
    expect_eq(r.ok, not failed, f'{what}: success\n{r!r}')
    missing = sorted(set(written) - set(os.listdir(files)))
    expect_eq(missing, [], f'{what}: files not written')
    # a picture that failed may be there partially
    extra = {f for f in set(os.listdir(files)) - set(written) if not (failed and f.endswith(('.png', '.svg')))}
    expect_eq(sorted(extra), [], f'{what}: files not asked for')
    for f, (kind, step) in sorted(written.items()):
        p = os.path.join(files, f)
        web, want = web_of(w.path(step))
        if kind == 'web':
            got = web_of(p)[1]
            expect(got == want, f'{what}: {f!r} differs from what the steps give, run one by one\n  expected: {want}\n  got:      {got}')
        else:
            with open(p, encoding='utf-8', newline='') as o:
                text = o.read()
            if kind != 'dot':
                form, _, text = text.partition('\n')
                expect_eq(form, kind, f'{what}: format of {f!r}')
            check_drawing(text, web, f'{what}: {f!r}')
    seen = []
    if os.path.exists(viewed):
        with open(viewed) as o:
            seen = o.read().splitlines()
    expect_eq([os.path.basename(v) for v in seen], shown, f'{what}: shown')
