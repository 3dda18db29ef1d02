"""C27 the status report."""
import os
import re

from hypothesis import strategies as st

import gen
from core import expect, expect_eq
from sut import RefBead, World, expect_same, format_ts, make_workspace, parse_ts, snapshot

TECHNIQUE = 'model-based property testing (Hypothesis): the printed report is parsed and compared with a model of boxes and inputs'
RULE = ('workspaces with up to 5 inputs - stored, copied, missing, renamed, of known or unknown kinds, loaded or not - and up to 4 boxes, with '
        'or without an index; non-trivial: an input has both an exact box and a box with another bead of its kind')
QUICK = 4200
THOROUGH = 200000

T0 = 1388534400 * 10**6
NAMES = ['a', 'bead', 'a b', 'é', 'x # y', '[ab]', "it's", '**', 'n' * 60]
KINDS = ['kind-1', 'kind-2', 'kind-3']
NICKS = ['in', 'a', 'two words', 'é', 'Status: loaded', '[x]', 'B', '# y']
BOXES = ['box', 'other box', 'é', 'box # 2']


def strategy(tier):
    k = st.integers(0, 30)
    bead = st.fixed_dictionaries({
        'name': st.integers(0, len(NAMES) - 1), 'kind': st.sampled_from([0, 0, 0, 1, 2]), 'dt': st.integers(0, 12), 'offset': gen.offsets(),
        'boxes': st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)})
    inp = st.tuples(st.integers(0, len(NICKS) - 1), st.sampled_from(['bead', 'bead', 'bead', 'bead', 'unknown id', 'unknown id', 'unknown', 'other kind']),
                    k, st.integers(-2, 14), gen.offsets(), st.booleans()).map(list)
    return st.fixed_dictionaries({
        'beads': st.one_of(st.lists(bead, max_size=3), st.lists(bead, min_size=4, max_size=9)), 'inputs': st.one_of(st.lists(inp, max_size=5), st.lists(inp, min_size=2, max_size=5)), 'n boxes': st.sampled_from([0, 1, 2, 2, 3, 3, 4, 4]),
        'index': st.lists(st.sampled_from(['no', 'no', 'yes', 'older']), min_size=4, max_size=4),
        'junk': st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['txt', 'broken', 'dir'])).map(list), max_size=2),
        'gone': st.sampled_from([None, None, 0, 9]), 'verbose': st.booleans(), 'cwd': st.sampled_from(['option', 'root', 'sub'])})


def run(plan, ctx):
    w = World(os.path.join(ctx.dir, 'w'))
    n_boxes = plan['n boxes']
    dirs = [os.path.join(ctx.dir, 'boxes', str(i)) for i in range(n_boxes)]
    w.configure_boxes(list(zip(BOXES, dirs)), plan['gone'])
    beads, times = [], set()
    boxes = [[] for _ in dirs]
    for i, s in enumerate(plan['beads']):
        t = T0 + s['dt'] * 1_000_000
        if t in times:     # which one of those of the same moment is the newest is not defined
            t += i + 1
        times.add(t)
        b = RefBead(NAMES[s['name']], KINDS[s['kind']], format_ts(t, s['offset']), code={'i': b'%d' % i}, output={'o': b'%d' % i})
        beads.append((b, [x for x in s['boxes'] if x < n_boxes]))
    late = []
    for i, (b, where) in enumerate(beads):
        for x in where:
            if plan['index'][x] == 'older' and i % 2:
                late.append((b, x))
            else:
                b.write(dirs[x])
            boxes[x].append(b)
    for x, d in enumerate(dirs):
        if plan['index'][x] != 'no':
            w.must('box', 'index', '--box', BOXES[x])
    for b, x in late:
        b.write(dirs[x])
    for x in {x for _, x in late}:
        w.must('box', 'index', '--box', BOXES[x])
    for x, what in plan['junk']:
        if x < n_boxes:
            p = os.path.join(dirs[x], 'junk_20200101T000000000000+0000.zip')
            if what == 'txt' and os.path.isdir(dirs[x]):
                with open(os.path.join(dirs[x], 'x.txt'), 'w') as f:
                    f.write('x')
            elif what == 'broken' and not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('x')
            elif what == 'dir' and not os.path.exists(p):
                os.mkdir(p)

    # the workspace
    wsdir = w.path('the workspace')
    ws = make_workspace(wsdir, 'ws-kind', {'c/f': b'c'}, {'o': b'o'})
    inputs, loaded = {}, set()
    for nick, how, k, dt, offset, is_loaded in plan['inputs']:
        nick = NICKS[nick]
        if nick in inputs:
            continue
        b = beads[k % len(beads)][0] if beads else None
        t = format_ts(T0 + dt * 1_000_000, offset)
        if how == 'bead' and b:
            spec = b.ref
        elif how == 'unknown id' and b:
            spec = (b.kind, f'{k + 16:02x}' * 64, t)
        elif how == 'other kind' and b:
            spec = ('kind-unknown', b.content_id, b.freeze_time)
        else:
            spec = ('kind-unknown', f'{k + 16:02x}' * 64, t)
        inputs[nick] = spec
        ws.add_input(nick, *spec)
        if is_loaded:
            loaded.add(nick)
            os.chmod(os.path.join(wsdir, 'input'), 0o755)
            os.mkdir(os.path.join(wsdir, 'input', nick))
            if k % 3:
                with open(os.path.join(wsdir, 'input', nick, 'data'), 'w') as f:
                    f.write('data')
            os.chmod(os.path.join(wsdir, 'input'), 0o555)

    before = snapshot(ctx.dir)
    args = ['status'] + (['-v'] if plan['verbose'] else [])
    if plan['cwd'] == 'option':
        r = w.must(*args, '-w', wsdir)
    else:
        r = w.must(*args, cwd=wsdir if plan['cwd'] == 'root' else os.path.join(wsdir, 'c'))
    expect_same(before, snapshot(ctx.dir), 'status')
    got = parse(r.out, inputs)

    expect_eq(got['name'], 'the workspace', 'Bead Name')
    if plan['verbose']:
        expect_eq(got['kind'], 'ws-kind', 'Bead kind')
    expect_eq(sorted(got['inputs']), sorted(inputs), f'inputs in\n{r.out}')
    for nick, (kind, cid, t) in inputs.items():
        i = got['inputs'][nick]
        what = f'input {nick!r} ({kind}, {cid[:6]}, {t}) in\n{r.out}\n'
        expect_eq(i['status'], 'loaded' if nick in loaded else '**NOT LOADED**', what)
        names = {b.name for content in boxes for b in content if b.content_id == cid}
        expect(len(i['bead']) == 1, f'{what}: Bead lines: {i["bead"]}')
        name, time = i['bead'][0]
        expect_eq(time, t, f'{what}: time')
        expect(name in names if names else name == '**MISSING**', f'{what}: Bead should be one of {names or "**MISSING**"}')
        want = []
        for x, content in enumerate(boxes):
            candidates = [b for b in content if b.kind == kind and b.time <= parse_ts(t)]
            if candidates:
                newest = max(candidates, key=lambda b: b.time)
                want.append(('*' if newest.content_id == cid else '~', BOXES[x], newest.freeze_time))
        expect_eq(sorted(i['boxes']), sorted(want), f'{what}: boxes')
        expect_eq(i['none'], not want, f'{what}: "no candidates" is shown')
        ctx.nontrivial({m for m, _, _ in want} == {'*', '~'})
        if plan['verbose']:
            expect_eq((i['kind'], i['id']), (kind, cid), f'{what}: kind and content id')
        ctx.label(*(m for m, _, _ in want), 'missing' if not names else 'known', 'loaded' if nick in loaded else 'not loaded')
    if not inputs:
        expect('No inputs defined' in r.out, 'without inputs:', r.out)
        ctx.label('no inputs')


def parse(out, inputs):
    """What is in the report"""
    res = {'inputs': {}}
    headings = {f'input/{n}': n for n in inputs}
    current = None
    for line in out.splitlines():
        text = line.strip()
        if line in headings:
            expect(headings[line] not in res['inputs'], f'input {line!r} is there twice:\n{out}')
            current = res['inputs'][headings[line]] = {'status': None, 'bead': [], 'boxes': [], 'none': False, 'kind': None, 'id': None}
        elif line.startswith('input/'):
            expect(False, f'no such input is recorded: {line!r}')
        elif current is None:
            m = re.fullmatch('Bead (Name|kind): (.*)', text)
            if m:
                res[m.group(1).lower()] = m.group(2)
        else:
            m = re.fullmatch(r'(Status|Kind|Content id):\s+(.*)', text)
            if m:
                current[{'Status': 'status', 'Kind': 'kind', 'Content id': 'id'}[m.group(1)]] = m.group(2)
                continue
            m = re.fullmatch(r'Bead:\s+(.*) # (\S+)', text)
            if m:
                current['bead'].append(m.groups())
                continue
            m = re.fullmatch(r'([*~]) -r (.*) # (\S+?)( \(kind match\))?', text)
            if m:
                expect_eq(bool(m.group(4)), m.group(1) == '~', f'mark and text of {line!r}')
                current['boxes'].append(m.groups()[:3])
            elif 'no candidates' in text:
                current['none'] = True
    return res
