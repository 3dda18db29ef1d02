"""C14 freeze times."""
import bisect
import datetime
import json
import os
import subprocess
import sys
import time
import traceback
import zoneinfo

from hypothesis import strategies as st

from core import HarnessError, expect, expect_eq, shim
from sut import World, format_ts, parse_ts, read_zip, write_tree

TECHNIQUE = 'property-based testing (Hypothesis) with a controlled clock and time zones against zoneinfo'
RULE = ('histories of saves by processes of different time zones at chosen instants; non-trivial: an instant within two hours of a '
        'change of the UTC offset, or two saves in different zones within a day')
QUICK = 1100
THOROUGH = 120000

ZONES = ['UTC', 'Europe/Budapest', 'Europe/London', 'Europe/Dublin', 'America/New_York', 'America/St_Johns', 'America/Caracas', 'America/Sao_Paulo',
         'Asia/Kathmandu', 'Asia/Kolkata', 'Asia/Tokyo', 'Asia/Tehran', 'Asia/Pyongyang', 'Asia/Gaza', 'Australia/Lord_Howe', 'Australia/Adelaide',
         'Pacific/Apia', 'Pacific/Kiritimati', 'Pacific/Chatham', 'Pacific/Marquesas', 'Pacific/Pago_Pago', 'Africa/Casablanca', 'Africa/Monrovia',
         'Antarctica/Troll', 'Europe/Moscow', 'America/Havana', 'America/Asuncion', 'Etc/GMT+12', 'Etc/GMT-14', 'Africa/Cairo', 'Asia/Hebron']
ZONES = [z for z in ZONES if z in zoneinfo.available_timezones()]
FIXED = {'<+0545>-5:45': 345, '<-0330>3:30': -210, 'XXX11': -660, 'UTC0': 0, '<+00>-0:01': 1, '<-00>0:59': -59}
# the offset is what is nearest in whole minutes
SECONDS = {'ABC-1:23:45': 5025, 'XYZ4:56:02': -17762, 'MMT0:44:30': -2670, '<+0001>-0:00:01': 1, '<-01>0:00:59': -59, 'LMT-20:00:30': 72030}
S = 10**6
FIRST, LAST = 978307200, 2871763199        # 2001 - 2060
EPS = [0, 0, 0, -1, 1, -S, S, -1800 * S, 1800 * S, 3600 * S, 3600 * S - 1, -3600 * S, -3600 * S + 1, 5400 * S, -7200 * S + 1, 7200 * S, 17 * S + 123]
GAPS = [1, 2, 999, 1000, 1001, S - 1, S, S + 1, 60 * S, 1800 * S, 3600 * S - 1, 3600 * S, 3600 * S + 1, 7200 * S, 86399 * S, 86400 * S, 86400 * S * 181]


def strategy(tier):
    zone = st.one_of(st.sampled_from(ZONES), st.sampled_from(ZONES), st.sampled_from(sorted(FIXED)), st.sampled_from(sorted(FIXED) + sorted(SECONDS)))
    step = st.fixed_dictionaries({
        'zone': zone, 'same': st.booleans(), 'gap': st.sampled_from(GAPS), 'tick': st.sampled_from([0, 0, 0, 1, 1000]),
        'how': st.sampled_from(['save', 'store', 'store', 'outdated'])})
    return st.fixed_dictionaries({
        'start': st.one_of(
            st.tuples(st.just('change'), st.integers(0, 10**6), st.sampled_from(EPS)),
            st.tuples(st.just('change'), st.integers(0, 10**6), st.sampled_from(EPS)),
            st.tuples(st.just('at'), st.integers(FIRST, LAST), st.integers(0, S - 1)),
            st.tuples(st.just('at'), st.sampled_from([1388534400, 1388534399, 1582934400, 1583020799, 2147483647, 2147483648, 1230767999]),
                      st.sampled_from([0, 1, 9, 10, 999, 99999, 100000, 999999])),
        ).map(list),
        'steps': st.lists(step, min_size=1, max_size=4),
        'reader': zone,
        'indexed': st.booleans(),
    })


_changes = {}


def offset(zone, us):
    """minutes east of UTC"""
    if zone in FIXED:
        return FIXED[zone]
    if zone in SECONDS:
        return SECONDS[zone] // 60
    t = datetime.datetime.fromtimestamp(us // S, tz=zoneinfo.ZoneInfo(zone))
    seconds = t.utcoffset().total_seconds()
    assert seconds % 60 == 0
    return int(seconds // 60)


def changes(zone):
    """instants (s) when the offset changes"""
    if zone not in _changes:
        res = []
        if zone not in FIXED and zone not in SECONDS:
            step = 5 * 86400
            t, o = FIRST, offset(zone, FIRST * S)
            while t < LAST:
                n = offset(zone, (t + step) * S)
                if n != o:
                    lo, hi = t, t + step
                    while hi - lo > 1:
                        m = (lo + hi) // 2
                        lo, hi = (m, hi) if offset(zone, m * S) == o else (lo, m)
                    res.append(hi)
                t, o = t + step, n
        _changes[zone] = res
    return _changes[zone]


def prepare():
    # make importing the code quick: compiled in advance, with everything it depends on already imported
    import importlib
    import paths
    env = dict(os.environ)
    env.pop('PYTHONDONTWRITEBYTECODE', None)
    code = f'import sys; sys.path.insert(0, {paths.REPO!r}); import bead_cli.main; print(*sys.modules)'
    p = subprocess.run([sys.executable, '-c', code], env=env, check=False, capture_output=True, text=True)
    for m in p.stdout.split():
        if m.split('.')[0] not in ('bead', 'bead_cli', 'tests', 'tracelog', '__main__'):
            try:
                importlib.import_module(m)
            except ImportError:
                pass


def in_zone(zone, fn, *args):
    """Run fn in a process of its own, that has always been in this time zone; returns its JSON-able result."""
    if 'bead' in sys.modules:
        raise HarnessError('the code under test is already imported')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.environ['TZ'] = zone
            time.tzset()
            try:
                res = ['ok', fn(*args)]
            except BaseException:
                res = ['error', traceback.format_exc()]
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        raise HarnessError('child died')
    status, res = json.loads(text)
    expect(status == 'ok', f'in time zone {zone}:\n{res}')
    return res


def run(plan, ctx):
    base = os.path.join(ctx.dir, 'w')
    w = World(base)
    box = os.path.join(ctx.dir, 'box')
    os.mkdir(box)
    mode, a, b = plan['start']
    first_zone = plan['steps'][0]['zone']
    if mode == 'at':
        us = a * S + b
    else:
        ch = changes(first_zone) or [1388534400]
        us = ch[a % len(ch)] * S + b
    saved = []      # (file name, time)
    zone = first_zone
    last_zone = None
    for n, step in enumerate(plan['steps']):
        if n:
            us += step['gap']
            if not step['same']:
                zone = step['zone']
            if step['gap'] <= 86400 * S and zone != last_zone:
                ctx.nontrivial()
                ctx.label('zones mixed')
        ch = changes(zone)
        i = bisect.bisect(ch, us // S)
        if any(abs(us // S - t) <= 7200 for t in ch[max(0, i - 1):i + 1]):
            ctx.nontrivial()
            ctx.label('near a change')
        shim.clock(us * 1000, step['tick'] * 1000)
        end, name, text = in_zone(zone, save, w, box, step['how'], n, plan['indexed'])
        ctx.executions(1)
        # what is there in the file
        meta = json.loads(dict(read_zip(os.path.join(box, name)))['meta/bead'])
        t = meta['freeze_time']
        expect_eq(name, f'bead_{t}.zip', 'file name')
        expect_eq(text, t, 'freeze time of the found bead')
        allowed = [us] if not step['tick'] else range(us, end // 1000 + 1, step['tick'])
        wanted = {format_ts(m, offset(zone, m)) for m in (allowed if len(allowed) < 3000 else allowed[:3000])}
        if zone in SECONDS:
            ctx.label('offset with seconds')
            ctx.nontrivial()
            wanted |= {format_ts(m, offset(zone, m) + 1) for m in (allowed if len(allowed) < 3000 else allowed[:3000])}
            if abs(SECONDS[zone]) < 60:
                # -0000, too
                wanted |= {w[:-5] + '-0000' for w in wanted if w.endswith('+0000')}
        expect(t in wanted, f'saved at {format_ts(us)}, that is {format_ts(us, offset(zone, us))} in {zone}: freeze time is {t}')
        saved.append((name, t))
        us = max(us, end // 1000)
        last_zone = zone
    times = [parse_ts(t) for _, t in saved]
    assert times == sorted(set(times))
    shim.clock(us * 1000, 0)
    got = in_zone(plan['reader'], read, w, box)
    ctx.executions(1)
    epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    order = [(t, (parse_ts(t) - epoch) // datetime.timedelta(microseconds=1)) for _, t in saved]
    expect_eq(got, [[list(x) for x in order]] * 2 + [saved[-1][1]],
              f'beads in the order of their times, as seen in {plan["reader"]}, and the one picked as newest')


def the_box(box):
    from bead.box import Box
    from bead.tech.fs import Path
    return Box('box', Path(box))


def save(w, box, how, n, indexed):
    from bead.workspace import Workspace
    if n == 0:
        w.configure_boxes([('box', box)])
        if indexed:
            w.must('box', 'index', '--box', 'box')
    old = set(os.listdir(box))
    d = w.path('ws', str(n), 'bead')
    ws = Workspace(d)
    ws.create('kind')
    write_tree(d, {'n': b'%d' % n})
    if how == 'outdated':
        os.utime(os.path.join(d, 'n'), (0, 0))
    if how == 'store':
        from bead.tech.timestamp import timestamp
        the_box(box).store(ws, timestamp())
    else:
        w.must('save', 'box', '-w', d)
    end = shim.now()
    (name,) = [f for f in set(os.listdir(box)) - old if f.endswith('.zip')]
    # immediately afterwards it is the newest one, and it is accepted
    if how != 'store':
        r = w.must('edit', 'bead', w.path(f'edit{n}'))
        with open(w.path(f'edit{n}', 'n')) as f:
            expect_eq((f.read(), 'DAMAGED' in r.out), (str(n), False), 'newest bead after saving')
    newest = the_box(box).search().newest()
    archive = the_box(box).resolve(newest)
    archive.validate()
    return end, name, archive.freeze_time_str


def read(w, box):
    b = the_box(box)
    import datetime
    epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)

    def us(t):
        return (t - epoch) // datetime.timedelta(microseconds=1)
    beads = sorted(b.all_beads(), key=lambda x: x.freeze_time)
    stepped = []
    for i in range(len(beads)):
        stepped.append(b.search().newer(i))
    for x in beads:
        b.resolve(x).validate()
    d = w.path('reader')
    from sut import make_workspace
    make_workspace(d, 'kind-reader')
    w.must('input', 'add', 'bead', '-w', d)
    with open(os.path.join(d, '.bead-meta', 'bead')) as f:
        ref = json.load(f)['inputs']['bead']
    return [[(x.freeze_time_str, us(x.freeze_time)) for x in beads], [(x.freeze_time_str, us(x.freeze_time)) for x in stepped], ref['freeze_time']]
