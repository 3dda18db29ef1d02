"""C15 reading times."""
import datetime
import os

from hypothesis import strategies as st

from core import HarnessError, expect, expect_eq, shim
from sut import RefBead, World, content_of, read_zip, ref_dumps, ref_hash, write_zip

TECHNIQUE = 'grammar-based and mutational generation (Hypothesis) against an independent parser'
RULE = ('texts made by the grammar of the documented formats, with extreme values, and edited by up to three character changes; '
        'non-trivial: a correct text with a non-zero offset or of more than one part, or a refused one that is made by editing a correct one')
QUICK = 9000
THOROUGH = 600000

US_MIN = {}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
DIGITS = '0123456789'
UNITS = {'w': 7 * 86400 * 10**6, 'd': 86400 * 10**6, 'H': 3600 * 10**6, 'M': 60 * 10**6, 'S': 10**6}


# ------------------------------------------------------------- oracle
def days_before(y):
    """days before year y, since 0001-01-01"""
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def days_in(y, m):
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def moment(y, mo=1, d=1, h=0, mi=0, s=0, us=0, off=0):
    """microseconds since the epoch or None when there is no such time"""
    if not (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= days_in(y, mo) and h < 24 and mi < 60 and s < 60):
        return None
    days = days_before(y) + sum(days_in(y, m) for m in range(1, mo)) + d - 1 - days_before(1970)
    return ((days * 86400 + h * 3600 + mi * 60 + s - off * 60) * 10**6) + us


class Reader:
    def __init__(self, text):
        self.text, self.i, self.good = text, 0, True

    def number(self, n):
        t = self.text[self.i:self.i + n]
        self.i += n
        if len(t) != n or any(c not in DIGITS for c in t):
            self.good = False
            return 0
        return int(t)

    def lit(self, s):
        if self.text[self.i:self.i + len(s)] != s:
            self.good = False
        self.i += len(s)

    def zone(self):
        sign = self.text[self.i:self.i + 1]
        self.i += 1
        h, m = self.number(2), self.number(2)
        if sign not in ('+', '-') or not sign or h > 23 or m > 59:
            self.good = False
        return (h * 60 + m) * (-1 if sign == '-' else 1)

    def done(self):
        return self.good and self.i == len(self.text)


# the literals between year, month, day, hour, minute, second, microsecond
FORMATS = {
    'full': ['', '', 'T', '', '', '', 'z'],
    'Y': [],
    'YM': [''], 'Y-M': ['-'],
    'YMD': ['', ''], 'Y-M-D': ['-', '-'],
    'basic': ['', '', 'T', '', '', 'z'],
    'ext': ['-', '-', 'T', ':', ':', 'z'],
    'extus': ['-', '-', 'T', ':', ':', '.', 'z'],
}
WIDTHS = [4, 2, 2, 2, 2, 2, 6]


def read_iso(text, formats):
    for f in formats:
        r = Reader(text)
        values = [r.number(4)]
        off = 0
        for i, sep in enumerate(FORMATS[f]):
            if sep == 'z':
                off = r.zone()
            else:
                r.lit(sep)
                values.append(r.number(WIDTHS[i + 1]))
        if r.done():
            return moment(*values, **({'off': off} if off else {}))
    return None


MIN, MAX = moment(1), moment(9999, 12, 31, 23, 59, 59, 999999)
MAXDELTA = 999999999 * 86400 * 10**6


def read_delta(text):
    """(microseconds or None, may it be refused)"""
    i, total, vague = 0, 0, False
    if not text:
        return None, False
    while i < len(text):
        sign = 1
        if text[i] in '+-':
            sign = -1 if text[i] == '-' else 1
            i += 1
        j = i
        while j < len(text) and text[j] in DIGITS:
            j += 1
        if j == i or j >= len(text) or text[j] not in UNITS:
            return None, False
        if j - i > 25:
            amount, vague = 10**25, True
            if set(text[i:j - 20]) <= {'0'}:
                amount = int(text[j - 20:j])
        else:
            amount = int(text[i:j])
        total += sign * amount * UNITS[text[j]]
        vague = vague or amount * UNITS[text[j]] > MAXDELTA or abs(total) > MAXDELTA
        i = j + 1
    return total, vague


def read_user(text, now):
    """(moment or None, may it be refused)"""
    t = read_iso(text, FORMATS)
    if t is not None:
        return t, False
    delta, vague = read_delta(text)
    if delta is None or not MIN <= now + delta <= MAX:
        return None, vague
    return now + delta, vague


# ---------------------------------------------------------- generators
def numbers(width, top):
    specials = [0, 1, 2, 9, 10, top - 1, top, top + 1, 28, 29, 30, 31, 59, 60, 23, 24, 12, 13]
    specials = [n for n in specials if 0 <= n < 10**width]
    return st.one_of(st.integers(0, min(top, 10**width - 1)), st.integers(1, min(top, 10**width - 1)), st.sampled_from(specials)).map(
        lambda n: str(n).rjust(width, '0'))


def valid_numbers(width, lo, hi):
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi])).map(lambda n: str(n).rjust(width, '0'))


def iso():
    tops = [9999, 12, 31, 23, 59, 59, 999999]
    lows = [1, 1, 1, 0, 0, 0, 0]
    years = st.sampled_from(['2000', '1900', '2024', '2023', '2100', '0001', '9999', '0000', '1970', '1969', '2038'])

    def build(f, strict):
        seps = FORMATS[f]
        gen = valid_numbers if strict else None
        parts = [st.one_of(years, valid_numbers(4, 1, 9999)) if strict else st.one_of(years, numbers(4, 9999))]
        for i, sep in enumerate(seps):
            if sep == 'z':
                hh, mm = (valid_numbers(2, 0, 23), valid_numbers(2, 0, 59)) if strict else (numbers(2, 23), numbers(2, 59))
                parts += [st.sampled_from('+-'), hh, mm]
            else:
                parts += [st.just(sep), gen(WIDTHS[i + 1], lows[i + 1], tops[i + 1]) if strict else numbers(WIDTHS[i + 1], tops[i + 1])]
        return st.tuples(*parts).map(''.join)
    return st.one_of([build(f, strict) for f in FORMATS for strict in (True, True, False)])


def deltas():
    amount = st.one_of(
        st.integers(0, 100), st.integers(0, 10**6), st.sampled_from([10**7, 10**9, 10**12, 999999999, 10**15, 10**18, 10**30])).map(str)
    amount = st.one_of(st.integers(0, 60).map(str), st.integers(0, 2000).map(str), amount, amount.map(lambda s: '00' + s))
    part = st.tuples(st.sampled_from(['', '', '-', '+']), amount, st.sampled_from('wdHMS')).map(''.join)
    odd = st.tuples(st.sampled_from(['', '-', '+', '--', '+-']), amount, st.sampled_from(['y', 'm', 'h', 's', 'D', 'W', '', ' ', '.5d', 'wd'])).map(''.join)
    return st.one_of(st.lists(part, min_size=1, max_size=5).map(''.join), st.lists(st.one_of(part, part, odd), min_size=1, max_size=3).map(''.join))


EDITS = list('0123456789+-:.TtZz wdHMSym\n\t/_') + ['٣', '１', '−', '²', '\u00a0', '\0', 'é']


def strategy(tier):
    edit = st.tuples(st.sampled_from(['insert', 'replace', 'delete', 'swap', 'dup', 'append', 'prepend']), st.integers(0, 40), st.integers(0, len(EDITS) - 1)).map(list)
    text = st.tuples(
        st.one_of(iso(), iso(), deltas(), deltas(), st.sampled_from(['', ' ', 'now', 'today', 'TIME_LATEST', '-', '+', 'T', 'inf', 'nan', '0', '1e3d', '1_0d'])),
        st.one_of(st.just([]), st.just([]), st.lists(edit, min_size=1, max_size=3))).map(list)
    return st.fixed_dictionaries({
        'texts': st.lists(text, min_size=1, max_size=12),
        'now': st.one_of(st.integers(1104537600 * 10**6, 1893456000 * 10**6), st.sampled_from([951782400 * 10**6 + 10**11, 1709164800 * 10**6])),
        'cli': st.integers(0, 7), 'bead': st.integers(0, 3)})


def edited(text, edits):
    for kind, pos, c in edits:
        c = EDITS[c]
        pos = pos % (len(text) + 1)
        if kind == 'insert':
            text = text[:pos] + c + text[pos:]
        elif kind == 'replace':
            text = text[:pos] + c + text[pos + 1:]
        elif kind == 'delete':
            text = text[:pos] + text[pos + 1:]
        elif kind == 'swap':
            text = text[:pos] + text[pos + 1:pos + 2] + text[pos:pos + 1] + text[pos + 2:]
        elif kind == 'dup':
            text = text[:pos] + text[pos:pos + 1] + text[pos:]
        elif kind == 'append':
            text += c
        elif kind == 'prepend':
            text = c + text
    return text


def us_of(t):
    return (t - EPOCH) // datetime.timedelta(microseconds=1)


def attempt(what, fn, text):
    try:
        t = fn(text)
    except ValueError:
        return None
    except HarnessError:
        raise
    except Exception as e:
        expect(False, f'{what}({text!r}) raised {e!r}, which is not a proper refusal')
    expect(isinstance(t, datetime.datetime) and t.tzinfo is not None, f'{what}({text!r}) = {t!r}')
    return us_of(t)


def run(plan, ctx):
    from bead.tech.timestamp import parse_iso8601, time_from_timestamp, time_from_user
    shim.clock(plan['now'] * 1000, 0)
    w = None
    for n, (original, edits) in enumerate(plan['texts']):
        text = edited(original, edits)
        user, vague = read_user(text, plan['now'])
        isot, full = read_iso(text, FORMATS), read_iso(text, ['full'])
        got = attempt('time_from_user', time_from_user, text)
        if not (vague and got is None):
            expect_eq(got, user, f'time_from_user({text!r}) at {plan["now"]}')
        expect_eq(attempt('parse_iso8601', parse_iso8601, text), isot, f'parse_iso8601({text!r})')
        expect_eq(attempt('time_from_timestamp', time_from_timestamp, text), full, f'time_from_timestamp({text!r})')
        ctx.label('time' if isot is not None else 'difference' if user is not None else 'refused')
        ctx.nontrivial(user is None and edits and read_user(original, plan['now'])[0] is not None)
        ctx.nontrivial(user is not None and (len(text) > 8 and isot is not None or isot is None and sum(c in UNITS for c in text) > 1))
        if plan['cli'] == n and '\0' not in text and not vague:
            w = w or World(os.path.join(ctx.dir, 'w'))
            from_cli(w, ctx, text, user, n)
        if plan['bead'] == n:
            in_bead(ctx, text, full, n)


def from_cli(w, ctx, text, user, n):
    ctx.label('command line')
    box = os.path.join(ctx.dir, 'box')
    if not os.path.isdir(box):
        w.configure_boxes([('box', box)])
    b = RefBead('b', 'kind', '20000101T000000000000+0000', code={'c': b'c'})
    b.write(box)
    target = w.path(f'ws{n}')
    r = w.cli('edit', f'--time={text}', 'b', target)
    expect(r.exc is None, f'--time={text!r}', r)
    ok = user is not None and user >= us_of(b.time)
    expect_eq(r.ok, ok, f'edit --time={text!r}: {r}')
    expect_eq(os.path.exists(target), ok, f'edit --time={text!r} created a workspace')
    if user is None:
        expect(r.err.strip(), 'no message')


def in_bead(ctx, text, full, n):
    """The time in the metadata of a bead."""
    from bead.box import Box
    from bead.exceptions import InvalidArchive
    from bead.tech.fs import Path
    ctx.label('stored')
    box = os.path.join(ctx.dir, 'box2')
    os.makedirs(box, exist_ok=True)
    try:
        text.encode()
    except UnicodeError:
        return
    b = RefBead('b', 'kind', text, code={'c': b'c'})
    b.write(box, 'b_20100101.zip')
    found = Box('box', Path(box)).all_beads()
    if full is None:
        expect_eq(len(found), 0, f'beads of a box with a bead from {text!r}')
    else:
        expect_eq([(x.freeze_time_str, us_of(x.freeze_time)) for x in found], [(text, full)], f'beads of a box with a bead from {text!r}')
