"""Hypothesis strategies shared by the checks. Everything generated is plain JSON data."""
from hypothesis import strategies as st

# names that matter to the layout, look-alikes, pattern characters, odd but legal names
SPECIAL_NAMES = [
    'a', 'b', 'c', 'README.md', '.gitignore', '.hidden', 'input', 'output', 'temp', '.bead-meta', 'inputs', 'output2',
    'Input', 'OUTPUT', 'tempo', '.bead-meta2', 'bead-meta', 'data', 'code', 'meta', 'bead', 'manifest',
    '.index.sqlite', 'x.zip', 'a b', ' lead', 'trail ', 'a.b.c', '...', '..a', 'a..', '-dash', '--', 'a[1]', '[ab]', '*', '?',
    'a*b', 'back\\slash', 'co:lon', "quo'te", 'dou"ble', 'new\nline', 'tab\t', '~', '#x#', '%41', '$HOME', 'NUL', 'con',
    'é', 'e\u0301', 'ÅÅ', 'árvíztűrő', '日本語', '😀', '\u202eabc', 'ß', 'SS', 'ı', 'a_20200101', 'x__y', '__init__.py', '__pycache__',
    'a_20200101T000000000000+0000.zip', 'core', 'a' * 100,
]
_unicode = st.characters(blacklist_categories=('Cs',), blacklist_characters='/\0')
RESERVED_TOP = {'input', 'output', 'temp', '.bead-meta'}


def ok_component(s):
    return s not in ('', '.', '..') and len(s.encode('utf-8')) <= 200


def components():
    return st.one_of(
        st.sampled_from(SPECIAL_NAMES),
        st.text(alphabet='abcxyz._-0123456789 ', min_size=1, max_size=8),
        st.text(alphabet=_unicode, min_size=1, max_size=6),
    ).filter(ok_component)


SIZES_MEDIUM = [255, 256, 512, 1023, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 131072]
SIZES_LARGE = [2**18, 2**20 - 1, 2**20, 2**20 + 1, 2**21 - 1, 2**21, 2**21 + 1, 3 * 2**20 + 17]


def small_contents():
    return st.text(alphabet=st.characters(max_codepoint=255), max_size=12)


def contents(large=True):
    """A str stands for its latin-1 bytes, [size, k] for generated bytes (k < 10: irregular, 10..: patterns)."""
    small = small_contents()
    medium = st.tuples(st.sampled_from(SIZES_MEDIUM), st.integers(0, 18)).map(list)
    options = [small, small, small, small, small, small, medium]
    if large:
        big = st.tuples(st.sampled_from(SIZES_LARGE), st.integers(0, 18)).map(list)
        rare = st.integers(0, 19).flatmap(lambda i: big if i == 19 else small)
        options.append(rare)
    return st.one_of(options)


def entries(max_size=6, depth=4, content=None, first=None):
    """List of [[path components], content] (see sut.tree_of)."""
    comp = components()
    rest = st.lists(comp, max_size=depth - 1)
    path = st.tuples(first if first is not None else comp, rest).map(lambda t: [t[0]] + t[1])
    return st.lists(
        st.tuples(path, content if content is not None else contents()).map(list), max_size=max_size)


def like_reserved():
    """Names that are nearly those of the reserved directories, but not the same."""
    affix = st.sampled_from(['~', '.bak', '.', '..', '-', '_', ' ', '  ', '\t', '\n', '#', '.zip', '.tmp', '.orig', '2', 's', '/', '\\', '*', '\u200b', '\u0301', '\xa0', ''])
    none = st.just('')
    where = st.one_of(*[st.tuples(none, affix)] * 3, st.tuples(affix, none), st.tuples(affix, affix))
    return st.tuples(where, st.sampled_from(sorted(RESERVED_TOP)), st.sampled_from([str, str, str, str, str, str.upper, str.title])).map(
        lambda t: (t[0][0] + t[2](t[1]) + t[0][1]).replace('/', '\u2215')).filter(lambda s: s not in RESERVED_TOP)


def code_entries(max_size=5, depth=4, content=None):
    """Files of a workspace outside of the reserved directories."""
    return entries(
        max_size, depth, content, first=st.one_of(*[components().filter(lambda s: s not in RESERVED_TOP)] * 5, like_reserved()))


def simple_names():
    """Bead names that are fine everywhere."""
    return st.one_of(
        st.sampled_from(['a', 'b', 'bead', 'a-b', 'data.v2', 'x_1']),
        st.text(alphabet='abcxyz0123456789-. ', min_size=1, max_size=8).filter(
            lambda s: s[0] not in '-. ' and s[-1] not in '. '),
    )


def bead_names():
    """Legal, but possibly difficult bead names: no '__', no path separators, not looking like options."""
    bad = set('/\\:\0')
    return st.one_of(
        st.sampled_from(['a', 'b', 'a[1]', '[ab]', 'a*', '?', 'a?b', '!x', '[!a]', 'a b', ' a', 'a ', 'name.zip', 'x.y.z', '.hidden',
                         '...', 'x_20200101', 'x_20200101T101010', 'x_20200101T101010+0100', 'x_', '_x', '_', 'é', 'e\u0301',
                         'ß', '日本', '😀', 'new\nline', 'quo"te', "it's", '<b>', '&amp;', '%s', '{x}', '~', '#', '$(x)',
                         'A', 'bead', 'bead-2015v3', '0', '00000000', '20200101', 'n' * 150]),
        st.text(alphabet='ab[]*?!._- {}', min_size=1, max_size=8),
        st.text(alphabet=_unicode, min_size=1, max_size=6),
    ).filter(lambda s: ok_component(s) and not (bad & set(s)) and '__' not in s and not s.startswith('-')
             and len(s.encode('utf-8')) <= 180)


def kinds():
    return st.sampled_from(['kind-1', 'kind-2', 'kind-3', 'KIND-1', 'é-kind', '3ca6', 'kind_1'])


OFFSETS = [0, 0, 60, -60, 120, -480, 330, 345, -210, 720, 840, -720, 765, -1, 1, 59]


def times_us(spread=None):
    """Microseconds since the epoch, between 2005 and 2023, clustered so that order and offsets interact."""
    base = st.sampled_from([1104537600, 1262304000, 1388534400, 1431000000, 1540688400, 1585443600, 1672531199])
    small = st.sampled_from([0, 1, 2, 999_999, 1_000_000, 1_000_001, 59_999_999, 3_600_000_000, 7_200_000_000,
                             86_400_000_000, 12 * 3_600_000_000])
    return st.one_of(
        st.tuples(base, small).map(lambda t: t[0] * 1_000_000 + t[1]),
        st.tuples(base, st.integers(0, 3 * 86_400 * 1_000_000)).map(lambda t: t[0] * 1_000_000 + t[1]),
        st.integers(1104537600 * 10**6, 1680000000 * 10**6),
    )


def offsets():
    return st.sampled_from(OFFSETS)
