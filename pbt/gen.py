"""Hypothesis strategies for value recipes and wire graphs."""
from hypothesis import strategies as st

from . import model

# ---- scalars

BOUND_INTS = sorted({s * (2 ** e) + d
                     for e in (0, 7, 8, 14, 15, 16, 21, 22, 28, 29, 31, 32,
                               53, 63)
                     for d in (-2, -1, 0, 1, 2) for s in (1, -1)})
ints = st.one_of(st.integers(-10, 10), st.sampled_from(BOUND_INTS),
                 st.integers(-2 ** 29, 2 ** 29), st.integers(-2 ** 70, 2 ** 70))
SPECIAL_F = ['0000000000000000', '3ff0000000000000', 'bff0000000000000',
             '7ff0000000000000', 'fff0000000000000', 'nan',
             '3fe0000000000000', '3fb999999999999a', '0000000000000001',
             '7fefffffffffffff', '4340000000000001', '41b0000000000000',
             '41c0000000000000', 'c1b0000000000001', '43e0000000000000']
floats = st.one_of(
    st.sampled_from(SPECIAL_F),
    st.floats(allow_nan=False, width=64).filter(
        lambda x: not (x == 0 and str(x)[0] == '-')).map(model.f2h))

ASCII = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
short_text = st.one_of(
    st.sampled_from(['', 'a', 'b', 'spam', 'eggs', 'hello world', '0', '1',
                     'caf\xe9', '\u20ac', '\U0001f600', '\u0000', '\x7f\x80',
                     'length', 'source', 'x' * 40]),
    st.text(max_size=12),
    st.text(alphabet=ASCII, max_size=8))


def long_text():
    """Text around the lengths where the formats change representation."""
    return st.builds(
        lambda n, c, t: c * n + t,
        st.sampled_from([61, 62, 63, 64, 65, 126, 127, 128, 129, 8190, 8191,
                         8192, 8193]),
        st.sampled_from(['x', '\xe9']), st.text(max_size=3))


def huge_text():
    return st.builds(
        lambda n, c, t: c * n + t,
        st.sampled_from([21844, 21845, 32766, 32767, 32768, 65533, 65534,
                         65535, 65536, 65537, 70000]),
        st.sampled_from(['x', '\xe9', '\u20ac']), st.text(max_size=2))


text = st.one_of(short_text, short_text, short_text, short_text, short_text,
                 short_text, long_text())
key_text = st.one_of(
    st.sampled_from(['a', 'b', 'c', 'k1', 'k2', 'spam', 'eggs', '0', '1',
                     'caf\xe9', '\u20ac', '\U0001f600', '01', '+1', '-1',
                     ' 1', '1.0', 'length', '__class__', 'x' * 70]),
    st.text(alphabet=ASCII, min_size=1, max_size=6),
    st.text(min_size=1, max_size=6))
attr_name = st.one_of(
    st.sampled_from(['a', 'b', 'c', 'k', 's1', 's2', 'name', 'value', 'p',
                     'q', 'spam']),
    st.text(alphabet=ASCII[:52], min_size=1, max_size=6).map(
        lambda s: 'z' + s))


def dt(min_year=1, max_year=9999):
    return st.tuples(
        st.one_of(st.integers(1900, 2100), st.integers(min_year, max_year),
                  st.sampled_from([1969, 1970, 2000])),
        st.integers(1, 12), st.integers(1, 28), st.integers(0, 23),
        st.integers(0, 59), st.integers(0, 59),
        st.one_of(st.sampled_from([0, 0, 500000, 999000, 1000, 999999, 1]),
                  st.integers(0, 999999)))


dates = st.one_of(dt().map(lambda t: ['d'] + list(t)),
                  dt().map(lambda t: ['D'] + list(t[:3])))

# ---- XML

XML_CH = st.characters(min_codepoint=0x20, max_codepoint=0x2fff,
                       blacklist_categories=('Cs', 'Cc', 'Cn'))
xml_name = st.one_of(
    st.sampled_from(['a', 'b', 'foo', 'bar', 'x-y', 'x.y', '_z']),
    st.text(alphabet=ASCII[:52], min_size=1, max_size=5))
xml_text = st.one_of(
    st.just(''), st.just(''), st.sampled_from(
        ['text', '<&>"\'', ' ', '\n', 'a\nb', '\t', ']]>', 'caf\xe9',
         '\u20ac', '&amp;']),
    st.text(alphabet=XML_CH, max_size=8))


# ElementTree itself does not escape tabs in attributes
xml_attr = xml_text.map(lambda s: s.replace('\t', ' '))


@st.composite
def xml_tree(draw, depth=3, tail=False):
    n = draw(st.integers(0, 2)) if depth > 0 else 0
    attrs = draw(st.lists(st.tuples(xml_name, xml_attr), max_size=2,
                          unique_by=lambda kv: kv[0]))
    kids = [draw(xml_tree(depth - 1, True)) for _ in range(n)]
    return [draw(xml_name), sorted([k, v] for k, v in attrs),
            draw(xml_text), kids, draw(xml_text) if tail else '']


# ---- value recipes

class Opts(object):
    def __init__(self, ver, **kw):
        self.ver = ver
        self.xml = True
        self.insts = True
        self.flex = True            # ac, op, B
        self.dates = True
        self.mixed = True
        self.refs = True
        self.empty_key = (ver == 0)
        self.classes = ['Plain', 'Old', 'Static', 'SD', 'Slots', 'Kid',
                        'Uni', 'Anon', 'AnonOld']
        if ver == 3:
            self.classes.append('Ext')
        self.max_nodes = 14
        self.huge = False
        self.bigint = True
        for k, v in kw.items():
            setattr(self, k, v)


def scalar(o):
    alts = [st.just(['n']), st.just(['u']),
            st.booleans().map(lambda b: ['b', int(b)]),
            ints.map(lambda n: ['i', str(n)]),
            st.integers(-300, 300).map(lambda n: ['L', str(n)]),
            floats.map(lambda h: ['f', h]),
            text.map(lambda s: ['s', s]),
            short_text.map(lambda s: ['s', s]),
            short_text.map(lambda s: ['y', s])]
    if o.dates:
        alts.append(dates)
    if o.huge:
        alts.append(huge_text().map(lambda s: ['s', s]))
    return st.one_of(alts)


@st.composite
def content(draw):
    """Byte array content that is not itself a zlib stream."""
    b = draw(st.one_of(st.binary(max_size=12),
                       st.sampled_from([b'', b'\x00' * 70, b'x' * 200])))
    if b[:2] == b'\x78\x9c':
        b = b'\x00' + b
    return b.hex()


def container_kinds(o):
    ks = ['l', 'l', 'm', 'o', 't']
    if o.mixed:
        ks += ['M']
    if o.insts:
        ks += ['c', 'c']
    if o.flex:
        ks += ['ac', 'op', 'B']
    if o.xml:
        ks += ['x']
    if o.refs:
        ks += ['r', 'r', 'r']
    return ks


@st.composite
def value(draw, o, depth=4, budget=None):
    if budget is None:
        budget = [o.max_nodes]
    budget[0] -= 1
    sc = SCALARS.setdefault((o.ver, o.dates, o.huge), scalar(o))
    if depth <= 0 or budget[0] <= 0:
        return draw(sc)
    ck = container_kinds(o)
    # top level favours containers
    if depth >= 4:
        k = draw(st.sampled_from(ck + ['s']))
    else:
        k = draw(st.sampled_from(['s'] * len(ck) + ck))
    if k == 's':
        return draw(sc)
    sub = lambda: draw(value(o, depth - 1, budget))
    if k in ('l', 't', 'ac'):
        n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))
        return [k, [sub() for _ in range(n)]]
    if k in ('m', 'o'):
        n = draw(st.sampled_from([0, 1, 1, 2, 3]))
        keys = draw(st.lists(KEYS0 if o.empty_key else key_text, min_size=n,
                             max_size=n, unique=True))
        if k == 'm' and draw(st.integers(0, 9)) == 0:
            keys = draw(st.lists(st.one_of(
                st.integers(-3, 6), st.integers(-3, 6),
                st.sampled_from([2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32,
                                 2 ** 40, 2 ** 64])),
                                 min_size=n, max_size=n, unique=True))
        return [k, [[x, sub()] for x in keys]]
    if k == 'M':
        n = draw(st.sampled_from([0, 1, 2, 3, 4]))
        keys = draw(st.lists(
            st.one_of(st.integers(0, 3), st.integers(0, 3),
                      st.integers(-2, 8),
                      st.sampled_from([2 ** 28, 2 ** 31, 2 ** 33, 'a', 'b', 'zz', 'caf\xe9', 'x1',
                                       '1.0', '01', '+1', ' 1'])),
            min_size=n, max_size=n, unique=True))
        return [k, [[x, sub()] for x in keys]]
    if k == 'c':
        name = draw(st.sampled_from(o.classes))
        return ['c', name, [[x, sub() if not isinstance(y, list) else y]
                            for x, y in draw_attrs(draw, name)]]
    if k == 'op':
        inner = draw(st.sampled_from(['m', 'o', 'c']))
        if inner == 'c':
            return ['op', ['c', 'Plain', [[x, sub()] for x in draw(st.lists(
                attr_name, max_size=2, unique=True))]]]
        return ['op', [inner, [[x, sub()] for x in draw(st.lists(
            key_text, max_size=2, unique=True))]]]
    if k == 'B':
        return ['B', draw(content()), 0]
    if k == 'x':
        return ['x', draw(xml_tree(2))]
    if k == 'r':
        return ['r', draw(st.integers(0, 30))]
    raise AssertionError(k)


KEYS0 = st.one_of(key_text, key_text, st.just(''))
SCALARS = {}


def draw_attrs(draw, name):
    """[(attr, None | fixed recipe)] for an instance of a fixture class."""
    if name == 'Slots':
        return [(x, None) for x in ('p', 'q')]
    if name == 'Static':
        return [(x, None) for x in draw(st.lists(
            st.sampled_from(['a', 'b']), max_size=2, unique=True))]
    if name == 'Ext':
        return [('a', None), ('b', None),
                ('t', ['s', draw(short_text)]),
                ('n', ['i', str(draw(st.integers(-2 ** 31, 2 ** 31 - 1)))]),
                ('d', ['f', draw(floats)])]
    return [(x, None) for x in draw(st.lists(attr_name, max_size=3,
                                             unique=True))]


def values(o, max_values=2):
    return st.lists(value(o), min_size=1, max_size=max_values)


# ---- size / shape measures for evidence

def walk(r):
    yield r
    t = r[0]
    if t in ('l', 't', 'ac'):
        for x in r[1]:
            for y in walk(x):
                yield y
    elif t in ('m', 'o', 'M'):
        for k, x in r[1]:
            for y in walk(x):
                yield y
    elif t == 'c':
        for k, x in r[2]:
            for y in walk(x):
                yield y
    elif t == 'op':
        for y in walk(r[1]):
            yield y


def tags(rs):
    return sorted({y[0] for r in rs for y in walk(r)})


def count(rs):
    return sum(1 for r in rs for _ in walk(r))
