import math
import struct

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import gen

INTS = {'uchar': (0, 255, 1), 'char': (-128, 127, 1),
        'ushort': (0, 65535, 2), 'short': (-32768, 32767, 2),
        'ulong': (0, 2 ** 32 - 1, 4), 'long': (-2 ** 31, 2 ** 31 - 1, 4),
        '24bit_uint': (0, 2 ** 24 - 1, 3),
        '24bit_int': (-2 ** 23, 2 ** 23 - 1, 3)}
TYPES = sorted(INTS) + ['double', 'float']
ENDIANS = ['!', '@', '<', '>']
f32 = st.floats(width=32)
f64 = st.one_of(st.floats(), st.sampled_from(
    [0.0, -0.0, math.inf, -math.inf, math.nan, 1.5, -1e300, 5e-324]))
small = st.binary(max_size=6)


def fhex(x):
    return struct.pack('>d', x).hex()


junk = st.one_of(st.just(['n', None]), st.just(['L', 1]),
                 st.booleans().map(lambda b: ['b', int(b)]),
                 st.just(['f', fhex(1.0)]), st.just(['i', '1']),
                 st.just(['s', '1']), st.just(['y', '31']))


@st.composite
def write(draw):
    k = draw(st.sampled_from(TYPES + ['utf8_string', 'utf8_string']))
    if draw(st.integers(0, 7)) == 0:
        return ['write', k, draw(junk)]
    if k in INTS:
        lo, hi, n = INTS[k]
        v = draw(st.one_of(
            st.integers(lo, hi), st.integers(lo, hi),
            st.sampled_from([lo, hi, 0, lo - 1, hi + 1, -1, 1, 127, 128, 255,
                             -hi, 2 ** 40, -2 ** 63])))
        return ['write', k, [draw(st.sampled_from(['i', 'i', 'l'])), str(v)]]
    if k == 'utf8_string':
        if draw(st.booleans()):
            return ['write', k, ['s', draw(gen.short_text)]]
        return ['write', k, ['y', draw(small).hex()]]
    return ['write', k, ['f', fhex(draw(f32 if k == 'float' else f64))]]


init = st.builds(lambda k, d, p: [k, d.hex(), min(p, len(d))],
                 st.sampled_from(['bytes', 'bytes', 'stream', 'file',
                                  'stringio', 'none']),
                 st.binary(max_size=12), st.integers(0, 12))
op = st.one_of(
    write(), write(), write(),
    st.sampled_from(TYPES).map(lambda t: ['read', t]),
    st.sampled_from(TYPES).map(lambda t: ['read', t]),
    st.integers(0, 5).map(lambda n: ['utf8', n]),
    small.map(lambda b: ['raw', ['y', b.hex()]]),
    st.sampled_from(ENDIANS).map(lambda e: ['endian', e]),
    st.sampled_from(ENDIANS).map(lambda e: ['endian', e]),
    st.tuples(st.floats(0, 1), st.integers(0, 2)).map(
        lambda t: ['seek', t[0], t[1]]),
    st.tuples(st.floats(0, 1), st.integers(0, 2)).map(
        lambda t: ['seek', t[0], t[1]]),
    st.sampled_from([['tell'], ['remaining'], ['at_eof'], ['len'],
                     ['getvalue'], ['consume'], ['consume'], ['peek'],
                     ['bulk'], ['bulk'], ['truncate']]),
    st.integers(-3, 12).map(lambda n: ['peek', n]),
    st.integers(-3, 12).map(lambda n: ['bulk', n]),
    st.integers(0, 14).map(lambda n: ['truncate', n]),
    st.one_of(gen.short_text.map(lambda s: ['s', s]),
              small.map(lambda b: ['y', b.hex()]), junk).map(
                  lambda a: ['append', a]),
    init.filter(lambda i: i[0] != 'none' and i[0] != 'file').map(
        lambda i: ['append_stream', i]),
    init.filter(lambda i: i[0] != 'none' and i[0] != 'file').map(
        lambda i: ['add', i]),
)


NATIVE = []


class Err(Exception):
    pass


class Buf(object):
    def __init__(self, data):
        self.d = bytearray(data)
        self.p = 0
        self.e = '>'
        self.feats = set()

    def take(self, n):
        if self.p + n > len(self.d):
            self.feats.add('short')
            raise Err('IOError')
        b = bytes(self.d[self.p:self.p + n])
        self.p += n
        return b

    def put(self, b):
        if self.p < len(self.d) and b:
            self.feats.add('overwrite')
        self.d[self.p:self.p + len(b)] = b
        self.p += len(b)

    def order(self):
        if self.e == '@':
            return NATIVE[0]
        return 'little' if self.e == '<' else 'big'

    def fmt(self, c):
        return ('<' if self.order() == 'little' else '>') + c

    def write(self, k, a):
        t, v = a
        if k in INTS:
            if t not in ('i', 'l'):
                raise Err('TypeError')
            lo, hi, n = INTS[k]
            v = int(v)
            if not lo <= v <= hi:
                self.feats.add('range')
                raise Err('OverflowError')
            return self.put((v % 2 ** (8 * n)).to_bytes(n, self.order()))
        if k == 'utf8_string':
            if t not in ('s', 'y'):
                raise Err('TypeError')
            return self.put(v.encode('utf-8') if t == 's' else
                            bytes.fromhex(v))
        if t != 'f':
            raise Err('TypeError')
        x = struct.unpack('>d', bytes.fromhex(v))[0]
        if x != x:
            # any NaN may be written as the platform's only one
            self.nan = True
        self.put(struct.pack(self.fmt('f' if k == 'float' else 'd'), x))

    def read(self, k):
        if k in INTS:
            lo, hi, n = INTS[k]
            return ['i', str(int.from_bytes(self.take(n), self.order(),
                                            signed=lo < 0))]
        n = 4 if k == 'float' else 8
        x = struct.unpack(self.fmt('f' if n == 4 else 'd'), self.take(n))[0]
        return ['f', 'nan' if x != x else fhex(x)]

    def text(self, n):
        b = self.take(n)
        try:
            return ['s', b.decode('utf-8')]
        except UnicodeDecodeError:
            raise Err('ValueError')

    def bulk(self, n=-1):
        if n == -1:
            if self.p == len(self.d):
                raise Err('IOError')
            n = len(self.d) - self.p
        if n < 0:
            raise Err('IOError')
        return ['y', self.take(n).hex()]

    def peek(self, n=1):
        if n == -1:
            n = len(self.d)
        if n < -1:
            raise Err('ValueError')
        return ['y', bytes(self.d[self.p:self.p + n]).hex()]

    def truncate(self, n=0):
        self.feats.add('truncate')
        del self.d[n:]
        self.p = min(self.p, len(self.d))

    def consume(self):
        self.feats.add('consume')
        del self.d[:self.p]
        self.p = 0

    def append(self, a):
        if a[0] not in ('s', 'y'):
            raise Err('TypeError')
        self.d += a[1].encode('utf-8') if a[0] == 's' else bytes.fromhex(a[1])


def concrete(case):
    """Positions become concrete: seeks stay within the buffer."""
    data = bytes.fromhex(case['init'][1]) if case['init'][0] != 'none' else b''
    m = Buf(data)
    ops = []
    last = 0
    want = [(['n'], m.p, bytes(m.d), None)]
    for o in case['ops']:
        k, a = o[0], o[1:]
        other = None
        try:
            r = None
            if k == 'seek':
                t = int(round(a[0] * len(m.d)))
                mode = a[1]
                o = ['seek', t - [0, m.p, len(m.d)][mode], mode]
                m.p = t
            elif k == 'back':
                # to where the last value written starts
                if last > len(m.d):
                    continue
                o = ['seek', last, 0]
                m.p = last
            elif k == 'write':
                m.nan = False
                at = m.p
                r = m.write(*a)
                last = at
            elif k == 'read':
                r = m.read(*a)
            elif k == 'utf8':
                before = m.p
                try:
                    r = m.text(*a)
                except Err as e:
                    if str(e) == 'ValueError':
                        # not text: what happens is not prescribed
                        m.p = before
                        continue
                    raise
            elif k == 'raw':
                m.put(bytes.fromhex(a[0][1]))
            elif k == 'endian':
                m.e = a[0]
            elif k == 'append':
                m.append(a[0])
            elif k == 'append_stream':
                m.d += bytes.fromhex(a[0][1])
                other = [0, a[0][1]]
            elif k == 'add':
                d = bytes(m.d) + bytes.fromhex(a[0][1])
                r = ['state', [0, len(d), d.hex()]]
                other = [0, a[0][1]]
            elif k == 'len':
                r = ['i', str(len(m.d))]
            elif k == 'tell':
                r = ['i', str(m.p)]
            elif k == 'remaining':
                r = ['i', str(len(m.d) - m.p)]
            elif k == 'at_eof':
                r = ['b', int(m.p == len(m.d))]
            elif k == 'getvalue':
                r = ['y', bytes(m.d).hex()]
            else:
                r = getattr(m, k)(*a)
        except Err as e:
            r = ['error', str(e)]
        ops.append(o)
        want.append((r or ['n'], m.p, bytes(m.d), other))
    return m, ops, want


EDGES = []
for _k in sorted(INTS):
    _lo, _hi, _n = INTS[_k]
    _vs = {_lo, _lo + 1, _hi - 1, _hi, 0, -1, 1}
    for _b in range(8 * _n):
        _vs |= {2 ** _b, 2 ** _b - 1, -2 ** _b, -2 ** _b + 1}
    EDGES.append((_k, sorted(v for v in _vs if _lo <= v <= _hi)))
again = st.sampled_from(EDGES).flatmap(lambda t: st.sampled_from(t[1]).map(
    lambda v: [['write', t[0], ['i', str(v)]], ['back'], ['read', t[0]]]))
both = write().map(lambda o: [o, ['back'], ['read', o[1]]]
                   if o[1] in TYPES else [o])
ops = st.one_of(op.map(lambda o: [o]), op.map(lambda o: [o]),
                op.map(lambda o: [o]), again, both)


class Stream(Prop):
    modules = ('bstream',)
    quick = 8000
    thorough = 250000
    rule = ('Case: an initial content (bytes, another stream or a file) and '
            '1-18 operations (typed reads and writes, byte order changes, '
            'seeks within the stream, peeks, appends, truncation, '
            'consumption, addition), run on a stream and on a byte buffer '
            'with a cursor; results, errors, contents, position, length are '
            'compared after every operation. Non-trivial: at least one '
            'overwrite, short read, refused value, truncation or '
            'consumption.')
    assumptions = ['seeking outside the stream and reading invalid UTF-8 are '
                   'left to the platform']

    def strategy(self, tier):
        n = 18 if tier == 'quick' else 40
        return st.fixed_dictionaries({
            'init': init, 'ops': st.lists(ops, min_size=1, max_size=n).map(
                lambda l: sum(l, []))})

    def fixed(self, tier):
        # every value at an edge, in every byte order, read back
        for e in ENDIANS:
            for k, vs in EDGES:
                yield {'init': ['none', '', 0], 'ops': [['endian', e]] + sum(
                    [[['write', k, ['i', str(v)]], ['back'], ['read', k]]
                     for v in vs], [])}

    def check(self, w, case):
        if not NATIVE:
            NATIVE.append('little' if w.call('native') == '0100' else 'big')
        m, ops, want = concrete(case)
        out = w.call('bstream', init=case['init'], ops=ops)
        if case['init'][0] in ('stream', 'file', 'stringio'):
            require(out[0][2] == case['init'][2],
                    'making a stream moved the source\'s position')
        for i, ((r, p, d, other), (gr, gs, go)) in enumerate(zip(want, out)):
            what = 'after operation %d %r of %r' % (
                i - 1, ops[i - 1] if i else None, case)
            if r[0] == 'error':
                require(gr[0] == 'error' and r[1] in gr[1],
                        what + ' expected error', r, gr)
            else:
                require(gr == r, what + ' result', gr, r)
            state = [p, len(d), d.hex(), len(d) - p, p == len(d)]
            if i and ops[i - 1][:2] in (['write', 'double'],
                                        ['write', 'float']) and \
                    ops[i - 1][2][0] == 'f' and m_nan(ops[i - 1][2][1]):
                # which NaN is written is not prescribed: leave it there
                require(gs[:2] == state[:2], what + ' state', gs, state)
                return self.verdict(m)
            require(gs == state, what + ' state', gs, state)
            if i and other is not None:
                require(go == other, what + ' changed the other stream', go)
        return self.verdict(m)

    def verdict(self, m):
        return bool(m.feats), sorted(m.feats)


def m_nan(h):
    x = struct.unpack('>d', bytes.fromhex(h))[0]
    return x != x


PROP = Stream()
PROP.id = 'C18'
