"""Independent Python 3 model of values, of what each format carries, and of
what decoding must give back.

Three domains:
  recipe  JSON description from which the Jython worker builds Python 2 values
  wire    what an AMF item denotes (W nodes with identity, tuples otherwise)
  value   what Python must see after decoding (N nodes with identity)

recipe --enc0/enc3--> wire --dec0/dec3--> value
"""
import datetime
import re
import math
import struct

# mirrored in jy/vals.py
CLASSES = {
    # name: (alias or None, static attrs in wire order, dynamic, external)
    'Plain': ('org.test.Plain', [], True, False),
    'Old': ('Old', [], True, False),
    'Static': ('org.test.Static', ['a', 'b'], False, False),
    'SD': ('org.test.SD', ['s1', 's2'], True, False),
    'Slots': ('org.test.Slots', [], False, False),
    'Kid': ('org.test.Kid', ['k', 's1', 's2'], True, False),
    'Ext': ('org.test.Ext', [], True, True),
    'Uni': ('caf\xe9.Cl\u20ac', [], True, False),
    'Anon': (None, [], True, False),
    'AnonOld': (None, [], True, False),
}
for _i in range(64):
    CLASSES['K%d' % _i] = ('org.test.K%d' % _i, [], True, False)
BY_ALIAS = {v[0]: k for k, v in CLASSES.items() if v[0]}
AC = 'flex.messaging.io.ArrayCollection'
OP = 'flex.messaging.io.ObjectProxy'
# externalizable classes: field kinds on the wire
EXT_FIELDS = {AC: ['v'], OP: ['v'],
              'org.test.Ext': ['v', 'utf', 'int', 'v', 'double']}
# compact Flex messages: parts, and the flags defined in each flag byte
_ABSTRACT, _ASYNC = (0x7f, 0x03), (0x03,)
SMALL = {'DSA': [_ABSTRACT, _ASYNC], 'DSK': [_ABSTRACT, _ASYNC, (0,)],
         'DSC': [_ABSTRACT, _ASYNC, (1,)]}

EPOCH = datetime.datetime(1970, 1, 1)


class N(object):
    """Python value node. kind: list obj mixed inst typed ac proxy ba xml."""
    __slots__ = ('kind', 'name', 'items', 'pairs', 'data')

    def __init__(self, kind, name=None):
        self.kind = kind
        self.name = name
        self.items = []
        self.pairs = []
        self.data = None


class W(object):
    """Wire node. kind: arr ecma obj date xml ba."""
    __slots__ = ('kind', 'cls', 'assoc', 'dense', 'sealed', 'dyn', 'ext',
                 'data', 'hint')

    def __init__(self, kind):
        self.kind = kind
        self.cls = ''
        self.assoc = []
        self.dense = []
        self.sealed = []
        self.dyn = None
        self.ext = None
        self.data = None
        self.hint = None


def f2h(x):
    if x != x:
        return 'nan'
    return struct.pack('>d', x).hex()


def h2f(h):
    return float('nan') if h == 'nan' else struct.unpack('>d',
                                                         bytes.fromhex(h))[0]


def date_us(y, mo, d, h=0, mi=0, s=0, us=0):
    t = datetime.datetime(y, mo, d, h, mi, s, us) - EPOCH
    return (t.days * 86400 + t.seconds) * 1000000 + t.microseconds


MAX29 = 0x0fffffff
MIN29 = -0x10000000


# ------------------------------------------------------------ recipe parsing

class Refs(object):
    """Resolves recipes to a graph of R nodes so that sharing is explicit."""

    def __init__(self):
        self.c = []

    def parse(self, r):
        t = r[0]
        if t in ('l', 'ac'):
            n = R(t)
            self.c.append(n)
            n.items = [self.parse(x) for x in r[1]]
            return n
        if t == 't':
            n = R('t')
            n.items = [self.parse(x) for x in r[1]]
            return n
        if t in ('m', 'o', 'M'):
            n = R(t)
            self.c.append(n)
            n.pairs = [(k, self.parse(v)) for k, v in r[1]]
            return n
        if t == 'c':
            n = R(t)
            n.name = r[1]
            self.c.append(n)
            n.pairs = [(k, self.parse(v)) for k, v in r[2]]
            return n
        if t == 'B':
            n = R(t)
            n.data = (r[1], r[2])
            self.c.append(n)
            return n
        if t == 'op':
            n = R(t)
            self.c.append(n)
            n.items = [self.parse(r[1])]
            return n
        if t == 'x':
            n = R(t)
            n.data = r[1]
            return n
        if t == 'r':
            if not self.c:
                return ('n',)
            return self.c[r[1] % len(self.c)]
        return tuple(r)


class R(object):
    __slots__ = ('t', 'items', 'pairs', 'name', 'data')

    def __init__(self, t):
        self.t = t
        self.items = []
        self.pairs = []
        self.name = None
        self.data = None


def parse_all(rs):
    p = Refs()
    return [p.parse(r) for r in rs]


# ------------------------------------------------------------ encode maps

class CannotEncode(Exception):
    pass


class Enc(object):
    """Expected wire graph of a recipe graph; `ver` 0 or 3. One instance per
    encoder (identity is kept across values)."""

    def __init__(self, ver, tz=0, proxies=False):
        self.ver = ver
        self.tz = tz or 0
        self.proxies = proxies
        self.memo = {}
        self.keep = []
        self.sub = None
        if ver == 0:
            self.sub = Enc(3, tz)

    def node(self, r, kind):
        w = W(kind)
        self.memo[id(r)] = w
        self.keep.append(r)
        return w

    def key(self, k):
        if isinstance(k, int):
            k = str(k)
        if isinstance(k, list):
            raise CannotEncode('key is not text')
        if self.ver == 3 and k == '':
            raise CannotEncode('empty key')
        if self.ver == 0 and len(k.encode('utf-8')) > 0xffff:
            raise CannotEncode('long key')
        return k

    def pairs(self, ps):
        return [(self.key(k), self.enc(v)) for k, v in ps]

    def date(self, us):
        us -= self.tz * 1000000
        w = W('date')
        w.data = us / 1000.0
        return w

    def enc(self, r):
        if isinstance(r, tuple):
            return self.prim(r)
        if id(r) in self.memo:
            return self.memo[id(r)]
        t = r.t
        if self.ver == 0 and t in ('B', 'ac', 'op'):
            return ('amf3', self.sub.enc(r))
        if self.proxies and t in ('l', 't'):
            t = 'ac'
        if self.proxies and t in ('m', 'o', 'M'):
            w = self.node(r, 'obj')
            w.cls = OP
            w.ext = [self.bare(r)]
            return w
        if t in ('l', 't'):
            w = self.node(r, 'arr')
            w.dense = [self.enc(x) for x in r.items]
            return w
        if t in ('m', 'o'):
            w = self.node(r, 'obj')
            w.dyn = self.pairs(r.pairs)
            return w
        if t == 'M':
            if self.ver == 0:
                w = self.node(r, 'ecma')
                w.assoc = self.pairs(r.pairs)
                ints = [k for k, v in r.pairs if isinstance(k, int)]
                w.hint = max([0] + ints)
                return w
            w = self.node(r, 'arr')
            ints = sorted(k for k, v in r.pairs if isinstance(k, int))
            n = 0
            for x in ints:
                if x == n:
                    n += 1
            dense = {}
            for k, v in r.pairs:
                if isinstance(k, int) and 0 <= k < n:
                    dense[k] = v
                else:
                    w.assoc.append((self.key(k), None))
            w.assoc = [(self.key(k), self.enc(v)) for k, v in r.pairs
                       if not (isinstance(k, int) and 0 <= k < n)]
            w.dense = [self.enc(dense[i]) for i in range(n)]
            return w
        if t == 'c':
            return self.inst(r)
        if t == 'x':
            w = self.node(r, 'xml')
            w.data = xmlnorm(r.data)
            return w
        if t == 'B':
            w = self.node(r, 'ba')
            w.data = (r.data[0], bool(r.data[1]))
            return w
        if t == 'ac':
            w = self.node(r, 'obj')
            w.cls = AC
            inner = W('arr')
            self.keep.append(inner)
            inner.dense = [self.enc(x) for x in r.items]
            w.ext = [inner]
            return w
        if t == 'op':
            w = self.node(r, 'obj')
            w.cls = OP
            x = r.items[0]
            if self.proxies and getattr(x, 't', None) in ('m', 'o', 'M'):
                w.ext = [self.bare(x)]
            else:
                w.ext = [self.enc(x)]
            return w
        raise AssertionError(t)

    def bare(self, r):
        """What a proxy holds: the dictionary itself."""
        k = ('bare', id(r))
        if k in self.memo:
            return self.memo[k]
        w = W('obj')
        self.memo[k] = w
        self.keep.append(r)
        w.dyn = self.pairs(r.pairs)
        return w

    def inst(self, r):
        alias, static, dynamic, external = CLASSES[r.name]
        w = self.node(r, 'obj')
        w.cls = alias or ''
        attrs = {}
        for k, v in r.pairs:
            attrs[k] = v
        if external:
            d = {'a': ('n',), 'b': ('n',), 't': ('s', ''), 'n': ('i', '0'),
                 'd': ('f', f2h(0.0))}
            d.update(attrs)
            w.ext = [self.enc(d['a']), ('utf', d['t'][1]),
                     ('int', int(d['n'][1])), self.enc(d['b']),
                     ('double', f2h(h2f(d['d'][1])))]
            return w
        if r.name == 'Slots':
            names = ['p', 'q']
            w.dyn = [(k, self.enc(attrs[k])) for k in names if k in attrs]
            return w
        for k in static:
            w.sealed.append((k, self.enc(attrs[k]) if k in attrs
                             else ('undef',)))
        if dynamic:
            w.dyn = [(self.key(k), self.enc(v)) for k, v in r.pairs
                     if k not in static]
        return w

    def prim(self, r):
        t = r[0]
        if t == 'n':
            return ('null',)
        if t == 'u':
            return ('undef',)
        if t == 'b':
            return ('bool', int(bool(r[1])))
        if t in ('i', 'L'):
            n = int(r[1])
            if self.ver == 3 and MIN29 <= n <= MAX29:
                return ('int', str(n))
            return ('num', f2h(float(n)))
        if t == 'f':
            return ('num', r[1])
        if t in ('s', 'y'):
            return ('str', r[1])
        if t in ('d', 'D'):
            return self.date(date_us(*r[1:]))
        raise AssertionError(r)


def xmlnorm(t):
    return [t[0], sorted([k, v] for k, v in t[1]), t[2] or '',
            [xmlnorm(c) for c in t[3]], t[4] or '']


# ------------------------------------------------------------ decode maps

class MissingStatic(Exception):
    pass


class Dec(object):
    """Expected Python value graph of a wire graph."""

    def __init__(self, ver, tz=0, classes=None, proxies=False):
        self.ver = ver
        self.tz = tz or 0
        self.proxies = proxies
        self.memo = {}
        self.keep = []
        self.sub = Dec(3, tz, classes) if ver == 0 else None
        self.classes = CLASSES if classes is None else classes
        self.by_alias = {v[0]: k for k, v in self.classes.items() if v[0]}

    def node(self, w, kind, name=None):
        n = N(kind, name)
        self.memo[id(w)] = n
        self.keep.append(w)
        return n

    def dec(self, w):
        if isinstance(w, tuple):
            return self.prim(w)
        if id(w) in self.memo:
            return self.memo[id(w)]
        k = w.kind
        if k == 'date':
            us = int(round(w.data * 1000)) + self.tz * 1000000
            return ('date', str(us))
        if k == 'xml':
            n = self.node(w, 'xml')
            n.data = w.data
            return n
        if k == 'ba':
            n = self.node(w, 'ba')
            n.data = w.data
            return n
        if k == 'arr':
            if not w.assoc:
                n = self.node(w, 'list')
                n.items = [self.dec(x) for x in w.dense]
                return n
            n = self.node(w, 'mixed')
            d = {}
            for key, v in w.assoc:
                d[key] = self.dec(v)
            for i, v in enumerate(w.dense):
                d[i] = self.dec(v)
            n.pairs = list(d.items())
            return n
        if k == 'ecma':
            n = self.node(w, 'mixed')
            d = {}
            for key, v in w.assoc:
                d[intkey(key)] = self.dec(v)
            n.pairs = list(d.items())
            return n
        if k == 'obj':
            return self.obj(w)
        raise AssertionError(k)

    def obj(self, w):
        if self.proxies and w.cls == OP:
            return self.dec(w.ext[0])
        if w.cls == AC:
            n = self.node(w, 'list' if self.proxies else 'ac')
            inner = self.dec(w.ext[0])
            n.items = inner.items
            return n
        if w.cls == OP:
            n = self.node(w, 'proxy')
            n.items = [self.dec(w.ext[0])]
            return n
        if w.cls == '':
            n = self.node(w, 'obj')
        elif w.cls in self.by_alias:
            name = self.by_alias[w.cls]
            n = self.node(w, 'inst', name)
            if self.classes[name][3]:
                e = w.ext
                n.pairs = [('a', self.dec(e[0])), ('t', ('str', e[1][1])),
                           ('n', ('int', str(e[2][1]))),
                           ('b', self.dec(e[3])), ('d', ('num', e[4][1]))]
                return n
        else:
            n = self.node(w, 'typed', w.cls)
        d = {}
        for key, v in w.sealed:
            d[key] = self.dec(v)
        for key, v in (w.dyn or []):
            d[key] = self.dec(v)
        if n.kind == 'inst':
            alias, static, dynamic, _ = self.classes[n.name]
            if not all(s in d for s in static):
                raise MissingStatic(n.name)
            if n.name == 'Slots':
                d = {a: b for a, b in d.items() if a in ('p', 'q')}
            elif not dynamic:
                d = {a: b for a, b in d.items() if a in static}
        n.pairs = list(d.items())
        return n

    def prim(self, w):
        t = w[0]
        if t == 'amf3':
            return self.sub.dec(w[1])
        if t == 'num' and self.ver == 0:
            x = h2f(w[1])
            if x == x and not math.isinf(x) and x == math.floor(x):
                return ('int', str(int(x)))
            return w
        return w


def intkey(k):
    """Keys of AMF0 associative arrays: canonical decimal integers become
    integer keys, everything else stays text."""
    try:
        n = int(k)
    except ValueError:
        return k
    return n if str(n) == k else k


# ------------------------------------------------------------ dumps

class NDump(object):
    def __init__(self):
        self.ids = {}
        self.keep = []

    def pairs(self, ps):
        def sk(kv):
            return (0, kv[0], b'') if isinstance(kv[0], int) else \
                (1, 0, kv[0].encode('utf-8', 'surrogatepass'))
        return [[['#', str(k)] if isinstance(k, int) else k, self.dump(v)]
                for k, v in sorted(ps, key=sk)]

    def dump(self, v):
        if isinstance(v, tuple):
            return list(v)
        if id(v) in self.ids:
            return ['ref', self.ids[id(v)]]
        self.ids[id(v)] = len(self.ids)
        self.keep.append(v)
        k = v.kind
        if k in ('list', 'ac'):
            return [k, [self.dump(x) for x in v.items]]
        if k in ('obj', 'mixed', 'dict'):
            return [k, self.pairs(v.pairs)]
        if k in ('inst', 'typed'):
            return [k, v.name, self.pairs(v.pairs)]
        if k == 'proxy':
            return [k, self.dump(v.items[0])]
        if k == 'ba':
            return [k, v.data[0], int(v.data[1])]
        if k == 'xml':
            return [k, v.data]
        raise AssertionError(k)


def dump_values(vs):
    d = NDump()
    return [d.dump(v) for v in vs]


class WDump(object):
    """Canonical form of wire graphs: members are unordered, AMF0 does not
    tell sealed from dynamic ones, the length hint of AMF0 associative arrays
    means nothing, dates have no identity."""

    def __init__(self, ver):
        self.ids = {}
        self.keep = []
        self.ver = ver

    def pairs(self, ps):
        return [[k, self.dump(v)] for k, v in
                sorted(ps, key=lambda kv: kv[0].encode('utf-8'))]

    def dump(self, v):
        if isinstance(v, tuple):
            if v[0] == 'amf3':
                ver, self.ver = self.ver, 3
                try:
                    return ['amf3', self.dump(v[1])]
                finally:
                    self.ver = ver
            return list(v)
        if v.kind == 'date':
            return ['date', v.data]
        if id(v) in self.ids:
            return ['ref', self.ids[id(v)]]
        self.ids[id(v)] = len(self.ids)
        self.keep.append(v)
        k = v.kind
        if k == 'arr':
            return ['arr', self.pairs(v.assoc), [self.dump(x) for x in v.dense]]
        if k == 'ecma':
            return ['ecma', self.pairs(v.assoc)]
        if k == 'obj':
            if v.ext is not None:
                return ['ext', v.cls, [self.dump(x) for x in v.ext]]
            if self.ver == 0:
                return ['object', v.cls, self.pairs(v.sealed + (v.dyn or []))]
            return ['object', v.cls,
                    self.pairs(v.sealed),
                    None if v.dyn is None else self.pairs(v.dyn)]
        if k == 'xml':
            return ['xml', v.data]
        if k == 'ba':
            return ['ba', v.data[0], int(v.data[1])]
        raise AssertionError(k)


def dump_wires(ws, ver):
    d = WDump(ver)
    return [d.dump(w) for w in ws]


# ------------------------------------------------------------ comparison

DIGITS = re.compile(r'-?\d+$')


def diff(a, b, path='', tol_us=1000):
    """None if equal (dates within tol), else a description."""
    if isinstance(a, list) and isinstance(b, list):
        if a[:1] == ['date'] and b[:1] == ['date'] and \
                len(a) == len(b) == 2 and type(a[1]) is type(b[1]) and \
                (isinstance(a[1], float) or (
                    isinstance(a[1], str) and DIGITS.match(a[1]) and
                    DIGITS.match(b[1]))):
            if isinstance(a[1], str):
                ok = abs(int(a[1]) - int(b[1])) <= tol_us
            else:
                ok = abs(a[1] - b[1]) <= tol_us / 1000.0
            return None if ok else '%s: date %s != %s' % (path, a[1], b[1])
        if len(a) != len(b):
            return '%s: length %d != %d: %r != %r' % (
                path, len(a), len(b), trim(a), trim(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s/%d' % (path, i), tol_us)
            if d:
                return d
        return None
    if a != b or type(a) is not type(b):
        return '%s: %s != %s' % (path, trim(a), trim(b))
    return None


def trim(x):
    s = ascii(x)
    return s if len(s) < 300 else s[:300] + '...'
