# Python 2 (Jython): build values from recipes, dump values canonically.
import datetime
import struct

import pyamf
from pyamf import amf0, amf3, util
from pyamf.flex import ArrayCollection, ObjectProxy
from pyamf import xml as pxml
from xml.etree import ElementTree as ET


# ---- fixture classes (mirrored in pbt/model.py)

class Plain(object):
    pass


class Old:
    pass


class Static(object):
    class __amf__:
        static = ('b', 'a')
        dynamic = False


class SD(object):
    class __amf__:
        static = ('s2', 's1')


class Slots(object):
    __slots__ = ('p', 'q')


class Kid(SD):
    class __amf__:
        static = ('k',)


class Ext(object):
    class __amf__:
        external = True

    def __init__(self):
        self.a = self.b = None
        self.t = u''
        self.n = 0
        self.d = 0.0

    def __writeamf__(self, o):
        o.writeObject(self.a)
        o.writeUTF(self.t)
        o.writeInt(self.n)
        o.writeObject(self.b)
        o.writeDouble(self.d)

    def __readamf__(self, i):
        self.a = i.readObject()
        self.t = i.readUTF()
        self.n = i.readInt()
        self.b = i.readObject()
        self.d = i.readDouble()


class Uni(object):
    pass


class Anon(object):
    pass


class AnonOld:
    pass


CLASSES = {
    'Plain': (Plain, 'org.test.Plain'),
    'Old': (Old, 'Old'),
    'Static': (Static, 'org.test.Static'),
    'SD': (SD, 'org.test.SD'),
    'Slots': (Slots, 'org.test.Slots'),
    'Kid': (Kid, 'org.test.Kid'),
    'Ext': (Ext, 'org.test.Ext'),
    'Uni': (Uni, u'caf\xe9.Cl\u20ac'),
    'Anon': (Anon, None),
    'AnonOld': (AnonOld, None),
}
for _i in range(64):
    CLASSES['K%d' % _i] = (type('K%d' % _i, (object,), {}), 'org.test.K%d' % _i)
NAMES = dict((c, n) for n, (c, a) in CLASSES.items())

for _c, _a in CLASSES.values():
    if _a is not None:
        pyamf.register_class(_c, _a)


def f2h(x):
    if x != x:
        return 'nan'
    return struct.pack('>d', x).encode('hex')


def h2f(h):
    if h == 'nan':
        return float('nan')
    return struct.unpack('>d', h.decode('hex'))[0]


def mkxml(t):
    e = ET.Element(t[0], dict((k, v) for k, v in t[1]))
    e.text = t[2] or None
    for c in t[3]:
        e.append(mkxml(c))
    e.tail = t[4] or None
    return e


def u8(s):
    if isinstance(s, unicode):
        return s.encode('utf-8')
    return s


# keys no format can carry
ODD_KEYS = {'tuple': (1, 2), 'none': None, 'float': 1.5, 'empty': (),
            'nested': ('a', ('b',)), 'frozen': frozenset(['x'])}


def mkkey(k):
    if isinstance(k, list):
        return ODD_KEYS[k[0]]
    return k


class Builder(object):
    def __init__(self):
        self.c = []

    def build(self, r):
        return getattr(self, 'b_' + r[0])(r)

    def b_n(self, r):
        return None

    def b_u(self, r):
        return pyamf.Undefined

    def b_b(self, r):
        return bool(r[1])

    def b_i(self, r):
        return int(r[1])

    def b_L(self, r):
        return long(r[1])

    def b_f(self, r):
        return h2f(r[1])

    def b_s(self, r):
        return r[1]

    def b_y(self, r):
        return r[1].encode('utf-8')

    def b_d(self, r):
        return datetime.datetime(*r[1:])

    def b_D(self, r):
        return datetime.date(*r[1:])

    def _items(self, items):
        return [self.build(x) for x in items]

    def b_l(self, r):
        o = []
        self.c.append(o)
        o.extend(self._items(r[1]))
        return o

    def b_t(self, r):
        o = tuple(self._items(r[1]))
        return o

    def _pairs(self, o, pairs):
        for k, v in pairs:
            o[mkkey(k)] = self.build(v)
        return o

    def b_m(self, r):
        o = {}
        self.c.append(o)
        return self._pairs(o, r[1])

    def b_o(self, r):
        o = pyamf.ASObject()
        self.c.append(o)
        return self._pairs(o, r[1])

    def b_M(self, r):
        o = pyamf.MixedArray()
        self.c.append(o)
        return self._pairs(o, r[1])

    def b_c(self, r):
        o = CLASSES[r[1]][0]()
        self.c.append(o)
        for k, v in r[2]:
            setattr(o, k, self.build(v))
        return o

    def b_x(self, r):
        return mkxml(r[1])

    def b_B(self, r):
        o = amf3.ByteArray(r[1].decode('hex'))
        o.compressed = bool(r[2])
        self.c.append(o)
        return o

    def b_ac(self, r):
        o = ArrayCollection()
        self.c.append(o)
        o.extend(self._items(r[1]))
        return o

    def b_op(self, r):
        o = ObjectProxy()
        self.c.append(o)
        o._amf_object = self.build(r[1])
        return o

    def b_r(self, r):
        if not self.c:
            return None
        return self.c[r[1] % len(self.c)]


def build(r):
    return Builder().build(r)


def build_all(rs):
    b = Builder()
    return [b.build(r) for r in rs]


EPOCH = datetime.datetime(1970, 1, 1)


def date_us(d):
    if not isinstance(d, datetime.datetime):
        d = datetime.datetime(d.year, d.month, d.day)
    t = d - EPOCH
    return (t.days * 86400 + t.seconds) * 1000000 + t.microseconds


def dumpxml(e):
    return [txt(e.tag), sorted([txt(k), txt(v)] for k, v in e.items()),
            txt(e.text or ''), [dumpxml(c) for c in list(e)],
            txt(e.tail or '')]


def txt(s):
    if isinstance(s, unicode):
        return s
    try:
        return s.decode('utf-8')
    except UnicodeDecodeError:
        return u'<raw:%s>' % s.encode('hex')


def sortkey(kv):
    k = kv[0]
    if isinstance(k, (int, long)) and not isinstance(k, bool):
        return (0, k)
    return (1, u8(k))


class Dumper(object):
    """Canonical form of a Python value; containers are numbered in order of
    first visit and shown as ["ref", n] afterwards."""

    def __init__(self):
        self.ids = {}
        self.keep = []

    def visit(self, o):
        i = id(o)
        if i in self.ids:
            return self.ids[i]
        self.ids[i] = len(self.ids)
        self.keep.append(o)
        return None

    def pairs(self, d):
        out = []
        for k, v in sorted(d.items(), key=sortkey):
            if isinstance(k, bool):
                k = u'<bool %r>' % k
            elif isinstance(k, (int, long)):
                k = ['#', str(k)]
            elif isinstance(k, basestring):
                k = txt(k)
            else:
                k = u'<%r>' % (k,)
            out.append([k, self.dump(v)])
        return out

    def dump(self, v):
        t = type(v)
        if v is None:
            return ['null']
        if v is pyamf.Undefined:
            return ['undef']
        if t is bool:
            return ['bool', int(v)]
        if t in (int, long):
            return ['int', str(v)]
        if t is float:
            return ['num', f2h(v)]
        if t is unicode:
            return ['str', v]
        if t is str:
            # text is decoded to unicode
            return ['bytes', v.encode('hex')] if v else ['str', u'']
        if t is datetime.datetime:
            return ['date', str(date_us(v))]
        if t is datetime.date:
            return ['day', str(v)]
        if t is tuple:
            return ['tuple', [self.dump(x) for x in v]]
        n = self.visit(v)
        if n is not None:
            return ['ref', n]
        if t is list:
            return ['list', [self.dump(x) for x in v]]
        if t is pyamf.ASObject:
            return ['obj', self.pairs(v)]
        if t is dict:
            return ['dict', self.pairs(v)]
        if t is pyamf.MixedArray:
            return ['mixed', self.pairs(v)]
        if t is pyamf.TypedObject:
            return ['typed', txt(v.alias), self.pairs(v)]
        if t is ArrayCollection:
            return ['ac', [self.dump(x) for x in v]]
        if t is ObjectProxy:
            return ['proxy', self.dump(v._amf_object)]
        if t is amf3.ByteArray:
            return ['ba', v.getvalue().encode('hex'), int(bool(v.compressed))]
        if pxml.is_xml(v):
            return ['xml', dumpxml(v)]
        return self.other(v)

    def other(self, v):
        cls = v.__class__
        name = NAMES.get(cls)
        if name is None:
            try:
                r = repr(v)[:200]
            except Exception:
                r = '?'
            return ['unknown', '%s.%s' % (cls.__module__, cls.__name__), r]
        d = {}
        if hasattr(v, '__dict__'):
            d.update(v.__dict__)
        for s in getattr(cls, '__slots__', ()):
            if hasattr(v, s):
                d[s] = getattr(v, s)
        return ['inst', name, self.pairs(d)]


def dump(v):
    return Dumper().dump(v)


def dump_all(vs):
    d = Dumper()
    return [d.dump(v) for v in vs]


def td(seconds):
    if seconds is None:
        return None
    return datetime.timedelta(seconds=seconds)


try:
    # Jython's XML parser lets some of these through
    from java.lang import RuntimeException
    ERRORS = (Exception, RuntimeException)
except ImportError:
    ERRORS = (Exception,)


def err(e):
    """Name an exception by the most specific documented class."""
    for c, n in ((pyamf.EOStream, 'EOStream'),
                 (pyamf.ReferenceError, 'ReferenceError'),
                 (pyamf.DecodeError, 'DecodeError'),
                 (pyamf.EncodeError, 'EncodeError'),
                 (pyamf.UnknownClassAlias, 'UnknownClassAlias')):
        if isinstance(e, c):
            return n
    return e.__class__.__name__


def msg(e):
    try:
        return unicode(e)[:300]
    except:
        pass
    try:
        return repr(e)[:300].decode('latin-1')
    except:
        return u'?'


def encoder(ver, req):
    kw = {}
    if req.get('tz') is not None:
        kw['timezone_offset'] = td(req['tz'])
    if req.get('strict'):
        kw['strict'] = True
    if req.get('proxies') is not None and ver == 3:
        kw['use_proxies'] = bool(req['proxies'])
    return pyamf.get_encoder(ver, **kw)


def decoder(ver, data, req):
    kw = {}
    if req.get('tz') is not None:
        kw['timezone_offset'] = td(req['tz'])
    if req.get('strict'):
        kw['strict'] = True
    if req.get('proxies') is not None and ver == 3:
        kw['use_proxies'] = bool(req['proxies'])
    for f in ('forbid_dtd', 'forbid_entities'):
        if req.get(f) is not None:
            kw[f] = bool(req[f])
    return pyamf.get_decoder(ver, data, **kw)


def op_roundtrip(req):
    """Encode values with one encoder, decode them with one decoder."""
    ver = req['v']
    vals = build_all(req['vals'])
    before = dump_all(vals) if req.get('pure') else None
    enc = encoder(ver, req)
    try:
        for v in vals:
            enc.writeElement(v)
    except ERRORS, e:
        return {'enc_error': err(e), 'msg': msg(e)}
    data = enc.stream.getvalue()
    out = {'hex': data.encode('hex')}
    if before is not None:
        out['before'] = before
        out['after'] = dump_all(vals)
    dec = decoder(ver, data, req)
    res = []
    try:
        for i in range(len(vals)):
            res.append(dec.readElement())
    except ERRORS, e:
        out['dec_error'] = err(e)
        out['msg'] = msg(e)
        out['at'] = len(res)
        return out
    out['left'] = len(data) - dec.stream.tell()
    out['vals'] = dump_all(res)
    return out


def op_encode(req):
    ver = req['v']
    vals = build_all(req['vals'])
    enc = encoder(ver, req)
    try:
        for v in vals:
            enc.writeElement(v)
    except ERRORS, e:
        return {'enc_error': err(e), 'msg': msg(e)}
    return {'hex': enc.stream.getvalue().encode('hex')}


def op_decode(req):
    """Decode up to n values from bytes."""
    data = req['hex'].decode('hex')
    dec = decoder(req['v'], data, req)
    res = []
    out = {}
    try:
        for i in range(req.get('n', 1)):
            res.append(dec.readElement())
    except ERRORS, e:
        out['dec_error'] = err(e)
        out['msg'] = msg(e)
        out['at'] = len(res)
    out['pos'] = dec.stream.tell()
    out['left'] = len(data) - dec.stream.tell()
    out['vals'] = dump_all(res)
    return out


def build_graph(nodes):
    """nodes: [kind, [[key, target]...]]; a target is a node index or a
    scalar recipe; containers are made first, then filled."""
    objs = []
    for n in nodes:
        k = n[0]
        if k == 'l':
            o = []
        elif k == 'm':
            o = {}
        elif k == 'o':
            o = pyamf.ASObject()
        elif k == 'M':
            o = pyamf.MixedArray()
        elif k == 'ac':
            o = ArrayCollection()
        elif k == 'op':
            o = ObjectProxy()
        elif k == 'B':
            o = amf3.ByteArray(n[1].decode('hex'))
            o.compressed = bool(n[2])
        elif k == 'd':
            o = datetime.datetime(*n[1])
        elif k == 'x':
            o = Builder().build(['x', n[1]])
        else:
            o = CLASSES[k][0]()
        objs.append(o)
    b = Builder()
    for n, o in zip(nodes, objs):
        k = n[0]
        if k in ('B', 'd', 'x'):
            continue
        for key, t in n[1]:
            v = objs[t] if isinstance(t, int) else b.build(t)
            if k in ('l', 'ac'):
                o.append(v)
            elif k in ('m', 'o', 'M'):
                o[key] = v
            elif k == 'op':
                o._amf_object = v
            else:
                setattr(o, key, v)
    return objs


def op_graph(req):
    """Encode nodes of an object graph with one encoder, decode with one."""
    ver = req['v']
    objs = build_graph(req['nodes'])
    vals = [objs[i] for i in req['roots']]
    before = dump_all(vals)
    enc = encoder(ver, req)
    for v in vals:
        enc.writeElement(v)
    data = enc.stream.getvalue()
    dec = decoder(ver, data, req)
    res = []
    try:
        for i in range(len(vals)):
            res.append(dec.readElement())
    except ERRORS, e:
        return {'hex': data.encode('hex')[:2000], 'dec_error': err(e),
                'msg': msg(e), 'at': len(res)}
    return {'hex': data.encode('hex')[:2000], 'vals': dump_all(res),
            'before': before, 'after': dump_all(vals),
            'left': len(data) - dec.stream.tell()}


OPS = {
    'graph': op_graph,
    'roundtrip': op_roundtrip,
    'encode': op_encode,
    'decode': op_decode,
}
