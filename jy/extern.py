# Python 2 (Jython): programs of data-output writes, on byte arrays and inside
# externalizable objects.
import struct

import pyamf
from pyamf import amf3

import vals
from vals import f2h, h2f, txt

CHARSETS = {}


def put(o, kind, v, builder):
    if kind == 'v':
        o.writeObject(builder.build(v))
    elif kind == 'bool':
        o.writeBoolean(bool(v))
    elif kind == 'byte':
        o.writeByte(v)
    elif kind == 'ubyte':
        o.writeUnsignedByte(v)
    elif kind == 'short':
        o.writeShort(v)
    elif kind == 'ushort':
        o.writeUnsignedShort(v)
    elif kind == 'int':
        o.writeInt(v)
    elif kind == 'uint':
        o.writeUnsignedInt(v)
    elif kind == 'double':
        o.writeDouble(h2f(v))
    elif kind == 'float':
        o.writeFloat(h2f(v))
    elif kind == 'utf':
        o.writeUTF(v)
    elif kind == 'utf8':
        # the byte string form
        o.writeUTF(v.encode('utf-8'))
    elif kind == 'utfb':
        o.writeUnsignedInt(len(v.encode('utf-8')))
        o.writeUTFBytes(v)
    elif kind == 'utfb8':
        o.writeUnsignedInt(len(v.encode('utf-8')))
        o.writeUTFBytes(v.encode('utf-8'))
    elif kind.startswith('mb:'):
        cs = str(kind[3:])
        o.writeUnsignedInt(len(v.encode(cs)))
        o.writeMultiByte(v, cs)
    else:
        raise AssertionError(kind)


def get(i, kind):
    if kind == 'v':
        return i.readObject()
    if kind == 'bool':
        return i.readBoolean()
    if kind == 'byte':
        return i.readByte()
    if kind == 'ubyte':
        return i.readUnsignedByte()
    if kind == 'short':
        return i.readShort()
    if kind == 'ushort':
        return i.readUnsignedShort()
    if kind == 'int':
        return i.readInt()
    if kind == 'uint':
        return i.readUnsignedInt()
    if kind == 'double':
        return i.readDouble()
    if kind == 'float':
        return i.readFloat()
    if kind in ('utf', 'utf8'):
        return i.readUTF()
    if kind in ('utfb', 'utfb8'):
        return i.readUTFBytes(i.readUnsignedInt())
    if kind.startswith('mb:'):
        return i.readMultiByte(i.readUnsignedInt(), str(kind[3:]))
    raise AssertionError(kind)


class Held(object):
    """A recipe already built, or a plain field."""

    def __init__(self, v):
        self.v = v


class Base(object):
    kinds = ()

    class __amf__:
        external = True
        amf3 = True

    def __writeamf__(self, o):
        for n, k in enumerate(self.kinds):
            put(o, k, getattr(self, 'f%d' % n), PASS)

    def __readamf__(self, i):
        for n, k in enumerate(self.kinds):
            setattr(self, 'f%d' % n, get(i, k))


class Pass(object):
    def build(self, v):
        return v


PASS = Pass()


class E0(Base):
    pass


class E1(Base):
    pass


class E2(Base):
    pass


E = {'E0': E0, 'E1': E1, 'E2': E2}
for _n, _c in E.items():
    pyamf.register_class(_c, 'org.ext.' + _n)


class Builder(vals.Builder):
    def __init__(self):
        vals.Builder.__init__(self)
        self.segments = []
        self.programs = {}      # id(ba) -> steps

    def b_e(self, r):
        c = E[r[1]]
        o = c()
        self.c.append(o)
        for n, (k, v) in enumerate(zip(c.kinds, r[2])):
            setattr(o, 'f%d' % n, self.build(v) if k == 'v' else v)
        return o

    def b_P(self, r):
        ba = amf3.ByteArray()
        self.c.append(ba)
        segs = []
        for k, v in r[1]:
            p = ba.tell()
            b = Builder()
            put(ba, k, v, b)
            segs.append([p, ba.tell()])
        if r[2]:
            ba.compress()
        self.segments.append([ba.getvalue().encode('hex'), segs,
                              ba.tell(), len(ba)])
        self.programs[id(ba)] = r[1]
        return ba


class Dumper(vals.Dumper):
    def __init__(self):
        vals.Dumper.__init__(self)
        self.bas = []

    def dump(self, v):
        if type(v) is amf3.ByteArray and id(v) not in self.ids:
            self.bas.append(v)
        return vals.Dumper.dump(self, v)

    def other(self, v):
        c = v.__class__
        if c in (E0, E1, E2):
            return ['inst', c.__name__, self.pairs(v.__dict__)]
        return vals.Dumper.other(self, v)


def dump(v):
    return Dumper().dump(v)


def dump_all(vs):
    d = Dumper()
    return [d.dump(v) for v in vs]


def readback(ba, steps):
    ba.seek(0)
    out = []
    for k, v in steps:
        out.append(dump(get(ba, k)))
    return [out, bool(ba.at_eof())]


def decode(req, data, n):
    dec = pyamf.get_decoder(req['v'], data)
    return [dec.readElement() for i in range(n)], len(data) - dec.stream.tell()


def op_extern(req):
    for n, ks in req['kinds'].items():
        E[n].kinds = ks
    b = Builder()
    vs = [b.build(r) for r in req['vals']]
    out = {'segments': b.segments}
    src = Dumper()
    [src.dump(v) for v in vs]
    enc = pyamf.get_encoder(req['v'])
    try:
        for v in vs:
            enc.writeElement(v)
    except vals.ERRORS, e:
        return {'enc_error': vals.err(e), 'msg': vals.msg(e)}
    data = enc.stream.getvalue()
    out['hex'] = data.encode('hex')
    try:
        res, out['left'] = decode(req, data, len(vs))
        d = Dumper()
        out['vals'] = [d.dump(v) for v in res]
    except vals.ERRORS, e:
        out['dec_error'] = vals.err(e)
        out['msg'] = vals.msg(e)
        return out
    try:
        back = []
        if len(d.bas) == len(src.bas):
            for x, y in zip(src.bas, d.bas):
                steps = b.programs.get(id(x))
                if steps is not None:
                    back.append([readback(x, steps), readback(y, steps)])
        out['back'] = back
        out['bas'] = [len(src.bas), len(d.bas)]
    except vals.ERRORS, e:
        out['read_error'] = vals.err(e)
        out['msg'] = vals.msg(e)
    return out


def op_extdecode(req):
    for n, ks in req['kinds'].items():
        E[n].kinds = ks
    data = req['hex'].decode('hex')
    try:
        res, left = decode(req, data, req['n'])
    except vals.ERRORS, e:
        return {'dec_error': vals.err(e), 'msg': vals.msg(e)}
    return {'vals': dump_all(res), 'left': left}


def op_extread(req):
    ba = amf3.ByteArray(req['hex'].decode('hex'))
    try:
        if req['kind'] == 'utf':
            v = ba.readUTF()
        else:
            v = get(ba, req['kind'])
    except UnicodeError, e:
        return {'unicode': vals.err(e)}
    except Exception, e:
        return {'error': vals.err(e), 'msg': vals.msg(e)}
    return {'text': dump(v), 'left': ba.remaining()}


OPS = {'extern': op_extern, 'extread': op_extread,
       'extdecode': op_extdecode}
