"""Independent reader and writer of AMF remoting envelopes."""
import struct

from . import amfref
from .amfref import Bad

SUFFIX = [(0, '/onResult'), (1, '/onStatus'), (2, '/onDebugEvents')]


def utf(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        raise Bad('text', 'utf-8')


class Body(object):
    """kind: req or res. id, target (req), status (res), response (the text
    in the response field), args (req) or value (res), length as stated, size
    in fact, form (the marker a request body starts with)."""


class Env(object):
    def __init__(self):
        self.ver = None
        self.headers = []       # [name, required, value, stated, size]
        self.bodies = []
        self.left = 0


def parse(data, strict=False, seen=None):
    """strict: lengths must be exact and nothing may follow."""
    r = amfref.Reader(data)
    e = Env()
    if seen is not None:
        r.seen = seen
    e.ver = r.u16()
    if e.ver > 9:
        raise Bad('version', e.ver)
    for i in range(r.u16()):
        name = utf(r.take(r.u16()))
        req = r.u8()
        n = r.u32()
        at = r.p
        v = amfref.Ref0Decoder(r).value()
        if strict and r.p - at != n:
            raise Bad('length', 'header %d' % i)
        e.headers.append([name, req, v, n, r.p - at])
    for i in range(r.u16()):
        b = Body()
        target = utf(r.take(r.u16()))
        b.response = utf(r.take(r.u16()))
        b.kind = 'req'
        for code, s in SUFFIX:
            if target.endswith(s):
                b.kind = 'res'
                b.status = code
                b.id = target[:-len(s)]
                break
        else:
            b.target, b.id = target, b.response
        b.length = r.u32()
        at = r.p
        d = amfref.Ref0Decoder(r)
        if b.kind == 'req':
            b.form = r.u8()
            if b.form == 0x11:
                if e.ver != 3:
                    raise Bad('form', 'AMF3 arguments')
                r.p -= 1
                b.args = d.value()
            elif b.form == 0x0a:
                b.args = []
                for _ in range(r.u32()):
                    b.args.append(d.value())
            else:
                raise Bad('form', '%02x' % b.form)
        else:
            b.value = d.value()
        b.size = r.p - at
        if strict and b.size != b.length:
            raise Bad('length', 'body %d' % i)
        e.bodies.append(b)
    e.left = len(data) - r.p
    e.pos = r.p
    if strict and e.left:
        raise Bad('left')
    return e


def u16(b):
    return struct.pack('>H', len(b)) + b


def text(s):
    return u16(s.encode('utf-8'))


def length(how, n):
    """how: 'exact', or a number added to it, or None for unknown."""
    if how is None:
        n = 0
    elif how == 'ff':
        n = 0xffffffff
    elif how != 'exact':
        n = (n + how) % 2 ** 32
    return struct.pack('>I', n)


def write(ver, headers, bodies, counts=(0, 0)):
    """headers: [name, required byte, wire, how], bodies:
    ['req', id, target, [wires] or one ('amf3', ..) wire, how] or
    ['res', id, status, wire, how, response]."""
    out = struct.pack('>HH', ver, len(headers) + counts[0])
    for name, req, wire, how in headers:
        e = amfref.Ref0Encoder()
        e.value(wire)
        v = bytes(e.out)
        out += text(name) + bytes([req]) + length(how, len(v)) + v
    out += struct.pack('>H', len(bodies) + counts[1])
    for b in bodies:
        e = amfref.Ref0Encoder()
        if b[0] == 'req':
            out += text(b[2]) + text(b[1])
            if isinstance(b[3], list):
                e.out += b'\x0a' + struct.pack('>I', len(b[3]))
                for x in b[3]:
                    e.value(x)
            else:
                e.value(b[3])
        else:
            out += text(b[1] + SUFFIX[b[2]][1]) + text(b[5])
            e.value(b[3])
        v = bytes(e.out)
        out += length(b[4], len(v)) + v
    return out
