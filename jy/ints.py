# Python 2 (Jython): AMF3 integers.
import pyamf
from pyamf import amf3, util


def run(step, state):
    op = step[0]
    if op == 'dec':
        s = util.BufferedByteStream(step[1].decode('hex'))
        v = amf3.decode_int(s, bool(step[2]))
        return [str(v), s.tell()]
    if op == 'decel':
        d = pyamf.get_decoder(3, step[1].decode('hex'))
        v = d.readElement()
        return [type(v).__name__, repr(v) if isinstance(v, float) else str(v),
                d.stream.tell()]
    n = int(step[1])
    if step[2]:
        n = long(n)
    if op == 'enc':
        return amf3.encode_int(n).encode('hex')
    if op == 'wi':
        e = pyamf.get_encoder(3)
        e.writeInteger(n)
        return e.stream.getvalue().encode('hex')
    if op == '_wi':
        e = state.setdefault('e', pyamf.get_encoder(3))
        at = e.stream.tell()
        e._writeInteger(n)
        return e.stream.getvalue()[at:].encode('hex')
    if op == 'el':
        e = pyamf.get_encoder(3)
        e.writeElement(n)
        return e.stream.getvalue().encode('hex')
    if op == 'list':
        e = pyamf.get_encoder(3)
        e.writeElement([n, n])
        d = pyamf.get_decoder(3, e.stream.getvalue())
        x = d.readElement()
        return [[type(y).__name__, str(y)] for y in x]
    raise ValueError(op)


def op_ints(req):
    out = []
    state = {}
    for step in req['steps']:
        try:
            out.append(run(step, state))
        except OverflowError:
            out.append({'err': 'OverflowError'})
        except Exception, e:
            out.append({'err': e.__class__.__name__ + ': ' + str(e)[:200]})
    return out


def op_sweep(req):
    """Check a range of integers against an independent encoding."""
    lo, hi, step = req['lo'], req['hi'], req['step']
    amf3.ENCODED_INT_CACHE.clear()
    n = lo
    count = 0
    BBS = util.BufferedByteStream
    enc, dec = amf3.encode_int, amf3.decode_int
    while n < hi:
        u = n & 0x1fffffff
        if u < 0x80:
            want = chr(u)
        elif u < 0x4000:
            want = chr(0x80 | u >> 7) + chr(u & 0x7f)
        elif u < 0x200000:
            want = chr(0x80 | u >> 14) + chr(0x80 | u >> 7 & 0x7f) + \
                chr(u & 0x7f)
        else:
            want = chr(0x80 | u >> 22) + chr(0x80 | u >> 15 & 0x7f) + \
                chr(0x80 | u >> 8 & 0x7f) + chr(u & 0xff)
        b = enc(n)
        if b != want:
            return {'bad': str(n), 'got': b.encode('hex')}
        s = BBS(b)
        v = dec(s, True)
        if v != n or s.tell() != len(b):
            return {'bad': str(n), 'read': str(v)}
        s.seek(0)
        if dec(s, False) != u:
            return {'bad': str(n), 'unsigned': True}
        count += 1
        if count % 20000 == 0:
            amf3.ENCODED_INT_CACHE.clear()
        n += step
    return {'count': count}


OPS = {'ints': op_ints, 'sweep': op_sweep}
