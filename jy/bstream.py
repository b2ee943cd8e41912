# Python 2 (Jython): histories of operations on BufferedByteStream.
import struct
import tempfile
import os
from StringIO import StringIO

from pyamf.util import BufferedByteStream

INTS = ['uchar', 'char', 'ushort', 'short', 'ulong', 'long', '24bit_uint',
        '24bit_int']


def arg(a):
    k, v = a
    if k == 'i':
        return int(v)
    if k == 'l':
        return long(v)
    if k == 'f':
        return struct.unpack('>d', v.decode('hex'))[0]
    if k == 's':
        return v
    if k == 'y':
        return v.decode('hex')
    if k == 'b':
        return bool(v)
    if k == 'L':
        return [v]
    return None


def res(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', int(v)]
    if isinstance(v, (int, long)):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', 'nan' if v != v else struct.pack('>d', v).encode('hex')]
    if isinstance(v, unicode):
        return ['s', v]
    return ['y', v.encode('hex')]


def state(s):
    pos = s.tell()
    st = [pos, len(s), s.getvalue().encode('hex'), s.remaining(),
          bool(s.at_eof())]
    assert s.tell() == pos
    return st


def source(kind, data, pos):
    data = data.decode('hex')
    if kind == 'bytes':
        return data, None
    if kind == 'none':
        return None, None
    if kind == 'file':
        f = tempfile.TemporaryFile()
        f.write(data)
    elif kind == 'stream':
        f = BufferedByteStream(data)
    else:
        f = StringIO(data)
    f.seek(pos)
    return f, f


def op_bstream(req):
    src, f = source(*req['init'])
    s = BufferedByteStream(src) if src is not None else BufferedByteStream()
    out = [[['n'], state(s), f.tell() if f is not None else None]]
    if f is not None and req['init'][0] == 'file':
        f.close()
    for o in req['ops']:
        k, a = o[0], o[1:]
        other = None
        try:
            if k == 'write':
                r = getattr(s, 'write_' + a[0])(arg(a[1]))
            elif k == 'read':
                r = getattr(s, 'read_' + a[0])()
            elif k == 'utf8':
                r = s.read_utf8_string(a[0])
            elif k == 'raw':
                r = s.write(arg(a[0]))
            elif k == 'endian':
                s.endian = str(a[0])
                r = None
            elif k == 'append':
                r = s.append(arg(a[0]))
            elif k == 'append_stream':
                other, _ = source(*a[0])
                if isinstance(other, str):
                    other = StringIO(other)
                p = other.tell()
                r = s.append(other)
                other = [other.tell() - p, other.getvalue().encode('hex')]
            elif k == 'add':
                x, _ = source(*a[0])
                if isinstance(x, str):
                    x = BufferedByteStream(x)
                p = x.tell()
                r = s + x
                r = state(r)[:3]
                other = [x.tell() - p, x.getvalue().encode('hex')]
                r = ['state', r]
            elif k == 'bulk':
                r = s.read(*a)
            elif k == 'len':
                r = len(s)
            else:
                r = getattr(s, k)(*a)
            if not (isinstance(r, list) and r and r[0] == 'state'):
                r = res(r)
        except (IOError, TypeError, OverflowError, ValueError), x:
            r = ['error', [c.__name__ for c in x.__class__.__mro__]]
        out.append([r, state(s), other])
    return out


def op_native(req):
    return struct.pack('@H', 1).encode('hex')


OPS = {'bstream': op_bstream, 'native': op_native}
