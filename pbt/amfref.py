"""Independent AMF0/AMF3 reader and writer, written from the published
specifications (amf0_spec_121207, amf3_spec_05_05_08), working on wire graphs
(pbt.model.W). Used as oracle against PyAMF's codecs.
"""
import struct
import zlib
import xml.etree.ElementTree as ET

from .model import W, EXT_FIELDS, SMALL, f2h, h2f, xmlnorm


# ------------------------------------------------------------------ errors

class Bad(Exception):
    """Malformed input. kind: eof marker ref other"""

    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind


def u29(n):
    n &= 0x1fffffff
    if n < 0x80:
        return bytes([n])
    if n < 0x4000:
        return bytes([0x80 | n >> 7, n & 0x7f])
    if n < 0x200000:
        return bytes([0x80 | n >> 14, 0x80 | (n >> 7) & 0x7f, n & 0x7f])
    return bytes([0x80 | n >> 22, 0x80 | (n >> 15) & 0x7f,
                  0x80 | (n >> 8) & 0x7f, n & 0xff])


def u29_wide(n, width):
    """Non-minimal form using at least `width` bytes (1..4)."""
    m = u29(n)
    while len(m) < width and len(m) < 3:
        m = bytes([0x80]) + m
    if len(m) < width:      # 4 byte form has an 8 bit tail
        n &= 0x1fffffff
        m = bytes([0x80 | n >> 22, 0x80 | (n >> 15) & 0x7f,
                   0x80 | (n >> 8) & 0x7f, n & 0xff])
    return m


def xml_parse(b):
    def conv(e):
        return [e.tag, [[k, v] for k, v in e.items()], e.text or '',
                [conv(c) for c in e], e.tail or '']
    try:
        return xmlnorm(conv(ET.fromstring(b)))
    except ET.ParseError as e:
        raise Bad('other', 'xml %s' % e)


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    s = s.replace('\r', '&#13;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;')
        s = s.replace('\t', '&#9;')
    return s


def xml_write(t):
    s = '<' + t[0]
    for k, v in t[1]:
        s += ' %s="%s"' % (k, esc(v, True))
    s += '>' + esc(t[2] or '')
    for c in t[3]:
        s += xml_write(c)
    s += '</%s>' % t[0]
    return s + esc(t[4] or '')


class Reader(object):
    def __init__(self, data, pos=0):
        self.d = data
        self.p = pos
        self.seen = set()       # 'cls' named classes, 'date' absurd dates

    def take(self, n):
        if self.p + n > len(self.d):
            raise Bad('eof')
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack('>H', self.take(2))[0]

    def u32(self):
        return struct.unpack('>I', self.take(4))[0]

    def dbl(self):
        return struct.unpack('>d', self.take(8))[0]

    def date(self, ms):
        if not -6.2e13 < ms < 2.5e14:
            self.seen.add('date')

    def utf(self, b, kind='text'):
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError:
            raise Bad(kind, 'utf-8')


# ------------------------------------------------------------------ AMF3

class Ref3Decoder(object):
    def __init__(self, r):
        self.r = r
        self.strings = []
        self.objects = []
        self.traits = []

    def u29(self):
        n = 0
        for i in range(3):
            b = self.r.u8()
            if b < 0x80:
                return n << 7 | b
            n = n << 7 | b & 0x7f
        return n << 8 | self.r.u8()

    def value(self):
        m = self.r.u8()
        if m == 0:
            return ('undef',)
        if m == 1:
            return ('null',)
        if m == 2:
            return ('bool', 0)
        if m == 3:
            return ('bool', 1)
        if m == 4:
            n = self.u29()
            if n >= 0x10000000:
                n -= 0x20000000
            return ('int', str(n))
        if m == 5:
            return ('num', f2h(self.r.dbl()))
        if m == 6:
            return ('str', self.string())
        if m in (7, 0x0b):
            return self.xml()
        if m == 8:
            return self.date()
        if m == 9:
            return self.array()
        if m == 0x0a:
            return self.object()
        if m == 0x0c:
            return self.bytearray()
        raise Bad('marker', '0x%02x' % m)

    def rawstring(self):
        n = self.u29()
        if n & 1 == 0:
            if n >> 1 >= len(self.strings):
                raise Bad('ref', 'string %d' % (n >> 1))
            return self.strings[n >> 1]
        b = self.r.take(n >> 1)
        if b:
            self.strings.append(b)
        return b

    def string(self):
        return self.r.utf(self.rawstring())

    def name(self):
        return self.r.utf(self.rawstring(), 'other')

    def ref(self, n, kinds):
        if n >> 1 >= len(self.objects):
            raise Bad('ref', 'object %d' % (n >> 1))
        return self.objects[n >> 1]

    def xml(self):
        n = self.u29()
        if n & 1 == 0:
            return self.ref(n, ('xml',))
        w = W('xml')
        b = self.r.take(n >> 1)
        w.data = xml_parse(b)
        self.objects.append(w)
        return w

    def date(self):
        n = self.u29()
        if n & 1 == 0:
            return self.ref(n, ('date',))
        w = W('date')
        w.data = self.r.dbl()
        self.r.date(w.data)
        self.objects.append(w)
        return w

    def array(self):
        n = self.u29()
        if n & 1 == 0:
            return self.ref(n, ('arr',))
        w = W('arr')
        self.objects.append(w)
        while True:
            k = self.name()
            if k == '':
                break
            w.assoc.append((k, self.value()))
        for i in range(n >> 1):
            w.dense.append(self.value())
        return w

    def object(self):
        n = self.u29()
        if n & 1 == 0:
            return self.ref(n, ('obj',))
        if n & 2 == 0:
            i = n >> 2
            if i >= len(self.traits):
                raise Bad('ref', 'trait %d' % i)
            cls, sealed, dynamic, ext = self.traits[i]
        else:
            ext = bool(n & 4)
            dynamic = bool(n & 8)
            if n & 1 == 0 or self.r.d[self.r.p:self.r.p + 1] != b'\x01':
                self.r.seen.add('cls')
            if ext and dynamic:
                raise Bad('other', 'externalizable and dynamic')
            cls = self.string()
            sealed = []
            if not ext:
                sealed = [self.name() for i in range(n >> 4)]
            elif n >> 4:
                raise Bad('other', 'externalizable with sealed members')
            self.traits.append((cls, sealed, dynamic, ext))
        w = W('obj')
        w.cls = cls
        self.objects.append(w)
        if ext:
            if cls in SMALL:
                w.ext = self.small(SMALL[cls])
                return w
            if cls not in EXT_FIELDS:
                raise Bad('other', 'unknown externalizable %r' % cls)
            w.ext = []
            for f in EXT_FIELDS[cls]:
                w.ext.append(self.field(f))
            return w
        for k in sealed:
            w.sealed.append((k, self.value()))
        if dynamic:
            w.dyn = []
            while True:
                k = self.name()
                if k == '':
                    break
                w.dyn.append((k, self.value()))
        return w

    def small(self, parts):
        out = []
        for nbytes in parts:
            flags = []
            while True:
                b = self.r.u8()
                out.append(('flag', b))
                flags.append(b & 0x7f)
                if b < 0x80:
                    break
            if len(flags) > len(nbytes):
                raise Bad('other', 'flag bytes')
            for b, known in zip(flags, nbytes):
                if b & ~known:
                    raise Bad('other', 'undefined flags')
                for i in range(bin(b).count('1')):
                    out.append(self.value())
        return out

    def field(self, f):
        if f == 'v':
            return self.value()
        if f == 'utf':
            return ('utf', self.r.utf(self.r.take(self.r.u16())))
        if f == 'int':
            return ('int', struct.unpack('>i', self.r.take(4))[0])
        if f == 'double':
            return ('double', f2h(self.r.dbl()))
        raise AssertionError(f)

    def bytearray(self):
        n = self.u29()
        if n & 1 == 0:
            return self.ref(n, ('ba',))
        w = W('ba')
        b = self.r.take(n >> 1)
        w.data = (b.hex(), False)
        if b[:2] in (b'\x78\x9c', b'\x78\xda'):
            try:
                w.data = (zlib.decompress(b).hex(), True)
            except zlib.error:
                pass
        self.objects.append(w)
        return w


class Choices(object):
    """A stream of small decisions; 0 when exhausted."""

    def __init__(self, xs):
        self.xs = list(xs)
        self.i = 0

    def pick(self, n):
        if n <= 1 or self.i >= len(self.xs):
            return 0
        v = self.xs[self.i] % n
        self.i += 1
        return v


class Ref3Encoder(object):
    """Writes wire graphs, letting `ch` make every choice the format allows."""

    def __init__(self, ch=None, stats=None):
        self.ch = ch or Choices([])
        self.out = bytearray()
        self.strings = {}
        self.nstrings = 0
        self.objects = {}
        self.nobjects = 0
        self.keep = []
        self.traits = {}
        self.ntraits = 0
        self.stats = stats if stats is not None else {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def u29(self, n):
        w = self.ch.pick(8)
        if w in (5, 6, 7):
            self.stat('wide-int')
            self.out += u29_wide(n, w - 3)
        else:
            self.out += u29(n)

    def value(self, v):
        o = self.out
        if isinstance(v, tuple):
            t = v[0]
            if t == 'undef':
                o.append(0)
            elif t == 'null':
                o.append(1)
            elif t == 'bool':
                o.append(3 if v[1] else 2)
            elif t == 'int':
                o.append(4)
                self.u29(int(v[1]))
            elif t == 'num':
                o.append(5)
                o += struct.pack('>d', h2f(v[1]))
            elif t == 'str':
                o.append(6)
                self.string(v[1])
            else:
                raise AssertionError(v)
            return
        k = v.kind
        if k == 'xml':
            o.append(7 if self.ch.pick(2) else 0x0b)
            if self.backref(v):
                return
            b = v.data if isinstance(v.data, bytes) else \
                xml_write(v.data).encode('utf-8')
            self.u29(len(b) << 1 | 1)
            self.out += b
        elif k == 'date':
            o.append(8)
            if self.backref(v):
                return
            # the low bit alone is significant
            self.u29(1)
            self.out += struct.pack('>d', v.data)
        elif k == 'arr':
            o.append(9)
            if self.backref(v):
                return
            self.u29(len(v.dense) << 1 | 1)
            for a, b in v.assoc:
                self.string(a)
                self.value(b)
            self.string('')
            for b in v.dense:
                self.value(b)
        elif k == 'ba':
            o.append(0x0c)
            if self.backref(v):
                return
            b = bytes.fromhex(v.data[0])
            if v.data[1]:
                b = zlib.compress(b)
            self.u29(len(b) << 1 | 1)
            self.out += b
        elif k == 'obj':
            o.append(0x0a)
            if self.backref(v):
                return
            self.object(v)
        else:
            raise AssertionError(k)

    def backref(self, v):
        i = self.objects.get(id(v))
        if i is not None:
            self.stat('objref')
            self.u29(i << 1)
            return True
        self.objects[id(v)] = self.nobjects
        self.nobjects += 1
        self.keep.append(v)
        return False

    def string(self, s):
        b = s.encode('utf-8')
        if not b:
            self.u29(1)
            return
        idx = self.strings.get(b)
        if idx and not self.ch.pick(4) == 3:
            self.stat('strref')
            self.u29(idx[self.ch.pick(len(idx))] << 1)
            return
        if idx:
            self.stat('string-resent')
        self.strings.setdefault(b, []).append(self.nstrings)
        self.nstrings += 1
        self.u29(len(b) << 1 | 1)
        self.out += b

    def object(self, v):
        ext = v.ext is not None
        dynamic = v.dyn is not None
        names = tuple(k for k, _ in v.sealed)
        t = (v.cls, names, dynamic, ext)
        idx = self.traits.get(t)
        if idx and not self.ch.pick(4) == 3:
            self.stat('traitref')
            self.u29(idx[self.ch.pick(len(idx))] << 2 | 1)
        else:
            self.traits.setdefault(t, []).append(self.ntraits)
            self.ntraits += 1
            if ext:
                self.u29(0x07)
                self.string(v.cls)
            else:
                self.u29(len(names) << 4 | (8 if dynamic else 0) | 3)
                self.string(v.cls)
                for k in names:
                    self.string(k)
        if ext and v.cls in SMALL:
            for x in v.ext:
                if isinstance(x, tuple) and x[0] == 'flag':
                    self.out.append(x[1])
                else:
                    self.value(x)
        elif ext:
            for f, x in zip(EXT_FIELDS[v.cls], v.ext):
                if f == 'v':
                    self.value(x)
                elif f == 'utf':
                    b = x[1].encode('utf-8')
                    self.out += struct.pack('>H', len(b)) + b
                elif f == 'int':
                    self.out += struct.pack('>i', x[1])
                elif f == 'double':
                    self.out += struct.pack('>d', h2f(x[1]))
            return
        for k, x in v.sealed:
            self.value(x)
        if dynamic:
            for k, x in v.dyn:
                self.string(k)
                self.value(x)
            self.string('')


# ------------------------------------------------------------------ AMF0

class Ref0Decoder(object):
    def __init__(self, r, count_xml=False):
        self.r = r
        self.objects = []
        self.sub = None
        self.count_xml = count_xml

    def value(self):
        m = self.r.u8()
        if m == 0:
            return ('num', f2h(self.r.dbl()))
        if m == 1:
            return ('bool', int(self.r.u8() != 0))
        if m == 2:
            return ('str', self.string())
        if m == 3:
            w = W('obj')
            self.objects.append(w)
            w.dyn = self.members()
            return w
        if m == 5:
            return ('null',)
        if m == 6:
            return ('undef',)
        if m == 7:
            i = self.r.u16()
            if i >= len(self.objects):
                raise Bad('ref', str(i))
            return self.objects[i]
        if m == 8:
            w = W('ecma')
            self.objects.append(w)
            w.hint = self.r.u32()
            w.assoc = self.members()
            return w
        if m == 0x0a:
            w = W('arr')
            self.objects.append(w)
            n = self.r.u32()
            for i in range(n):
                w.dense.append(self.value())
            return w
        if m == 0x0b:
            w = W('date')
            w.data = self.r.dbl()
            self.r.take(2)
            self.r.date(w.data)
            return w
        if m == 0x0c:
            return ('str', self.longstring())
        if m == 0x0d:
            return ('null',)       # unsupported: read as null
        if m == 0x0f:
            w = W('xml')
            w.data = xml_parse(self.r.take(self.r.u32()))
            if self.count_xml:
                self.objects.append(w)
            return w
        if m == 0x10:
            w = W('obj')
            self.r.seen.add('cls')
            name = self.string()
            w.cls = name
            self.objects.append(w)
            w.dyn = self.members()
            return w
        if m == 0x11:
            if self.sub is None:
                self.sub = Ref3Decoder(self.r)
            return ('amf3', self.sub.value())
        raise Bad('marker', '0x%02x' % m)

    def string(self):
        return self.r.utf(self.r.take(self.r.u16()))

    def longstring(self):
        return self.r.utf(self.r.take(self.r.u32()))

    def members(self):
        out = []
        while True:
            k = self.r.utf(self.r.take(self.r.u16()), 'other')
            if self.r.p >= len(self.r.d):
                raise Bad('eof')
            if k == '' and self.r.d[self.r.p] == 9:
                self.r.p += 1
                return out
            if self.r.d[self.r.p] == 9:
                raise Bad('other', 'end marker after a non-empty key')
            out.append((k, self.value()))


class Ref0Encoder(object):
    def __init__(self, ch=None, stats=None):
        self.ch = ch or Choices([])
        self.out = bytearray()
        self.objects = {}
        self.nobjects = 0
        self.keep = []
        self.stats = stats if stats is not None else {}
        self.sub = None

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def value(self, v):
        o = self.out
        if isinstance(v, tuple):
            t = v[0]
            if t == 'undef':
                o.append(6)
            elif t == 'null':
                if self.ch.pick(6) == 5:
                    self.stat('unsupported')
                    o.append(0x0d)
                else:
                    o.append(5)
            elif t == 'bool':
                o.append(1)
                o.append(1 + (self.ch.pick(3) * 7) if v[1] else 0)
            elif t == 'num':
                o.append(0)
                o += struct.pack('>d', h2f(v[1]))
            elif t == 'str':
                b = v[1].encode('utf-8')
                if len(b) > 0xffff or self.ch.pick(4) == 3:
                    self.stat('longstr')
                    o.append(0x0c)
                    o += struct.pack('>I', len(b)) + b
                else:
                    o.append(2)
                    o += struct.pack('>H', len(b)) + b
            elif t == 'amf3':
                self.stat('amf3')
                o.append(0x11)
                if self.sub is None:
                    self.sub = Ref3Encoder(self.ch, self.stats)
                    self.sub.out = o
                self.sub.value(v[1])
            else:
                raise AssertionError(v)
            return
        k = v.kind
        if k == 'date':
            o.append(0x0b)
            o += struct.pack('>d', v.data)
            o += struct.pack('>h', (0, 60, -300)[self.ch.pick(3)])
            return
        if k == 'xml':
            o.append(0x0f)
            b = v.data if isinstance(v.data, bytes) else \
                xml_write(v.data).encode('utf-8')
            o += struct.pack('>I', len(b)) + b
            return
        i = self.objects.get(id(v))
        if i is not None and i <= 0xffff:
            self.stat('objref')
            o.append(7)
            o += struct.pack('>H', i)
            return
        self.objects[id(v)] = self.nobjects
        self.nobjects += 1
        self.keep.append(v)
        if k == 'arr':
            o.append(0x0a)
            o += struct.pack('>I', len(v.dense))
            for x in v.dense:
                self.value(x)
        elif k == 'ecma':
            o.append(8)
            o += struct.pack('>I', min(v.hint or 0, 0xffffffff))
            self.members(v.assoc)
        elif k == 'obj':
            if v.cls:
                o.append(0x10)
                b = v.cls.encode('utf-8')
                o += struct.pack('>H', len(b)) + b
            else:
                o.append(3)
            self.members(v.sealed + (v.dyn or []))
        else:
            raise AssertionError(k)

    def members(self, ps):
        for k, x in ps:
            b = k.encode('utf-8')
            self.out += struct.pack('>H', len(b)) + b
            self.value(x)
        self.out += b'\x00\x00\x09'


def decode_all(ver, data, n=None, count_xml=False):
    """Wire values of `data` (n of them, or until the end)."""
    r = Reader(data)
    d = Ref0Decoder(r, count_xml) if ver == 0 else Ref3Decoder(r)
    out = []
    while (n is None and r.p < len(data)) or (n is not None and len(out) < n):
        out.append(d.value())
    return out, r.p


def encode_all(ver, ws, choices=(), stats=None):
    e = (Ref0Encoder if ver == 0 else Ref3Encoder)(Choices(choices), stats)
    for w in ws:
        e.value(w)
    return bytes(e.out)
