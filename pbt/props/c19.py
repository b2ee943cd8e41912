import struct

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen
from pbt.model import f2h, h2f

INT = {'byte': (1, -2 ** 7, 2 ** 7 - 1), 'ubyte': (1, 0, 255),
       'short': (2, -2 ** 15, 2 ** 15 - 1), 'ushort': (2, 0, 65535),
       'int': (4, -2 ** 31, 2 ** 31 - 1), 'uint': (4, 0, 2 ** 32 - 1)}
CHARSETS = {
    'utf-8': 'ab\xe9\u20ac\U0001f600\u3042 0', 'latin-1': 'ab\xe9\xff 0',
    'ascii': 'ab z', 'utf-16-be': 'ab\xe9\u20ac\u3042',
    'utf-16-le': 'ab\xe9\u3042', 'shift_jis': 'ab\u3042\u30ab 1',
    'gb2312': 'ab\u3042\u4e2d 1', 'cp1252': 'ab\xe9\u20ac'}
KINDS = sorted(INT) + ['bool', 'double', 'float', 'utf', 'utf8', 'utfb',
                       'utfb8'] + ['mb:' + c for c in sorted(CHARSETS)] + \
    ['v'] * 10
f32 = st.floats(width=32, allow_nan=False)


def field_bytes(kind, v):
    """What the data-output interface is documented to write."""
    if kind in INT:
        n = INT[kind][0]
        return (v % 2 ** (8 * n)).to_bytes(n, 'big')
    if kind == 'bool':
        return bytes([v])
    if kind == 'double':
        return struct.pack('>d', h2f(v))
    if kind == 'float':
        return struct.pack('>f', h2f(v))
    if kind in ('utf', 'utf8'):
        b = v.encode('utf-8')
        return struct.pack('>H', len(b)) + b
    if kind in ('utfb', 'utfb8'):
        b = v.encode('utf-8')
        return struct.pack('>I', len(b)) + b
    b = v.encode(kind[3:])
    return struct.pack('>I', len(b)) + b


def field_value(kind, v):
    """What reading it back must give."""
    if kind in INT:
        return ('int', str(v))
    if kind == 'bool':
        return ('bool', v)
    if kind in ('double', 'float'):
        return ('num', v)
    return ('str', v)


def field_read(r, kind):
    if kind in INT:
        n, lo, hi = INT[kind]
        return (kind, int.from_bytes(r.take(n), 'big', signed=lo < 0))
    if kind == 'bool':
        return (kind, r.u8())
    if kind == 'double':
        return (kind, f2h(r.dbl()))
    if kind == 'float':
        return (kind, f2h(struct.unpack('>f', r.take(4))[0]))
    if kind in ('utf', 'utf8'):
        return (kind, r.utf(r.take(r.u16())))
    if kind in ('utfb', 'utfb8'):
        return (kind, r.utf(r.take(r.u32())))
    return (kind, r.take(r.u32()).decode(kind[3:]))


@st.composite
def step_value(draw, kind):
    if kind in INT:
        n, lo, hi = INT[kind]
        return draw(st.one_of(st.sampled_from([lo, hi, 0, 1, -1 if lo else 1]),
                              st.integers(lo, hi)))
    if kind == 'bool':
        return draw(st.integers(0, 1))
    if kind == 'double':
        return draw(gen.floats)
    if kind == 'float':
        return f2h(draw(f32))
    if kind.startswith('mb:'):
        return draw(st.text(alphabet=CHARSETS[kind[3:]], max_size=5))
    return draw(gen.short_text)


OPT = {v: gen.Opts(v, max_nodes=7, empty_key=False, xml=(v == 3), classes=['Plain', 'SD', 'Anon'] + ['Ext'] * (v == 3))
       for v in (0, 3)}


@st.composite
def program(draw, ver, kinds):
    """[[kind, value]...] for a byte array of its own."""
    ks = draw(st.lists(st.sampled_from(KINDS), min_size=0, max_size=6))
    out = []
    for k in ks:
        if k == 'v':
            if draw(st.integers(0, 3)) == 0:
                v = draw(ext(3, kinds, 1))
            else:
                v = draw(gen.value(OPT[3], 3))
        else:
            v = draw(step_value(k))
        out.append([k, v])
    return out


@st.composite
def ext(draw, ver, kinds, depth=2):
    name = draw(st.sampled_from(sorted(kinds)))
    out = []
    for k in kinds[name]:
        out.append(draw(value(ver, kinds, depth - 1)) if k == 'v' else
                   draw(step_value(k)))
    return ['e', name, out]


@st.composite
def value(draw, ver, kinds, depth=2):
    """A value whose parts may be byte arrays and externalizable objects."""
    k = draw(st.sampled_from(['e', 'e', 'e', 'P', 'P', 'r', 'r', 'r', 'l',
                              'm', 'v', 'v', 's'] if depth > 0 else
                             ['v', 'r', 'r', 's']))
    if k == 'e':
        return draw(ext(ver, kinds, depth))
    if k == 'P':
        return ['P', draw(program(ver, kinds)), draw(st.integers(0, 1))]
    if k == 'r':
        return ['r', draw(st.integers(0, 30))]
    if k == 'l':
        return ['l', draw(st.lists(value(ver, kinds, depth - 1), max_size=3))]
    if k == 'm':
        ks = draw(st.lists(gen.key_text, max_size=3, unique=True))
        return ['o', [[x, draw(value(ver, kinds, depth - 1))] for x in ks]]
    if k == 's':
        # text and members the others repeat
        return ['s', draw(st.sampled_from(['a', 'b', 'spam', 'x1']))]
    return draw(gen.value(OPT[3 if ver == 3 else 0], 2))


# pieces of text in some charset, whole and broken
PIECES = {
    'utf-8': [b'a', b'\xc3\xa9', b'\xe2\x82\xac', b'\xff', b'\x80',
              b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98\x80'],
    'ascii': [b'a', b'z', b'\x80', b'\xff'],
    'latin-1': [b'a', b'\xe9', b'\xff'],
    'utf-16-be': [b'\x00a', b'\x20\xac', b'\x00'],
    'shift_jis': [b'a', b'\x82\xa0', b'\x82'],
}


@st.composite
def raw(draw):
    """Text as bytes of any origin: [kind, bytes, bytes missing]."""
    kind = draw(st.sampled_from(['utf', 'utfb'] + ['mb:' + c for c in
                                                   sorted(PIECES)]))
    cs = kind[3:] if kind[:3] == 'mb:' else 'utf-8'
    data = b''.join(draw(st.lists(st.sampled_from(PIECES[cs]), max_size=4)))
    return [kind, data.hex(), draw(st.sampled_from([0, 0, 0, 0, 1, 3]))]


@st.composite
def case(draw):
    ver = draw(st.sampled_from([3, 3, 0]))
    kinds = {n: draw(st.lists(st.sampled_from(KINDS), max_size=6))
             for n in ('E0', 'E1', 'E2')}
    vals = draw(st.lists(value(ver, kinds), min_size=1, max_size=5))
    return {'v': ver, 'kinds': kinds, 'vals': vals,
            'raw': draw(st.lists(raw(), max_size=3)),
            'ch': draw(wiregen.choices)}


class Refs(model.Refs):
    def __init__(self, kinds):
        model.Refs.__init__(self)
        self.kinds = kinds
        self.programs = []

    def parse(self, r):
        if r[0] == 'e':
            n = model.R('e')
            n.name = r[1]
            self.c.append(n)
            n.items = [self.parse(v) if k == 'v' else v
                       for k, v in zip(self.kinds[r[1]], r[2])]
            return n
        if r[0] == 'P':
            n = model.R('P')
            n.data = len(self.programs)
            self.c.append(n)
            self.programs.append(r)
            return n
        return model.Refs.parse(self, r)


class Enc(model.Enc):
    def __init__(self, ver, kinds, contents):
        model.Enc.__init__(self, ver)
        self.kinds = kinds
        self.contents = contents
        if self.sub is not None:
            self.sub = Enc(3, kinds, contents)

    def enc(self, r):
        if isinstance(r, model.R) and r.t in ('e', 'P'):
            if self.ver == 0:
                return ('amf3', self.sub.enc(r))
            if id(r) in self.memo:
                return self.memo[id(r)]
            if r.t == 'P':
                w = self.node(r, 'ba')
                w.data = self.contents[r.data]
                return w
            w = self.node(r, 'obj')
            w.cls = 'org.ext.' + r.name
            w.ext = []
            for k, v in zip(self.kinds[r.name], r.items):
                w.ext.append(self.enc(v) if k == 'v' else (k, v))
            return w
        return model.Enc.enc(self, r)


class Dec(model.Dec):
    def __init__(self, ver, kinds):
        model.Dec.__init__(self, ver)
        self.kinds = kinds
        if self.sub is not None:
            self.sub = Dec(3, kinds)

    def obj(self, w):
        if w.cls.startswith('org.ext.'):
            n = self.node(w, 'inst', w.cls[8:])
            for i, (k, v) in enumerate(zip(self.kinds[n.name], w.ext)):
                n.pairs.append(('f%d' % i, self.dec(v) if k == 'v' else
                                field_value(*v)))
            return n
        return model.Dec.obj(self, w)


class Reader3(amfref.Ref3Decoder):
    def field(self, k):
        return self.value() if k == 'v' else field_read(self.r, k)


class Writer3(amfref.Ref3Encoder):
    def object(self, v):
        if not v.cls.startswith('org.ext.'):
            return amfref.Ref3Encoder.object(self, v)
        t = (v.cls, (), False, True)
        idx = self.traits.get(t)
        if idx and self.ch.pick(4) != 3:
            self.u29(idx[self.ch.pick(len(idx))] << 2 | 1)
        else:
            self.traits.setdefault(t, []).append(self.ntraits)
            self.ntraits += 1
            self.u29(7)
            self.string(v.cls)
        for k, x in zip(self.kinds[v.cls[8:]], v.ext):
            if k == 'v':
                self.value(x)
            else:
                self.out += field_bytes(*x)


def ref_decode(ver, data, kinds, n):
    """Independent reading; the classes' byte formats are known."""
    saved = dict(model.EXT_FIELDS)
    try:
        for k in kinds:
            model.EXT_FIELDS['org.ext.' + k] = kinds[k]
        r = amfref.Reader(data)
        if ver == 0:
            d = amfref.Ref0Decoder(r)
            d.sub = Reader3(r)
        else:
            d = Reader3(r)
        return [d.value() for i in range(n)], r.p
    finally:
        model.EXT_FIELDS.clear()
        model.EXT_FIELDS.update(saved)


class Extern(Prop):
    modules = ('vals', 'extern')
    quick = 4000
    thorough = 150000
    rule = ('Case: three externalizable classes with generated byte formats '
            '(0-6 fields over 16 primitive kinds and objects), 1-5 values '
            'containing their instances, byte arrays written by generated '
            'programs of the same kinds (compressed or not), ordinary values '
            'and back-references, in AMF3 or AMF3 inside AMF0. Non-trivial: '
            'at least one external object or byte array with a field and one '
            'other value.')
    assumptions = ['the uncompressed content of a byte array does not itself '
                   'start with a zlib stream']

    def strategy(self, tier):
        return case()

    def fixed(self, tier):
        P = ['P', [['int', 5], ['v', ['l', [['s', 'a'], ['s', 'a']]]],
                   ['utf', 'x'], ['v', ['s', 'a']]], 1]
        k = {'E0': ['v', 'int', 'v'], 'E1': [], 'E2': ['utf']}
        return [
            {'v': v, 'kinds': k, 'ch': [], 'vals': [
                P, ['r', 0], ['e', 'E0', [['s', 'a'], 1, ['r', 1]]],
                ['r', 1], ['e', 'E1', []], ['e', 'E2', ['']],
                ['P', [['utf8', 'x' * 3000]], 1],
                ['P', [], 1], ['P', [], 0],
                ['B', '789c0000', 0], ['B', '78da0000', 0]]}
            for v in (0, 3)]

    def check(self, w, case):
        ver, kinds = case['v'], case['kinds']
        got = w.call('extern', v=ver, kinds=kinds, vals=case['vals'])
        if 'enc_error' in got:
            raise Violation('encoding failed: %s %s' % (
                got['enc_error'], got['msg']))
        refs = Refs(kinds)
        rs = [refs.parse(r) for r in case['vals']]
        # what the byte arrays hold
        contents = []
        require(len(got['segments']) == len(refs.programs), 'byte arrays',
                len(got['segments']))
        values = []
        for (hexed, segs, tell, size), (_, steps, comp) in zip(
                got['segments'], refs.programs):
            data = bytes.fromhex(hexed)
            contents.append((hexed, bool(comp)))
            pos = 0
            row = []
            for (k, v), (a, b) in zip(steps, segs):
                require(a == pos, 'write started elsewhere', a, pos)
                if k == 'v':
                    r2 = Refs(kinds)
                    r = r2.parse(v)
                    ws, used = ref_decode(3, data[a:b], kinds, 1)
                    require(used == b - a, 'object written is not one value',
                            used, b - a)
                    want = Enc(3, kinds, []).enc(r)
                    x = model.diff(model.dump_wires(ws, 3),
                                   model.dump_wires([want], 3))
                    require(not x, 'object in a byte array', x)
                    row.append(model.dump_values([Dec(3, kinds).dec(want)])[0])
                else:
                    e = field_bytes(k, v)
                    require(data[a:b] == e, 'bytes of %s' % k, data[a:b].hex(),
                            e.hex(), v)
                    row.append(list(field_value(k, v)))
                pos = b
            require(pos == len(data) == tell == size, 'byte array length',
                    pos, len(data), tell, size)
            values.append(row)
        ws = [Enc(ver, kinds, contents)]
        e = ws[0]
        ws = [e.enc(r) for r in rs]
        # the bytes, read independently
        data = bytes.fromhex(got['hex'])
        try:
            mine, used = ref_decode(ver, data, kinds, len(rs))
        except amfref.Bad as x:
            raise Violation('the bytes written are not readable: %s %s' % (
                x, got['hex'][:400]))
        require(used == len(data), 'length of the encoding', used, len(data))
        x = model.diff(model.dump_wires(mine, ver), model.dump_wires(ws, ver))
        require(not x, 'bytes denote something else', x, got['hex'][:400])
        # and decoded
        d = Dec(ver, kinds)
        want = model.dump_values([d.dec(x) for x in ws])
        if 'dec_error' in got:
            raise Violation('decoding failed: %s %s (%s)' % (
                got['dec_error'], got['msg'], got['hex'][:400]))
        x = model.diff(got['vals'], want)
        require(not x, 'decoded value differs', x, got['hex'][:400])
        require(got['left'] == 0, 'bytes left', got['left'])
        if 'read_error' in got:
            raise Violation('reading back failed: %s %s' % (
                got['read_error'], got['msg']))
        require(got['bas'][0] == got['bas'][1], 'byte arrays', got['bas'])
        # the readings come in the order the dump met the byte arrays
        left = [[row, True] for row in values]
        for a, b in got['back']:
            # dates lose up to a millisecond only
            for i, row in enumerate(left):
                if model.diff(a, row) is None:
                    break
            else:
                raise Violation('read back something else: %s; wanted one of '
                                '%s' % (a, left))
            x = model.diff(b, left.pop(i))
            require(not x, 'read back from the decoded byte array', x)
        # bytes of an independent writer
        we = (amfref.Ref0Encoder if ver == 0 else Writer3)(
            amfref.Choices(case['ch']))
        if ver == 0:
            we.sub = Writer3(we.ch)
            we.sub.out = we.out
            we.sub.kinds = kinds
        we.kinds = kinds
        for x in ws:
            we.value(x)
        got2 = w.call('extdecode', v=ver, kinds=kinds, n=len(ws),
                      hex=bytes(we.out).hex())
        if 'dec_error' in got2:
            raise Violation('well-formed bytes refused: %s %s %s' % (
                got2['dec_error'], got2['msg'], bytes(we.out).hex()[:400]))
        x = model.diff(got2['vals'], want)
        require(not x and got2['left'] == 0, 'well-formed bytes decode to '
                'something else', x, bytes(we.out).hex()[:400])
        for kind, hexed, short in case.get('raw', []):
            data = bytes.fromhex(hexed)
            try:
                want = data.decode(kind[3:] if kind[:3] == 'mb:' else 'utf-8')
            except UnicodeDecodeError:
                want = None
            g = w.call('extread', kind=kind, short=short, hex=(
                struct.pack('>H' if kind == 'utf' else '>I',
                            len(data) + short) + data).hex())
            if short:
                require(g.get('error') == 'IOError', 'reading text of which '
                        '%d bytes are missing' % short, g, kind, hexed)
            elif want is None:
                require(g.get('unicode'), 'reading bytes which are no text '
                        'in their charset', g, kind, hexed)
            else:
                require(g.get('text') == ['str', want] and not g['left'],
                        'text read', g, kind, hexed)
        labels = self.labels(case)
        return 'field' in labels and len(labels) > 2, labels

    def labels(self, case):
        ls = set()

        def walk(r):
            ls.add(r[0])
            if r[0] == 'e':
                for k, v in zip(case['kinds'][r[1]], r[2]):
                    ls.add('field')
                    ls.add('k-' + k)
                    if k == 'v':
                        walk(v)
            elif r[0] == 'P':
                for k, v in r[1]:
                    ls.add('field')
                    ls.add('k-' + k)
                    if k == 'v':
                        walk(v)
                if r[2]:
                    ls.add('compressed')
            elif r[0] in ('l', 't', 'ac'):
                for x in r[1]:
                    walk(x)
            elif r[0] in ('m', 'o', 'M'):
                for k, x in r[1]:
                    walk(x)
            elif r[0] == 'c':
                for k, x in r[2]:
                    walk(x)
        for v in case['vals']:
            walk(v)
        return sorted(ls)


PROP = Extern()
PROP.id = 'C19'
