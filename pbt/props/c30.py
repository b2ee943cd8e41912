import uuid

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen
from pbt.flexmsg import (COMPACT, FIELDS, IDS, KIND, TIMES, STATIC, BadTime,
                         Dec, Enc, Refs)

# ------------------------------------------------------------ generators

def opts(refs=True):
    return gen.Opts(3, xml=False, max_nodes=5, refs=refs,
                    classes=['Plain', 'SD', 'Kid', 'Ext', 'Anon'])


FALSY = [['i', '0'], ['s', ''], ['b', 0], ['l', []], ['o', []], ['f', model.
         f2h(0.0)], ['m', []], ['ac', []], ['B', '', 0], ['u']]
OPS = [gen.value(opts(False), d) for d in (0, 2)]
uuids = st.one_of(
    st.binary(min_size=16, max_size=16),
    st.binary(min_size=14, max_size=14).map(lambda b: b'\x78\x9c' + b),
    st.binary(min_size=14, max_size=14).map(lambda b: b'\x78\xda' + b),
    st.sampled_from([b'\0' * 16, b'\xff' * 16, b'\x80' * 16])
).map(lambda b: b.hex())
idtext = st.one_of(st.sampled_from(
    ['0F3AC8E0-A9D8-4F7B-97E2-000000000000', 'm', '', 'nil', 'caf\xe9']),
    gen.short_text, uuids.map(lambda h: str(uuid.UUID(hex=h))))
headers = st.one_of(
    st.just([]),
    st.lists(st.tuples(st.one_of(st.sampled_from(
        ['DSEndpoint', 'DSId', 'DSSubtopic', 'x']), gen.key_text),
        gen.value(opts(False), 1)).map(list), max_size=3,
        unique_by=lambda kv: kv[0]))


def time(full):
    out = [gen.dt(1901, 2200).map(lambda t: ['d'] + list(t)),
           st.integers(0, 2 ** 42).map(lambda n: ['i', str(n)]),
           st.sampled_from([['n'], ['i', '0'], ['f', model.f2h(0.0)],
                            ['i', '-1'], ['i', '-86400000']]),
           wiregen.ms.map(lambda x: ['f', model.f2h(x)])]
    if not full:
        out.append(st.tuples(st.integers(1901, 2200), st.integers(1, 12),
                             st.integers(1, 28)).map(
                                 lambda t: ['D'] + list(t)))
    return st.one_of(out)


@st.composite
def message(draw):
    kind = draw(st.sampled_from(sorted(COMPACT) * 3 + ['RemotingMessage',
                                                       'ErrorMessage']))
    how = draw(st.sampled_from([1, 1, 2, 0])) if kind in COMPACT else 0
    ctor = draw(st.integers(0, 1))
    o = opts(refs=how != 1 and not ctor)
    fields = []
    order = draw(st.permutations(FIELDS[kind])) if draw(st.booleans()) else \
        FIELDS[kind]
    sub = draw(st.sampled_from([0, 1, 2, 3]))
    for k in order:
        if draw(st.integers(0, 3)) < sub:
            continue
        if k in IDS and how and draw(st.integers(0, 1)):
            v = ['U', draw(uuids)]
        elif k in IDS and draw(st.integers(0, 4)):
            v = ['s', draw(idtext)]
        elif k in TIMES:
            v = draw(time(not how))
        elif k == 'headers':
            v = [draw(st.sampled_from('mo')), draw(headers)]
        elif draw(st.integers(0, 3)) == 0:
            v = draw(st.sampled_from(FALSY))
        elif k == 'operation' and draw(st.integers(0, 3)):
            v = ['i', str(draw(st.sampled_from([0, 1, 2, 5, 12, 1000])))]
        else:
            v = draw(gen.value(o, 3 if k == 'body' else 1))
        fields.append([k, v])
    return ['msg', kind, how, fields, ctor]


@st.composite
def send(draw):
    v = draw(st.sampled_from([3, 3, 0]))
    vals = draw(st.lists(st.one_of(
        message(), message(), message(),
        st.integers(0, 9).map(lambda n: ['r', n]),
        gen.value(gen.Opts(v, xml=False, max_nodes=5, empty_key=False,
                           classes=['Plain', 'SD', 'Anon']), 1)),
        min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        # inside something else
        vals = [['l', vals], ['m', [['k', draw(message())]]]]
    return {'k': 'send', 'v': v, 'vals': vals}


wtime = st.one_of(
    st.integers(0, 0xfffffff).map(lambda n: ['int', str(n)]),
    wiregen.ms.map(lambda x: ['num', model.f2h(x)]),
    st.just(['null']), st.just(['int', '0']))
badtime = st.sampled_from([['str', 'x'], ['arr', [], []], ['undef'],
                           ['obj', '', [], []]])


@st.composite
def wmessage(draw):
    cls = draw(st.sampled_from(['DSA', 'DSK', 'DSC']))
    out = []
    val = wiregen.wire(3, 2, xml=False)

    def some(i, k):
        # a value for a flag of an abstract part
        if k in TIMES:
            return draw(badtime if draw(st.integers(0, 30)) == 0 else wtime)
        if k in IDS and draw(st.integers(0, 2)):
            return ['str', draw(idtext)]
        return draw(val)
    flags = draw(st.one_of(st.integers(0, 127), st.sampled_from(
        [0, 1, 127, 0x10, 0x12, 0x40, 0x20, 0x7e])))
    vals = [some(i, k) for i, k in enumerate(STATIC) if flags >> i & 1]
    two = draw(st.integers(0, 1))
    out.append(['flag', flags | (0x80 if two else 0)])
    if two:
        flags = draw(st.integers(0, 3))
        out.append(['flag', flags])
        for i in range(2):
            if flags >> i & 1:
                vals.append(draw(uuids_w))
    out += vals
    flags = draw(st.integers(0, 3))
    out.append(['flag', flags])
    if flags & 1:
        out.append(draw(st.one_of(idtext.map(lambda s: ['str', s]), val)))
    if flags & 2:
        out.append(draw(uuids_w))
    if cls == 'DSK':
        out.append(['flag', 0])
    elif cls == 'DSC':
        f = draw(st.integers(0, 1))
        out.append(['flag', f])
        if f:
            out.append(draw(st.one_of(
                st.integers(0, 1000).map(lambda n: ['int', str(n)]), val)))
    return ['small', cls, out]


uuids_w = uuids.map(lambda h: ['ba', h, 0])


class Parser(wiregen.Parser):
    def __init__(self, ver):
        wiregen.Parser.__init__(self, ver)
        if ver == 0:
            self.sub = Parser(3)

    def parse(self, r):
        if r[0] == 'small':
            w = self.new('obj')
            w.cls = r[1]
            w.ext = [self.parse(x) for x in r[2]]
            return w
        return wiregen.Parser.parse(self, r)


@st.composite
def recv(draw):
    v = draw(st.sampled_from([3, 3, 0]))
    vals = draw(st.lists(st.one_of(
        wmessage(), wmessage(), wmessage(), wiregen.wire(3, 2, xml=False),
        st.integers(0, 9).map(lambda n: ['r', n])), min_size=1, max_size=4))
    if v == 0:
        vals = [['amf3', x] for x in vals]
    return {'k': 'recv', 'v': v, 'vals': vals,
            'ch': draw(st.lists(st.integers(0, 255), max_size=40))}


convert = st.sampled_from(sorted(FIELDS) + [k + 'Ext' for k in COMPACT]).map(
    lambda c: {'k': 'convert', 'cls': c})


class Messages(Prop):
    modules = ('vals', 'messages')
    quick = 5000
    thorough = 250000
    rule = ('Case: 1-4 Flex messages (acknowledge, async and command ones '
            'made compact, others in full) with any subset of fields set to '
            'generated values, encoded and decoded, or compact messages '
            'with any defined flag bytes written by an independent encoder. '
            'Non-trivial: a compact message with at least three fields.')
    assumptions = ['headers are never set to None',
                   'no UUID is itself a zlib stream']

    def strategy(self, tier):
        return st.one_of(*([send()] * 12 + [recv()] * 9 + [convert]))

    def check(self, w, case):
        return getattr(self, case['k'])(w, case)

    def convert(self, w, case):
        got = w.call('convert', cls=case['cls'])
        c = case['cls']
        want = 'none'
        if c in COMPACT:
            want = c + 'Ext'
        elif c.endswith('Ext'):
            want = c
        require(got == want, 'compact form of ' + c, got, want)
        return False, ['convert']

    def send(self, w, case):
        ver = case['v']
        p = Refs()
        rs = [p.parse(r) for r in case['vals']]
        e = Enc(ver)
        ws = [e.enc(r) for r in rs]
        d = Dec(ver)
        want = model.dump_values([d.dec(x) for x in ws])
        got = w.call('send', v=ver, vals=case['vals'])
        require(got['before'] == got['after'], 'encoding changed a message',
                got['before'], got['after'])
        data = bytes.fromhex(got['hex'])
        try:
            xs, pos = amfref.decode_all(ver, data, len(rs))
        except amfref.Bad as ex:
            raise Violation('what was encoded is malformed: %s %s' % (
                ex, got['hex'][:600]))
        require(pos == len(data), 'bytes left over in what was encoded')
        d = Dec(ver)
        x = model.diff(model.dump_values([d.dec(y) for y in xs]), want)
        require(not x, 'the bytes say otherwise', x, got['hex'][:600])
        self.decoded(got, want)
        return self.trivial(xs), self.labels(xs) + ['send', 'amf%d' % ver]

    def recv(self, w, case):
        ver = case['v']
        p = Parser(ver)
        ws = [p.parse(r) for r in case['vals']]
        data = amfref.encode_all(ver, ws, case['ch'])
        d = Dec(ver)
        try:
            want = model.dump_values([d.dec(y) for y in ws])
        except (model.MissingStatic, BadTime) as e:
            want = None
            bad = isinstance(e, BadTime)
        got = w.call('recv', v=ver, hex=data.hex(), n=len(ws))
        labels = self.labels(ws) + ['recv', 'amf%d' % ver]
        if want is None:
            if bad:
                require(got.get('dec_error') == 'DecodeError',
                        'a time which is no number', got)
            return False, labels + ['refused']
        self.decoded(got, want)
        return self.trivial(ws), labels

    def decoded(self, got, want):
        if 'dec_error' in got:
            raise Violation('decoding failed: %s %s' % (got['dec_error'],
                                                        got['msg']))
        x = model.diff(got['vals'], want)
        require(not x, 'decoded otherwise', x)
        require(got['left'] == 0, 'bytes left over', got['left'])

    def small(self, ws):
        for x in ws:
            if isinstance(x, tuple) and x[0] == 'amf3':
                x = x[1]
            if getattr(x, 'cls', None) in KIND:
                yield x

    def labels(self, ws):
        out = set()
        for x in self.small(ws):
            out.add(x.cls)
            for y in x.ext:
                if getattr(y, 'kind', None) == 'ba':
                    out.add('uuid')
        return sorted(out)

    def trivial(self, ws):
        return any(sum(1 for y in x.ext if not isinstance(y, tuple) or
                       y[0] != 'flag') >= 3 for x in self.small(ws))


PROP = Messages()
PROP.id = 'C30'
