from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, classes, gen, model, wiregen
from pbt.props.c15 import Receiving

# names that can be registered: any text
REG = st.one_of(
    st.sampled_from(['org.test.User', 'User', 'a', 'caf\xe9.Men\xfc', '\u20ac',
                     'with space', 'a.b.c.d', 'org..x', '.x', 'x.',
                     '\U0001f600.y', 'flex.mine.Thing', 'os.path', 'X' * 300,
                     'com.acme::Thing', '0', '-', '\u0000',
                     'flex.messaging.io.Other']),
    st.text(min_size=1, max_size=10))
UNREG = ['org.nowhere.Thing', 'Nope', 'caf\xe9.Nope', 'x.y', 'flex.zzz.No',
         'flex.messaging.messages.Nope', 'no such', '\u20ac.\u20ac', 'a..b',
         '.', 'os.nothing', 'os.path.join', 'pyamf.amf3.nope', 'zip.zap']


@st.composite
def plain_spec(draw):
    out = []
    taken = set()
    for i in range(draw(st.integers(1, 4))):
        base = draw(st.sampled_from([None] + list(range(i)) * 2))
        kind = out[base]['kind'] if base is not None else draw(
            st.sampled_from(['new', 'new', 'old', 'dict']))
        s = {'kind': kind, 'base': base}
        how = draw(st.sampled_from(['call', 'call', 'bytes', 'meta', 'none',
                                    'base']))
        name = draw(REG.filter(lambda n: n not in taken and n not in UNREG))
        taken.add(name)
        s['alias'] = name
        s['reg'] = None if how == 'none' else how
        if how == 'base':
            # declares nothing but is registered under the same rules
            s['reg'] = 'call'
        if how == 'meta':
            s['meta'] = {'alias': name, 'form': draw(
                st.sampled_from(['new', 'old', 'dict']))}
        else:
            s['meta'] = {'form': 'dict'}
        if draw(st.integers(0, 4)) == 0:
            s['meta']['amf3'] = 1
        out.append(s)
    return out


@st.composite
def attrs_value(draw, inf, ver, depth, budget):
    budget[0] -= 1
    if depth > 0 and budget[0] > 0:
        k = draw(st.integers(0, 5))
        if k < 2:
            return draw(inst(inf, ver, depth - 1, budget))
        if k == 2:
            return ['l', [draw(attrs_value(inf, ver, depth - 1, budget))
                          for _ in range(draw(st.integers(0, 3)))]]
        if k == 3:
            return ['m', [[n, draw(attrs_value(inf, ver, depth - 1, budget))]
                          for n in draw(st.lists(gen.attr_name, max_size=2,
                                                 unique=True))]]
    return draw(classes.VALUES[(False, ver)])


@st.composite
def inst(draw, inf, ver, depth=3, budget=None):
    if budget is None:
        budget = [8]
    c = draw(st.sampled_from(inf))
    names = gen.attr_name       # Jython garbles other attribute names
    if c.is_dict:
        names = st.one_of(gen.attr_name, gen.key_text)
    return ['c', c.i, [[n, draw(attrs_value(inf, ver, depth - 1, budget))]
                       for n in draw(st.lists(names, max_size=4,
                                              unique=True))]]


@st.composite
def roundtrip(draw, ver):
    specs = draw(plain_spec())
    inf = classes.infos(specs)
    return {'v': ver, 'classes': specs, 'strict': draw(st.booleans()),
            'vals': [draw(inst(inf, ver)) for _ in
                     range(draw(st.integers(1, 2)))],
            'order': list(draw(st.permutations(range(len(specs)))))}


@st.composite
def unknown(draw, ver):
    specs = draw(plain_spec())
    inf = classes.infos(specs)
    ws = []
    for _ in range(draw(st.integers(1, 2))):
        x = draw(classes.received_obj(ver, inf, 3, [8], UNREG))
        k = draw(st.integers(0, 7))
        if k == 0:
            x = ['arr', [], [x, ['r', 1]]]
        elif k == 1:
            x = ['obj', '', [], [['k', x]]]
        elif k in (2, 3) and ver == 0:
            x = ['arr', [], [['amf3', draw(classes.received_obj(
                3, inf, 3, [8], UNREG))]]]
        elif k == 4 and ver == 3:
            x = ['ac', ['arr', [], [x]]]
        elif k == 5 and ver == 3:
            x = ['op', x]
        ws.append(x)
    return {'v': ver, 'classes': specs, 'w': ws, 'strict': draw(
        st.booleans()), 'ch': draw(wiregen.choices),
        'order': list(draw(st.permutations(range(len(specs)))))}


class Mapping(Receiving):
    quick = 3000
    thorough = 80000
    rule = ('Case: 1-4 generated classes deriving from each other, '
            'registered in any order under any text (call, byte string or '
            'declaration) or not at all; either graphs of their instances '
            'are sent and read back, or objects of registered and unknown '
            'classes written by the independent writer are read, strict or '
            'not. Non-trivial: a registered or unknown class name occurs on '
            'the wire.')
    assumptions = []

    def strategy(self, tier):
        return st.one_of(roundtrip(3), roundtrip(0), unknown(3), unknown(0))

    def check(self, w, case):
        if 'w' in case:
            nt, labels = Receiving.check(self, w, case)
            return bool(case['classes']), labels + ['received']
        ver = case['v']
        inf = classes.infos(case['classes'])
        e = classes.CEnc(ver, inf)
        try:
            want = [e.enc(r) for r in model.parse_all(case['vals'])]
        except model.CannotEncode:
            return False, ['cannot']
        got = w.call('cls', **case)
        require('hex' in got, 'an instance could not be encoded', got)
        data = bytes.fromhex(got['hex'])
        try:
            rs, pos = amfref.decode_all(ver, data, len(want))
        except amfref.Bad as x:
            raise Violation('not well-formed: %s; %s' % (x, got['hex'][:600]))
        require(pos == len(data), 'bytes left over')
        d = model.diff(model.dump_wires(rs, ver), model.dump_wires(want, ver))
        if d:
            raise Violation('the bytes mean something else: %s; %s'
                            % (d, got['hex'][:600]))
        require(got['same'], 'encoding changed the instance')
        require('dec_error' not in got, 'could not be read back', got)
        d = classes.CDec(ver, inf)
        d = model.diff(got['vals'], model.dump_values(
            [d.dec(x) for x in want]))
        if d:
            raise Violation('read back differently: %s' % d)
        require(got['left'] == 0, 'bytes left over')
        k = wiregen.kinds(want)
        return 'typed' in k, ['roundtrip'] + k


PROP = Mapping()
PROP.id = 'C13'
