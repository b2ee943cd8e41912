from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model


def xml_slot(got, data, n, tz=0):
    """Known finding: the AMF0 decoder counts XML documents as reference
    targets (a test requires it), the encoder and the specification do not.
    True only if that alone explains what was decoded."""
    try:
        ws, pos = amfref.decode_all(0, data, n, count_xml=True)
    except amfref.Bad as e:
        if e.kind == 'ref' and got.get('dec_error') == 'ReferenceError':
            return 'amf0-xml-slot'
        return None
    d = model.Dec(0, tz)
    if 'vals' in got and model.diff(
            got['vals'], model.dump_values([d.dec(w) for w in ws])) is None:
        return 'amf0-xml-slot'
    return None


ODD = st.sampled_from(['tuple', 'none', 'float', 'empty', 'nested',
                       'frozen']).map(lambda k: [k])


class RoundTrip(Prop):
    modules = ('vals',)
    ver = 0
    quick = 9000
    thorough = 200000
    rule = ('Case: 1-2 value recipes (nested containers, instances of 10 '
            'fixture classes, dates, XML, text, numbers, back-references) '
            'encoded by one encoder and decoded by one decoder. Non-trivial: '
            'at least one container holding at least two further values.')

    def opts(self):
        return gen.Opts(self.ver)

    def strategy(self, tier):
        small = gen.Opts(self.ver)
        huge = gen.Opts(self.ver, huge=True, max_nodes=4)
        bad = gen.Opts(self.ver, empty_key=True)
        return st.one_of(*([gen.values(small)] * 30 + [gen.values(huge, 1)] +
                           [self.badkey()]))

    def badkey(self):
        """Keys the format cannot carry, somewhere in a value."""
        key = st.one_of(self.badkeys(), ODD)
        return st.builds(
            lambda k, kind, v, pos: [[ 'l', [v, [kind, [[k, v]]]] ]] if pos
            else [[kind, [[k, v]]]],
            key, st.sampled_from(['m', 'o', 'M']),
            st.sampled_from([['n'], ['i', '1'], ['s', 'x']]), st.booleans())

    def badkeys(self):
        return st.sampled_from(['x' * 65535, 'x' * 65536, '\xe9' * 32768,
                                '\u20ac' * 21845, 'x' * 70000])

    def expect(self, case):
        rs = model.parse_all(case)
        e = model.Enc(self.ver)
        ws = [e.enc(r) for r in rs]
        d = model.Dec(self.ver)
        return model.dump_values([d.dec(w) for w in ws])

    def fixed(self, tier):
        return FIXED

    def check(self, w, case):
        labels = gen.tags(case)
        try:
            want = self.expect(case)
        except model.CannotEncode:
            got = w.call('roundtrip', v=self.ver, vals=case)
            if 'enc_error' not in got:
                raise Violation('a value that cannot be carried was encoded: '
                                '%r' % (got,))
            return True, labels + ['refused']
        got = w.call('roundtrip', v=self.ver, vals=case)
        if 'enc_error' in got:
            raise Violation('encoding failed: %s %s' % (got['enc_error'],
                                                        got['msg']))
        key = None
        if self.ver == 0 and 'x' in labels:
            key = xml_slot(got, bytes.fromhex(got['hex']), len(case))
        if 'dec_error' in got:
            raise Violation('decoding what was encoded failed: %s %s (%s)' % (
                got['dec_error'], got['msg'], got['hex'][:400]), key)
        d = model.diff(got['vals'], want)
        if d:
            raise Violation('decoded value differs at %s; bytes %s' % (
                d, got['hex'][:400]), key)
        require(got['left'] == 0, 'bytes left over', got['left'])
        return gen.count(case) >= 4, labels


D = ['d', 2020, 1, 2, 3, 4, 5, 0]
X = ['x', ['a', [['k', 'v']], 'text', [], '']]
L = ['l', [['i', '1']]]
def many(n):
    return [['l', [['c', 'K%d' % (i % n), [['a', ['i', str(i)]]]]
                   for i in range(2 * n)]]]


FIXED = [
    many(15), many(17), many(31), many(33), many(63), many(64),
    [['l', [D, L, ['r', 1]]]],
    [['l', [X, L, ['r', 1]]]],
    [['l', [['B', '0102', 0], L, ['r', 2], ['r', 1]]]],
    [['l', [['ac', [['i', '1']]], L, ['r', 2]]]],
    [['l', [['op', ['m', [['a', ['i', '1']]]]], L, ['r', 3]]]],
    [['M', [[1, ['s', 'one']], [2, ['s', 'two']]]]],
    [['M', [[0, ['s', 'zero']], [5, ['s', 'five']]]]],
    [['M', [[-1, ['s', 'neg']], [0, ['s', 'zero']]]]],
    [['M', [['01', ['i', '1']], [1, ['i', '2']]]]],
    [['d', 1969, 12, 31, 23, 59, 59, 500000]],
    [['l', [X, ['s', 'abc'], ['s', 'abc']]]],
    [['c', 'Uni', [['a', ['s', 'x']]]]],
]

PROP = RoundTrip()
PROP.id = 'C01'
