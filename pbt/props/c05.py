from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, model, wiregen
from pbt.props.c01 import xml_slot


class Read(Prop):
    """Well-formed bytes of an independent writer decode to what they mean."""
    modules = ('vals',)
    ver = 0
    quick = 9000
    thorough = 200000
    rule = ('Case: 1-2 wire graphs plus a list of encoding choices; the '
            'independent writer turns them into bytes. Non-trivial: at least '
            '12 bytes and at least one container.')
    assumptions = ['pbt/amfref.py renders the AMF specifications correctly']

    def strategy(self, tier):
        one = wiregen.wire(self.ver)
        return st.fixed_dictionaries({
            'w': st.lists(one, min_size=1, max_size=2),
            'ch': wiregen.choices})

    def fixed(self, tier):
        big = [['arr', [], [['obj', '', [], [['a', ['null']]]]] * 3]]
        return [{'w': big, 'ch': []},
                {'w': [['str', 'x' * 65536]], 'ch': []},
                {'w': [['str', '\u20ac' * 70000]], 'ch': []}]

    def check(self, w, case):
        ws = wiregen.parse_all(self.ver, case['w'])
        stats = {}
        data = amfref.encode_all(self.ver, ws, case['ch'], stats)
        labels = wiregen.kinds(ws) + sorted(stats)
        n = len(case['w'])
        got = w.call('decode', v=self.ver, hex=data.hex(), n=n)
        d = model.Dec(self.ver)
        try:
            want = model.dump_values([d.dec(x) for x in ws])
        except model.MissingStatic:
            require('dec_error' in got, 'an object lacking a static attribute '
                    'was accepted', got)
            return True, labels + ['missing-static']
        key = None
        if self.ver == 0 and 'xml' in labels:
            key = xml_slot(got, data, n)
        if 'dec_error' in got:
            raise Violation('well-formed bytes were refused: %s %s (%s)' % (
                got['dec_error'], got['msg'], data.hex()[:400]), key)
        x = model.diff(got['vals'], want)
        if x:
            raise Violation('decoded value differs at %s; bytes %s' % (
                x, data.hex()[:400]), key)
        require(got['left'] == 0, 'stream is not right after the item',
                got['left'])
        nt = len(data) >= 12 and bool(wiregen.CONTAINERS & set(labels))
        return nt, labels


PROP = Read()
PROP.id = 'C05'
