from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, classes, model


class Sending(Prop):
    modules = ('vals', 'classes')
    quick = 3000
    thorough = 80000
    rule = ('Case: 1-4 generated classes (new-style, old-style, dictionary-'
            'like, with slots and properties, deriving from each other) with '
            'any mix of static, excluded, read-only, proxied, synonym, '
            'dynamic and amf3 declarations, registered or not in any order, '
            'and 1-3 values holding instances of them; the bytes are read by '
            'an independent reader and must hold exactly the attributes the '
            'declarations allow. Non-trivial: a declaration applies to an '
            'attribute of an encoded instance.')
    assumptions = ['pbt/classes.py renders the documented meaning of the '
                   'declarations']

    def strategy(self, tier):
        return st.one_of(classes.sent(3), classes.sent(3), classes.sent(0))

    def check(self, w, case):
        ver = case['v']
        inf = classes.infos(case['classes'])
        e = classes.CEnc(ver, inf)
        try:
            want = [e.enc(r) for r in model.parse_all(case['vals'])]
        except model.CannotEncode:
            want = None
        got = w.call('cls', enc_only=True, **case)
        if want is None:
            return False, ['cannot']
        require('hex' in got, 'an instance could not be encoded', got)
        data = bytes.fromhex(got['hex'])
        try:
            rs, pos = amfref.decode_all(ver, data, len(want))
        except amfref.Bad as x:
            raise Violation('not well-formed: %s; %s' % (x, got['hex'][:600]))
        require(pos == len(data), 'bytes left over')
        d = model.diff(model.dump_wires(rs, ver), model.dump_wires(want, ver))
        if d:
            raise Violation('other attributes were sent than allowed: %s; %s'
                            % (d, got['hex'][:600]))
        require(got['same'], 'encoding changed the instance')
        f = classes.features(inf)
        return bool({'static', 'exclude', 'synonym', 'closed', 'proxy',
                     'slots', 'props'} & set(f)), f


PROP = Sending()
PROP.id = 'C14'
