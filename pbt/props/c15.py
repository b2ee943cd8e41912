from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, classes, model, wiregen


class Receiving(Prop):
    modules = ('vals', 'classes')
    quick = 3000
    thorough = 80000
    rule = ('Case: 1-4 generated classes as for C14, and 1-2 wire graphs of '
            'objects of these classes holding any attributes (static ones '
            'nearly always), written by the independent writer; the decoded '
            'instances must hold exactly the attributes the declarations '
            'allow, with the received values. Non-trivial: a declaration '
            'applies.')
    assumptions = ['pbt/classes.py renders the documented meaning of the '
                   'declarations']
    unknown = None

    def strategy(self, tier):
        return st.one_of(classes.received(3), classes.received(3),
                         classes.received(0))

    def check(self, w, case):
        ver = case['v']
        case = dict(case)
        inf = classes.infos(case['classes'])
        ws = wiregen.parse_all(ver, case.pop('w'))
        data = amfref.encode_all(ver, ws, case.pop('ch'))
        n = len(ws)
        got = w.call('cls', hex=data.hex(), n=n, **case)
        labels = classes.features(inf)
        d = classes.CDec(ver, inf, case.get('strict', False))
        try:
            want = model.dump_values([d.dec(x) for x in ws])
        except model.MissingStatic:
            require('dec_error' in got, 'an object without a static attribute '
                    'was accepted', got)
            return True, labels + ['missing-static']
        except classes.UnknownClass:
            require(got.get('dec_error') == 'UnknownClassAlias',
                    'an unknown class was not refused as such', got)
            return True, labels + ['unknown-class']
        if 'dec_error' in got:
            raise Violation('well-formed objects were refused: %s %s (%s)' % (
                got['dec_error'], got['msg'], data.hex()[:600]))
        x = model.diff(got['vals'], want)
        if x:
            raise Violation('other attributes were set than allowed: %s; '
                            'bytes %s' % (x, data.hex()[:600]))
        require(got['left'] == 0, 'stream is not right after the item')
        return bool({'static', 'exclude', 'synonym', 'closed', 'proxy',
                     'slots', 'props', 'readonly'} & set(labels)), labels


PROP = Receiving()
PROP.id = 'C15'
