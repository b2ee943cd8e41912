from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model
from pbt.props.c01 import RoundTrip


def unique_members(v, seen):
    """No object names a member twice."""
    if isinstance(v, tuple):
        if v[0] == 'amf3':
            unique_members(v[1], seen)
        return
    if id(v) in seen:
        return
    seen[id(v)] = v
    for ps in (v.assoc, v.sealed + (v.dyn or [])):
        names = [k for k, _ in ps]
        require(len(set(names)) == len(names), 'a member is sent twice', names)
        for _, x in ps:
            unique_members(x, seen)
    for x in v.dense + list(v.ext or []):
        if not (isinstance(x, tuple) and x[0] in ('utf', 'int', 'double')):
            unique_members(x, seen)


class Wire(RoundTrip):
    """Encoded bytes, read by the independent reader, mean the value."""
    quick = 9000
    rule = ('Case: 1-2 value recipes encoded by PyAMF and read back by the '
            'independent reader of pbt/amfref.py. Non-trivial: at least one '
            'container holding at least two further values.')
    assumptions = ['pbt/amfref.py and pbt/model.py render the AMF0/AMF3 '
                   'specifications correctly (they agree with PyAMF on all '
                   'generated cases)']

    def fixed(self, tier):
        from pbt.props.c01 import FIXED
        return FIXED

    def check(self, w, case):
        labels = gen.tags(case)
        rs = model.parse_all(case)
        try:
            e = model.Enc(self.ver)
            want = self.dump([e.enc(r) for r in rs])
        except model.CannotEncode:
            got = w.call('encode', v=self.ver, vals=case)
            if 'enc_error' not in got:
                raise Violation('a value that cannot be carried was encoded: '
                                '%r' % (got,))
            return True, labels + ['refused']
        got = w.call('encode', v=self.ver, vals=case)
        if 'enc_error' in got:
            raise Violation('encoding failed: %s %s' % (got['enc_error'],
                                                        got['msg']))
        data = bytes.fromhex(got['hex'])
        try:
            ws, pos = amfref.decode_all(self.ver, data, len(case))
        except amfref.Bad as e:
            raise Violation('bytes are not well-formed: %s; %s' % (
                e, got['hex'][:400]))
        require(pos == len(data), 'bytes left over', len(data) - pos)
        for x in ws:
            unique_members(x, {})
        d = model.diff(self.dump(ws), want)
        if d:
            raise Violation('the bytes mean something else at %s; %s' % (
                d, got['hex'][:400]))
        return gen.count(case) >= 4, labels

    def dump(self, ws):
        return model.dump_wires(ws, self.ver)


PROP = Wire()
PROP.id = 'C03'
