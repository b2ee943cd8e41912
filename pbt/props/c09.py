from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model
from pbt.props.c01 import xml_slot


def sequences(ver):
    o = gen.Opts(ver, max_nodes=7, classes=[
        'Plain', 'Old', 'Static', 'SD', 'Slots', 'Kid', 'Uni', 'Anon'])
    return st.lists(gen.value(o, 3), min_size=2, max_size=6)


class Streams(Prop):
    modules = ('vals', 'streams')
    quick = 6000
    thorough = 150000
    rule = ('Case: 2-6 values (which may share containers) encoded one by '
            'one or together, then decoded from one piece or from chunks cut '
            'at arbitrary byte positions, reading as far as possible after '
            'each chunk. Non-trivial: at least two values and at least one '
            'cut inside a value.')

    def strategy(self, tier):
        def one(ver):
            return st.fixed_dictionaries({
                'v': st.just(ver), 'vals': sequences(ver),
                'amf3': st.sampled_from([0, 0, 0, 1]),
                'enc': st.sampled_from(['call', 'send', 'each', 'write']),
                'how': st.sampled_from(['decode', 'next', 'read', 'next',
                                        'read', 'next', 'read']),
                'cuts': st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=8),
                'every': st.sampled_from([0, 0, 0, 0, 1])})
        return st.one_of(one(0), one(3))

    def check(self, w, case):
        ver, vs = case['v'], case['vals']
        amf3 = bool(case['amf3']) and ver == 0
        labels = ['v%d' % ver, case['enc'], case['how']] + gen.tags(vs)
        rs = model.parse_all(vs)
        # two values at a time could share structure: model them together
        if amf3:
            labels.append('use_amf3')
            sub = model.Enc(3)
            enc = lambda r: ('amf3', sub.enc(r))
        else:
            enc = model.Enc(ver).enc
        try:
            ws = [enc(r) for r in rs]
        except model.CannotEncode:
            got = w.call('stream', v=ver, vals=vs, enc=case['enc'],
                         amf3=case['amf3'])
            require('enc_error' in got, 'a value that cannot be carried was '
                    'encoded', got)
            return False, labels + ['refused']
        d = model.Dec(ver)
        want = model.dump_values([d.dec(x) for x in ws])
        got = w.call('stream', v=ver, vals=vs, enc=case['enc'],
                     amf3=case['amf3'])
        require('enc_error' not in got, 'encoding failed', got)
        require('badpos' not in got, 'the encoded stream is not at its start',
                got)
        data = bytes.fromhex(got['hex'])
        # value boundaries, by the independent reader
        rd = amfref.Reader(data)
        ref = amfref.Ref0Decoder(rd) if ver == 0 else amfref.Ref3Decoder(rd)
        bounds = []
        rws = []
        try:
            for _ in vs:
                rws.append(ref.value())
                bounds.append(rd.p)
        except amfref.Bad as e:
            raise Violation('bytes are not well-formed: %s; %s' % (
                e, got['hex'][:400]))
        require(rd.p == len(data), 'bytes left over', len(data) - rd.p)
        x = model.diff(model.dump_wires(rws, ver), model.dump_wires(ws, ver))
        if x:
            raise Violation('the bytes mean something else at %s; %s' % (
                x, got['hex'][:400]))
        if 'pieces' in got:
            require(got['stream_ok'], 'the pieces are not the stream')
            ends = []
            for n in got['pieces']:
                ends.append(n + (ends[-1] if ends else 0))
            require(ends == bounds, 'the encoder did not return the bytes of '
                    'each value', ends, bounds)
        n = len(data)
        if case['every'] and n < 400:
            cuts = list(range(1, n))
            labels.append('bytewise')
        else:
            cuts = sorted(c % (n + 1) for c in case['cuts'])
        if case['how'] == 'decode':
            cuts = []
        res = w.call('feed', v=ver, hex=got['hex'], cuts=cuts,
                     how=case['how'])
        key = None
        if ver == 0 and 'x' in labels:
            key = xml_slot(res, data, len(vs))
        x = model.diff(res['vals'], want)
        if x:
            raise Violation('decoded values differ at %s; bytes %s cuts %s' %
                            (x, got['hex'][:400], cuts), key)
        for c, k, pos in zip(cuts + [n], res['counts'], res['poss']):
            done = sum(1 for b in bounds if b <= c)
            require(k == done, 'after %d bytes, %d values are complete but %d '
                    'were read' % (c, done, k), bounds)
            at = bounds[done - 1] if done else 0
            require(pos == at, 'the decoder is not right after the last '
                    'complete value', pos, at)
        inside = any(c not in bounds and 0 < c < n for c in cuts)
        if inside:
            labels.append('cut-inside')
        return len(vs) > 1 and inside, labels


PROP = Streams()
PROP.id = 'C09'
