from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, remref

name = st.one_of(st.sampled_from(['a', 'b', 'Credentials', 'caf\xe9',
                                  '\u20ac\u20ac', '']), gen.short_text)
ids = st.one_of(
    st.sampled_from(['/1', '/2', '/3', '/4', '/5', 'null', '', 'caf\xe9',
                     '\u20ac/1', '1/onResult', '2/onStatus',
                     '3/onDebugEvents/onStatus']),
    st.integers(1, 300).map(lambda n: '/%d' % n), gen.short_text)
target = st.one_of(
    st.sampled_from(['a.b', 'service.method', 'null', '', 'caf\xe9.\u20ac',
                     'onResult', '/onResult/x']),
    gen.short_text).filter(
        lambda s: not any(s.endswith(x) for _, x in remref.SUFFIX))
CLASSES = ['Plain', 'Old', 'Static', 'SD', 'Slots', 'Kid', 'Uni', 'Anon']


def value(ver):
    # XML inside AMF0: a known finding of C01
    return gen.value(gen.Opts(3 if ver == 3 else 0, xml=(ver == 3),
                              max_nodes=6, classes=CLASSES), 3)


def ops(ver):
    v = value(ver)
    h = st.tuples(st.just('h'), name, st.sampled_from([None, 0, 1]), v)
    req = st.tuples(st.just('req'), ids, target, st.lists(v, max_size=3))
    res = st.tuples(st.just('res'), ids, st.sampled_from([0, 0, 1, 2]), v)
    fault = st.tuples(st.just('fault'), ids, st.fixed_dictionaries(
        {}, optional={k: st.one_of(gen.short_text.map(lambda s: ['s', s]), v)
                      for k in ('code', 'type', 'details', 'description')}))
    hr = st.tuples(st.just('hr'), name, st.integers(0, 1))
    return st.lists(st.one_of(h, h, hr, req, req, req, res, res,
                              fault).map(list), min_size=1, max_size=8)


class Envelope(object):
    """The model of what was put in."""

    def __init__(self, case):
        self.ver = case['ver']
        self.headers = {}
        self.bodies = {}
        refs = model.Refs()
        for o in case['ops']:
            if o[0] == 'h':
                old = self.headers.get(o[1], (0, None))
                self.headers[o[1]] = (
                    old[0] if o[2] is None else o[2], refs.parse(o[3]))
            elif o[0] == 'hr':
                if o[1] in self.headers:
                    self.headers[o[1]] = (o[2], self.headers[o[1]][1])
            elif o[0] == 'req':
                self.bodies[o[1]] = ('req', o[2],
                                     [refs.parse(x) for x in o[3]])
            elif o[0] == 'res':
                self.bodies[o[1]] = ('res', o[2], refs.parse(o[3]))
            else:
                # the same order as the worker, which shares containers
                self.bodies[o[1]] = ('fault', 1, {
                    k: refs.parse(x) for k, x in sorted(o[2].items())})


def un(w, ver):
    return w[1] if ver == 3 else w


FAULT = ('code', 'type', 'details', 'description')


class Envelopes(Prop):
    modules = ('vals', 'remote')
    quick = 3500
    thorough = 120000
    rule = ('Case: an envelope put together by 1-8 operations (headers set '
            'and set again, required or not; requests, responses and faults '
            'put under any id, replacing earlier ones; values may share '
            'containers), any version, strict or not, any timezone offset; '
            'encoded, parsed by an independent reader, decoded both strictly '
            'and leniently. Non-trivial: at least two messages or headers.')

    def strategy(self, tier):
        def one(ver):
            return st.fixed_dictionaries({
                'ver': st.just(ver), 'strict': st.integers(0, 1),
                'tz': st.sampled_from([None, None, None, 0, 3600, -1800,
                                       -43200]),
                'dup': st.integers(0, 7), 'ops': ops(ver)})
        return st.one_of(one(0), one(3), one(0), one(3),
                         st.sampled_from([1, 2, 4, 7, 9]).flatmap(one))

    def fixed(self, tier):
        big = [['req', '/%d' % i, 't', [['i', str(i)]]] for i in range(300)]
        out = []
        for v in (0, 3):
            for s in (0, 1):
                c = {'ver': v, 'strict': s, 'tz': None}
                out.append(dict(c, ops=big))
                for n in (255, 256, 65535):
                    for t in ('x' * n, '\xe9' * (n // 2) + 'y' * (n % 2)):
                        out.append(dict(c, ops=[
                            ['req', t, 't', []], ['h', 'h', 1, ['n']]]))
                        out.append(dict(c, ops=[['req', 'i', t, [['n']]]]))
                        out.append(dict(c, ops=[['h', t, 1, ['n']]]))
                for t in ('x' * 65536, '\xe9' * 32768):
                    out.append(dict(c, ops=[['req', t, 't', []]]))
                    out.append(dict(c, ops=[['req', 't', t, []]]))
                    out.append(dict(c, ops=[['h', t, 0, ['n']]]))
                out.append(dict(c, ops=[['res', 'x' * 65527, 0, ['n']]]))
        return out

    def too_long(self, m):
        def over(s):
            return len(s.encode('utf-8')) > 65535
        return any(over(n) for n in m.headers) or any(
            over(i if b[0] == 'req' else i + remref.SUFFIX[b[1]][1]) or
            b[0] == 'req' and over(b[1]) for i, b in m.bodies.items())

    def check(self, w, case):
        m = Envelope(case)
        ver, strict, tz = case['ver'], case['strict'], case['tz']
        got = w.call('envelope', **case)
        labels = ['v%d' % ver, 'strict' if strict else 'loose']

        def enc():
            if ver == 3:
                e = model.Enc(3, tz)
                return lambda r: ('amf3', e.enc(r))
            return model.Enc(0, tz).enc

        try:
            hs = {n: (q, enc()(v)) for n, (q, v) in m.headers.items()}
            bs = []
            for i, (kind, x, y) in m.bodies.items():
                e = enc()
                if kind == 'req':
                    bs.append((kind, i, x, [e(v) for v in y]))
                elif kind == 'res':
                    bs.append((kind, i, x, e(y)))
                else:
                    f = model.W('obj')
                    f.sealed = [('level', ('str', 'error'))]
                    f.dyn = []
                    bs.append((kind, i, x, ('amf3', f) if ver == 3 else f))
                    # in the order of the names on the wire
                    f.sealed += [(k, un(e(y[k]), ver) if k in y else ('str', ''))
                                 for k in FAULT]
        except model.CannotEncode:
            require('enc_error' in got, 'an envelope that cannot be carried '
                    'was encoded', got)
            return False, labels + ['refused']
        if self.too_long(m):
            require('enc_error' in got, 'text too long for its length field '
                    'was encoded', got)
            return True, labels + ['long']
        require('enc_error' not in got, 'encoding failed', got)
        require(got['at'] == 0, 'the stream returned is not at its start')
        data = bytes.fromhex(got['hex'])
        # --- the bytes
        try:
            p = remref.parse(data, strict)
        except amfref.Bad as e:
            raise Violation('the bytes are not a well-formed envelope: %s; %s'
                            % (e, got['hex'][:600]))
        require(p.left == 0, 'bytes follow the envelope', p.left)
        require(p.ver == ver, 'version written', p.ver)
        require(sorted(h[0] for h in p.headers) == sorted(hs),
                'header names written', [h[0] for h in p.headers], sorted(hs))
        for n, q, v, stated, size in p.headers:
            require(q == hs[n][0], 'required flag written', n, q, hs[n][0])
            require(stated == (size if strict else 0),
                    'header length written', n, stated, size)
            self.same(v, hs[n][1], 'header %r' % n)
        require(len(p.bodies) == len(bs), 'number of messages written')
        for b, x in zip(p.bodies, bs):
            kind, i = x[:2]
            require(b.length == (b.size if strict else 0),
                    'message length written', b.length, b.size)
            if kind == 'req':
                require((b.kind, b.id, b.target) == (kind, i, x[2]),
                        'request written', b.kind, b.id, x)
                d = model.diff(model.dump_wires(b.args, 0),
                               model.dump_wires(x[3], 0))
                require(not d, 'arguments written', d, got['hex'][:600])
            else:
                require((b.kind, b.id, b.status) == ('res', i, x[2]),
                        'response written', b.kind, b.id, x)
                require(b.response == 'null', 'response field', b.response)
                self.same(b.value, x[3], 'response')
        # --- what is read back
        want = {'ver': ver, 'headers': [], 'bodies': []}
        for n in sorted(hs, key=lambda n: n.encode('utf-8')):
            want['headers'].append([n, hs[n][0], model.dump_values(
                [model.Dec(0, tz).dec(hs[n][1])])[0]])
        for kind, i, x, y in bs:
            d = model.Dec(0, tz)
            if kind == 'req':
                want['bodies'].append([kind, i, x, model.dump_values(
                    [d.dec(v) for v in y])])
            elif kind == 'res':
                v = d.dec(y)
                if x == 1 and getattr(v, 'kind', None) == 'obj':
                    want['bodies'].append(self.fault(i, v))
                else:
                    want['bodies'].append([kind, i, x,
                                           model.dump_values([v])[0]])
            else:
                want['bodies'].append(self.fault(i, d.dec(y)))
        for how in ('strict', 'loose'):
            g = got[how]
            if how == 'strict' and not strict and (hs or bs):
                require('error' in g, 'lengths left unknown were accepted '
                        'in strict mode', g)
                require(g['error'] == 'DecodeError', 'error', g)
                continue
            require('error' not in g, 'decoding failed', how, g,
                    got['hex'][:600])
            for k in ('ver', 'headers', 'bodies'):
                d = model.diff(g[k], want[k])
                require(not d, '%s read (%s)' % (k, how), d,
                        got['hex'][:600])
        # --- the same from another implementation, which says some headers
        # more than once: the last one counts
        hs2 = []
        for j, (n, (q, v)) in enumerate(hs.items()):
            if case.get('dup', 0) >> j & 1:
                hs2.append([n, 1 - q, ('str', 'old'), 'exact'])
        hs2 += [[n, q, v, 'exact'] for n, (q, v) in hs.items()]
        bs2 = []
        for kind, i, x, y in bs:
            if kind == 'req':
                bs2.append(['req', i, x, y, 'exact'])
            else:
                bs2.append(['res', i, x, y, 'exact', 'null'])
        data = remref.write(ver, hs2, bs2)
        for how in (0, 1):
            g = w.call('env_decode', hex=data.hex(), strict=how, tz=tz)
            require('error' not in g, 'a sound envelope was refused', how, g,
                    data.hex()[:600])
            for k in ('ver', 'headers', 'bodies'):
                d = model.diff(g[k], want[k])
                require(not d, '%s read (written by another)' % k, d,
                        data.hex()[:600])
        kinds = {b[0] for b in bs}
        return len(hs) + len(bs) > 1, labels + sorted(kinds) + \
            (['header'] if hs else [])

    def fault(self, i, v):
        p = dict(v.pairs)
        return ['fault', i, 1,
                'ErrorFault' if p.get('level', ('str', 'error')) ==
                ('str', 'error') else 'BaseFault',
                ['str', 'error'] if p.get('level', ('str', 'error')) ==
                ('str', 'error') else ['null']] + \
            model.dump_values([p.get(k, ('str', '')) for k in FAULT])

    def same(self, a, b, what):
        d = model.diff(model.dump_wires([a], 0), model.dump_wires([b], 0))
        require(not d, what, d)


PROP = Envelopes()
PROP.id = 'C22'
