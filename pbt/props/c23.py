from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, remref, wiregen
from pbt.props.c08 import BYTES, mutate, mutation
from pbt.props.c22 import ids, name

how = st.sampled_from(['exact', 'exact', 'exact', 'exact', None, 'ff', 1, -1,
                       256])
tgt = st.one_of(
    st.sampled_from(['a.b', 'null', '', 'x/onResult', '/1/onStatus',
                     '/onResult', 'a/onStatus/onResult', 'onResult',
                     'a/onResultx', '/2/onDebugEvents', 'caf\xe9.b']),
    gen.short_text)


@st.composite
def value(draw, ver):
    budget = [6]
    if ver == 3 and draw(st.booleans()):
        return ['amf3', draw(wiregen.wire(3, 3, budget, True, True))]
    # XML inside AMF0: a known finding of C08
    return draw(wiregen.wire(0, 3, budget, False, True))


@st.composite
def envelope(draw):
    ver = draw(st.sampled_from([0, 3] * 10 + [1, 9, 10, 11, 255, 256,
                                           65535]))
    hs = draw(st.lists(st.tuples(
        name, st.sampled_from([0, 1, 1, 2, 255]), value(ver), how).map(list),
        max_size=3))
    bs = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3]))):
        if draw(st.booleans()):
            if draw(st.integers(0, 4)) == 0:
                args = ['amf3', draw(wiregen.wire(3, 3, [6]))] \
                    if draw(st.booleans()) else \
                    ['amf3', ['arr', [], draw(st.lists(
                        wiregen.wire(3, 2, [4]), max_size=3))]]
            else:
                args = ['args', draw(st.lists(value(ver), max_size=3))]
            bs.append(['req', draw(ids), draw(tgt), args, draw(how)])
        else:
            bs.append(['res', draw(ids), draw(st.sampled_from([0, 1, 2])),
                       draw(value(ver)), draw(how),
                       draw(st.sampled_from(['null', '', '/1', '\u20ac']))])
    return {'ver': ver, 'h': hs, 'b': bs}


def clean(c):
    e = c['env']
    return dict(c, tail='', counts=[0, 0], m=[], env={
        'ver': e['ver'], 'h': [h[:3] + ['exact'] for h in e['h']],
        'b': [b[:4] + ['exact'] + b[5:] for b in e['b']]})


FAULT = ('code', 'type', 'details', 'description')


class Broken(Prop):
    modules = ('vals', 'remote')
    quick = 5000
    thorough = 200000
    rule = ('Case: an envelope of the independent writer (any version, names, '
            'flags, values of both formats, lengths exact, unknown or wrong, '
            'repeated ids, counts off) with 0-3 mutations, or short raw '
            'bytes, decoded strictly or not. An independent reader says what '
            'it denotes. Non-trivial: it is malformed, or holds at least one '
            'message or header.')
    assumptions = ['what pbt/amfref.py calls "other" malformations (text '
                   'that is not UTF-8, broken XML, inconsistent trait flags) '
                   'may be refused or tolerated',
                   'values for which no Python value exists (a static '
                   'attribute is missing, absurd dates) may be refused']

    def strategy(self, tier):
        s = st.fixed_dictionaries({
            'env': envelope(), 'strict': st.integers(0, 1),
            'stream': st.integers(0, 1),
            'tail': st.sampled_from(['', '', '', '00', '0002ff']),
            'counts': st.sampled_from([[0, 0]] * 12 + [
                [1, 0], [0, 1], [-1, 0], [0, -1], [0, 2]]),
            'm': st.lists(mutation, max_size=2)})
        none = s.map(lambda c: dict(c, m=[]))
        exact = none.map(clean)
        late = s.map(lambda c: dict(clean(c), m=[
            [m[0], m[1] + 10] + m[2:] for m in c['m']]))
        raw = st.fixed_dictionaries({
            'strict': st.integers(0, 1), 'stream': st.integers(0, 1),
            'raw': st.lists(BYTES, max_size=24)})
        pre = raw.map(lambda c: dict(c, raw=[0, 3, 0, 0, 0, 1] + c['raw']))
        head = raw.map(lambda c: dict(c, raw=[0, 0, 0, 1, 0, 0] + c['raw']))
        return st.one_of(exact, exact, none, none, s, late, late, raw,
                         pre, head)

    def fixed(self, tier):
        b = ['req', '/1', 'a.b', ['args', [['str', 'x']]], 'exact']
        h = ['h', 1, ['str', 'v'], 'exact']
        out = []
        for v in (0, 3):
            for strict in (0, 1):
                c = {'strict': strict, 'stream': 1, 'tail': '', 'm': []}
                out.append(dict(c, counts=[0, 0], env={
                    'ver': v, 'h': [h, h, ['h', 0, ['null'], 'exact']],
                    'b': [b, b, b]}))
                for n in range(60):
                    out.append(dict(c, counts=[0, 0], m=[['cut', n]], env={
                        'ver': v, 'h': [h], 'b': [b]}))
                for k in ([0x7fff, 0], [0xfffe, 0], [0, 0x7ffe], [0, 0x7fff],
                          [0, 0xfffe]):
                    out.append(dict(c, counts=k, env={
                        'ver': v, 'h': [h], 'b': [b]}))
                # nothing in it, many times
                out.append({'strict': strict, 'stream': 1, 'many': 0x8001,
                            'ver': v})
                for x in range(1, 256):
                    out.append({'strict': strict, 'stream': 0, 'raw': [
                        0, v, 0, 0, 0, 1, 0, 1, 97, 0, 1, 98, 0, 0, 0, 0,
                        10, 255, 255, 255, x]})
                    if x > 6:
                        break
        return out

    def bytes(self, case):
        if 'raw' in case:
            return bytes(case['raw']), None
        if 'many' in case:
            return remref.write(case['ver'], [], [
                ['req', '', '', [], 'exact']] * case['many']), None
        e = case['env']

        # each value is on its own as regards references

        def one(r):
            return wiregen.Parser(0).parse(r)

        hs = [[n, q, one(r), l] for n, q, r, l in e['h']]
        bs = []
        for b in e['b']:
            b = list(b)
            if b[0] == 'req':
                b[3] = one(b[3]) if b[3][0] == 'amf3' else \
                    wiregen.parse_all(0, b[3][1])
            else:
                b[3] = one(b[3])
            bs.append(b)
        d = remref.write(e['ver'], hs, bs, [
            c if (0 <= n + c <= 65535) else 0
            for c, n in zip(case['counts'], (len(hs), len(bs)))])
        d += bytes.fromhex(case['tail'])
        return mutate(d, case['m']), d

    def check(self, w, case):
        data, orig = self.bytes(case)
        strict = case['strict']
        got = w.call('env_decode', hex=data.hex(), strict=strict,
                     stream=case['stream'], _timeout=60)
        err = got.get('error')
        what = data.hex()[:600]
        labels = ['strict' if strict else 'loose']
        want = p = None
        seen = set()
        try:
            p = remref.parse(data, strict, seen)
            kind = 'ok'
            try:
                want = self.expected(p)
            except (model.MissingStatic, TypeError, AttributeError,
                    ValueError, OverflowError):
                kind = 'novalue'
        except amfref.Bad as e:
            kind = e.kind
        except RecursionError:
            return False, ['deep']
        labels.append(kind)
        # classes, dates and XML have errors of their own
        own = bool(seen) or b'<' in data
        odd = b'\x0f' in data and self.xml0(p) if p else b'<' in data
        if kind == 'ok':
            if err is not None:
                # unknown classes are refused in strict mode
                if not (self.may_refuse(p) or odd or strict and
                        'cls' in seen and err == 'UnknownClassAlias'):
                    raise Violation('a well-formed envelope was refused: %s '
                                    '%s; %s' % (err, got['msg'], what))
                labels.append('objected')
            else:
                for a, b in zip(got['bodies'], want['bodies']):
                    if b[3] == 'other' and a[3:] == [[]]:
                        b[3:] = [[]]    # nothing, or something like it
                for k in ('ver', 'headers', 'bodies'):
                    d = model.diff(got[k], want[k])
                    if d and odd:
                        continue
                    require(not d, '%s misread' % k, d, what)
                if case['stream']:
                    require(got['pos'] == p.pos, 'wrong position after the '
                            'envelope', got['pos'], p.pos, what)
        elif kind == 'novalue':
            pass
        elif kind == 'other':
            pass
        else:
            require(err is not None, 'a broken envelope (%s) was returned' %
                    kind, got, what)
            if kind == 'version':
                require(err == 'DecodeError', 'unsupported version', got,
                        what)
            if err not in ('EOStream', 'IOError', 'DecodeError',
                           'ReferenceError') and \
                    (kind, err) != ('text', 'UnicodeDecodeError'):
                labels.append('err-' + err)
                require(own, 'a broken envelope (%s) raised %s' % (
                    kind, err), got, what)
        return (kind != 'ok' and len(data) > 6) or bool(
            p and (p.headers or p.bodies)), labels

    def values(self, p):
        for h in p.headers:
            yield h[2]
        for b in p.bodies:
            if b.kind == 'res':
                yield b.value
            elif isinstance(b.args, list):
                for x in b.args:
                    yield x
            else:
                yield b.args

    def may_refuse(self, p):
        from pbt.props.c08 import PROP as C08
        return any(C08.may_refuse(v) for v in self.values(p))

    def xml0(self, p):
        seen = set()

        def go(v):
            if isinstance(v, tuple):
                return False        # in AMF3 it is fine
            if id(v) in seen:
                return False
            seen.add(id(v))
            if v.kind == 'xml':
                return True
            return any(go(x) for x in v.dense) or any(
                go(x) for _, x in v.assoc + v.sealed + (v.dyn or []))
        return any(go(v) for v in self.values(p))

    def expected(self, p):
        want = {'ver': p.ver, 'headers': [], 'bodies': []}
        hs = {}
        for n, q, v, _, _ in p.headers:
            hs[n] = (int(q != 0), model.dump_values([model.Dec(0).dec(v)])[0])
        for n in sorted(hs, key=lambda n: n.encode('utf-8')):
            want['headers'].append([n] + list(hs[n]))
        for b in p.bodies:
            d = model.Dec(0)
            if b.kind == 'req':
                r = ['req', b.id, b.target]
                if isinstance(b.args, list):
                    r.append(model.dump_values([d.dec(x) for x in b.args]))
                else:
                    v = d.dec(b.args)
                    if getattr(v, 'kind', None) == 'list':
                        r.append(model.dump_values(v.items))
                    else:
                        r += ['other'] + model.dump_values([v])
                want['bodies'].append(r)
                continue
            v = d.dec(b.value)
            if b.status == 1 and getattr(v, 'kind', None) == 'obj':
                f = dict(v.pairs)
                err = f.get('level', ('str', 'error')) == ('str', 'error')
                want['bodies'].append(
                    ['fault', b.id, 1, 'ErrorFault' if err else 'BaseFault',
                     ['str', 'error'] if err else ['null']] +
                    model.dump_values([f.get(k, ('str', '')) for k in FAULT]))
            else:
                want['bodies'].append(['res', b.id, b.status,
                                       model.dump_values([v])[0]])
        return want


PROP = Broken()
PROP.id = 'C23'
