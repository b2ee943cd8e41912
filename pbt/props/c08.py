from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, model, wiregen
from pbt.props.c01 import xml_slot

BYTES = st.one_of(st.integers(0, 0x12), st.sampled_from(
    [0x7f, 0x80, 0x81, 0xff, 0xfe, 0x21, 0x23, 0x33, 0x13, 0x0b]),
    st.integers(0, 255))

mutation = st.one_of(
    st.tuples(st.just('cut'), st.integers(0, 400)),
    st.tuples(st.just('set'), st.integers(0, 400), BYTES),
    st.tuples(st.just('set'), st.integers(0, 40), BYTES),
    st.tuples(st.just('flip'), st.integers(0, 400), st.integers(0, 7)),
    st.tuples(st.just('ins'), st.integers(0, 400),
              st.lists(BYTES, min_size=1, max_size=4)),
    st.tuples(st.just('del'), st.integers(0, 400), st.integers(1, 6)),
    st.tuples(st.just('dup'), st.integers(0, 400), st.integers(1, 12)),
).map(list)


def mutate(data, ms):
    b = bytearray(data)
    for m in ms:
        n = len(b)
        i = m[1] % (n + 1)
        if m[0] == 'cut':
            del b[i:]
        elif m[0] == 'set':
            if n:
                b[m[1] % n] = m[2]
        elif m[0] == 'flip':
            if n:
                b[m[1] % n] ^= 1 << m[2]
        elif m[0] == 'ins':
            b[i:i] = bytes(m[2])
        elif m[0] == 'del':
            del b[i:i + m[2]]
        elif m[0] == 'dup':
            b[i:i] = b[i:i + m[2]]
    return bytes(b)


# names that exist in the standard library: [name, is a class]
IMPORTABLE = [['decimal.Decimal', True], ['decimal', False],
              ['decimal.getcontext', False], ['string.Template', True],
              ['string.ascii_letters', False], ['collections.deque', True],
              ['collections.nothing', False], ['sys', False],
              ['string', False], ['numbers.Number', True],
              ['sets.Set', True], ['textwrap.TextWrapper', True],
              ['textwrap.dedent', False]]


class Malformed(Prop):
    modules = ('vals',)
    quick = 9000
    thorough = 300000
    rule = ('Case: well-formed AMF0 or AMF3 bytes of the independent writer '
            'with 0-3 mutations (cut, set, flip, insert, delete, duplicate), '
            'or short byte strings biased to type markers. The independent '
            'reader says what they denote. Non-trivial: the bytes are '
            'malformed, or denote something other than before the mutation.')
    assumptions = ['what pbt/amfref.py calls "other" malformations (names '
                   'that are not UTF-8, broken XML, inconsistent trait flags) '
                   'may be refused or tolerated, not misread as truncation']

    def strategy(self, tier):
        def wires(ver):
            return st.fixed_dictionaries({
                'v': st.just(ver),
                'w': st.lists(wiregen.wire(ver, 3), min_size=1, max_size=1),
                'ch': wiregen.choices,
                'm': st.lists(mutation, min_size=1, max_size=3)})
        raw = st.fixed_dictionaries({
            'v': st.sampled_from([0, 3]),
            'raw': st.lists(BYTES, max_size=24)})
        imp = st.fixed_dictionaries({
            'v': st.sampled_from([0, 3]),
            'imp': st.sampled_from(IMPORTABLE)})
        return st.one_of(wires(0), wires(3), wires(0), wires(3), raw, raw,
                         imp)

    def fixed(self, tier):
        return [{'v': v, 'imp': i} for v in (0, 3) for i in IMPORTABLE] + \
            [{'v': 3, 'raw': [6, 0]}, {'v': 3, 'raw': [9, 0]},
             {'v': 3, 'raw': [10, 0]}, {'v': 3, 'raw': [10, 1]},
             {'v': 3, 'raw': [8, 0]}, {'v': 3, 'raw': [12, 2]},
             {'v': 3, 'raw': [11, 0]}, {'v': 3, 'raw': [7, 0]},
             {'v': 0, 'raw': [7, 0, 0]}, {'v': 0, 'raw': [0x11, 6, 0]},
             {'v': 0, 'raw': [4]}, {'v': 0, 'raw': [2, 0, 1, 255]},
             {'v': 3, 'raw': [6, 3, 128]}, {'v': 0, 'raw': [14]}]

    def check_import(self, w, case):
        name, isclass = case['imp']
        v = model.W('obj')
        v.cls = name
        v.dyn = [('a', ('bool', 1))]
        data = amfref.encode_all(case['v'], [v])
        got = w.call('decode', v=case['v'], hex=data.hex(), n=1)
        if not isclass:
            require(got.get('vals') == [['typed', name,
                                         [['a', ['bool', 1]]]]],
                    'a name that is no class must give a typed object', got)
        elif 'dec_error' not in got:
            x = got['vals'][0]
            mod, cls = name.rsplit('.', 1)
            require(x[0] == 'unknown' and x[1].rsplit('.', 1)[-1] == cls,
                    'the wrong class was instantiated', got)
        return True, ['import']

    def check(self, w, case):
        if 'imp' in case:
            return self.check_import(w, case)
        ver = case['v']
        orig = None
        if 'raw' in case:
            data = bytes(case['raw'])
        else:
            ws = wiregen.parse_all(ver, case['w'])
            orig = amfref.encode_all(ver, ws, case['ch'])
            data = mutate(orig, case['m'])
        got = w.call('decode', v=ver, hex=data.hex(), n=1)
        err = got.get('dec_error')
        labels = ['v%d' % ver]
        want = None
        loose = False
        try:
            rd = amfref.Reader(data)
            dec = amfref.Ref0Decoder(rd) if ver == 0 else \
                amfref.Ref3Decoder(rd)
            x = dec.value()
            kind = 'ok'
            try:
                want = model.dump_values([model.Dec(ver).dec(x)])
            except (model.MissingStatic, TypeError, AttributeError,
                    ValueError, OverflowError):
                # no value corresponds: missing static attributes, an
                # externalizable class sent as a plain one, absurd dates
                kind = 'novalue'
        except amfref.Bad as e:
            kind = e.kind
        except RecursionError:
            return False, ['deep']
        labels.append(kind)
        key = None
        if ver == 0 and kind in ('ok', 'ref') and b'\x0f' in data:
            key = xml_slot(got, data, 1)
        # the decoder may object to a class before it gets to the end
        typed = bool(rd.seen) or b'<!' in data
        if kind == 'ok':
            if err is None:
                d = model.diff(got['vals'], want)
                if d:
                    raise Violation('decoded to something else than the bytes '
                                    'denote at %s; bytes %s' % (
                                        d, data.hex()[:400]), key)
                require(got['pos'] == rd.p, 'wrong position after the item',
                        got['pos'], rd.p, data.hex()[:400])
            elif not self.may_refuse(x):
                raise Violation('well-formed bytes were refused: %s %s; bytes '
                                '%s' % (err, got['msg'], data.hex()[:400]),
                                key)
        elif kind == 'novalue':
            pass
        elif kind == 'eof':
            require(err is not None, 'a truncated item decoded to a value',
                    got['vals'], data.hex()[:400])
            if not (typed and err not in ('ReferenceError',)):
                require(err in ('EOStream', 'IOError'),
                        'a truncated item must signal end of data', err,
                        got['msg'], data.hex()[:400])
            if err in ('EOStream', 'IOError'):
                require(got['pos'] == 0, 'a truncated item was partly '
                        'consumed', got['pos'], data.hex()[:400])
        elif kind == 'marker':
            require(err is not None, 'an unknown marker decoded to a value',
                    got['vals'], data.hex()[:400])
            if not typed:
                require(err == 'DecodeError', 'an unknown marker must be a '
                        'decode error', err, got['msg'], data.hex()[:400])
        elif kind == 'text':
            require(err is not None, 'text which is not UTF-8 decoded to a '
                    'value', got.get('vals'), data.hex()[:400])
            if not typed:
                require(err == 'UnicodeDecodeError', 'text which is not UTF-8 '
                        'must be a decoding error', err, got['msg'],
                        data.hex()[:400])
        elif kind == 'ref':
            if err is None:
                raise Violation('an unknown reference decoded to a value: %r; '
                                'bytes %s' % (got['vals'], data.hex()[:400]),
                                key)
            if not typed:
                require(err == 'ReferenceError', 'an unknown reference must '
                        'be a reference error', err, got['msg'],
                        data.hex()[:400])
        return (kind not in ('ok',) or data != orig) and len(data) > 1, labels

    def may_refuse(self, x):
        """Well-formed, but outside what the decoder promises to read."""
        seen = {}

        def go(v):
            if isinstance(v, tuple):
                return v[0] == 'amf3' and go(v[1])
            if id(v) in seen:
                return False
            seen[id(v)] = v
            if v.kind == 'date':
                return not (-6.2e13 < v.data < 2.5e14)
            if v.kind == 'obj' and v.cls in model.EXT_FIELDS:
                # contents the class itself may not accept
                return True
            if v.kind == 'obj' and v.cls:
                if any(k.startswith('__') or '\0' in k
                       for k, _ in v.sealed + (v.dyn or [])):
                    return True
                if v.cls not in model.BY_ALIAS and \
                        v.cls not in wiregen.CLS_UNKNOWN:
                    return True
            for _, a in v.assoc + v.sealed + (v.dyn or []):
                if go(a):
                    return True
            return any(go(a) for a in v.dense)
        return go(x)


PROP = Malformed()
PROP.id = 'C08'
