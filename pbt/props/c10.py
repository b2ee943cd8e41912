import struct

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt.amfref import u29, u29_wide

LO, HI = -2 ** 28, 2 ** 28 - 1
BOUNDS = sorted({s * 2 ** e + d for e in (0, 6, 7, 8, 13, 14, 15, 20, 21, 22,
                                          27, 28, 29, 30, 31, 32, 53, 63, 64)
                 for d in (-2, -1, 0, 1, 2) for s in (1, -1)})
number = st.one_of(st.sampled_from(BOUNDS), st.integers(LO, HI),
                   st.integers(-2 ** 14, 2 ** 14),
                   st.integers(-2 ** 21, 2 ** 21),
                   st.integers(-2 ** 70, 2 ** 70))
step = st.one_of(
    st.tuples(st.sampled_from(['enc', 'wi', '_wi', 'el', 'list']),
              number.map(str), st.integers(0, 1)),
    st.tuples(st.sampled_from(['dec', 'decel']),
              st.tuples(st.integers(LO, HI) | st.sampled_from(
                  [b for b in BOUNDS if LO <= b <= HI]),
                  st.integers(1, 4)), st.integers(0, 1)),
).map(list)


class Ints(Prop):
    modules = ('ints',)
    quick = 3000
    thorough = 60000
    rule = ('Case: a sequence of 1-60 operations on integers (encode_int, '
            'writeInteger, writeElement, alone and in a list, decode_int '
            'signed and unsigned, minimal and padded forms) run in one '
            'process, or a sweep over a range of 29 bit values (quick: '
            'strides, thorough: every third value). Non-trivial: at least 5 '
            'operations, or a sweep.')
    shards = 8

    def strategy(self, tier):
        return st.lists(step, min_size=1, max_size=60).map(
            lambda s: {'steps': [[x[0], x[1] if isinstance(x[1], str) else
                                  list(x[1]), x[2]] for x in s]})

    def fixed(self, tier):
        out = []
        # dense around the boundaries, strided elsewhere
        for c in (0, 2 ** 7, 2 ** 14, 2 ** 21, 2 ** 28, -2 ** 28, -2 ** 21,
                  -2 ** 14, -2 ** 7):
            out.append({'lo': max(LO, c - 3000), 'hi': min(HI + 1, c + 3000),
                        'step': 1})
        if tier == 'thorough':
            n = 3 * 2 ** 18
            return out + [{'lo': a, 'hi': min(a + n, HI + 1), 'step': 3}
                          for a in range(LO, HI + 1, n)]
        out.append({'lo': LO, 'hi': HI + 1, 'step': 7919})
        return out

    def check(self, w, case):
        if 'lo' in case:
            got = w.call('sweep', _timeout=200, **case)
            require('bad' not in got, 'integer encoding differs', got)
            return True, ['sweep']
        steps = case['steps']
        send = []
        for s in steps:
            if s[0] in ('dec', 'decel'):
                b = u29_wide(s[1][0], s[1][1]).hex()
                send.append([s[0], ('04' if s[0] == 'decel' else '') + b,
                             s[2]])
            else:
                send.append(s)
        got = w.call('ints', steps=send)
        for s, snt, g in zip(steps, send, got):
            op = s[0]
            if op == 'dec':
                n = s[1][0]
                want = n if s[2] else n & 0x1fffffff
                if len(snt[1]) != 8 and n < 0:
                    raise AssertionError
                require(g == [str(want), len(snt[1]) // 2],
                        'decode_int', s, snt, g)
            elif op == 'decel':
                require(g == ['int', str(s[1][0]), len(snt[1]) // 2],
                        'decoding an integer', s, snt, g)
            else:
                n = int(s[1])
                inside = LO <= n <= HI
                if op in ('enc', '_wi'):
                    want = u29(n).hex() if inside else {
                        'err': 'OverflowError'}
                elif op in ('wi', 'el'):
                    want = '04' + u29(n).hex() if inside else \
                        '05' + struct.pack('>d', float(n)).hex()
                else:
                    want = [['int', str(n)]] * 2 if inside else None
                    if want is None:
                        ok = isinstance(g, list) and len(g) == 2 and all(
                            x[0] == 'float' and float(x[1]) == float(
                                '%.12g' % float(n)) for x in g)
                        require(ok, 'integer in a list', s, g)
                        continue
                require(g == want, 'integer written wrongly', s, g, want)
        return len(steps) >= 5, sorted({s[0] for s in steps})


PROP = Ints()
PROP.id = 'C10'
