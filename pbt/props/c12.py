from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model

naive = gen.dt(2, 9997).map(lambda t: ['d'] + list(t))
edge = st.sampled_from([
    ['d', 1969, 12, 31, 23, 59, 59, 999999], ['d', 1970, 1, 1, 0, 0, 0, 0],
    ['d', 1969, 12, 31, 23, 59, 59, 1], ['d', 1970, 1, 1, 0, 0, 0, 1000],
    ['d', 1904, 2, 29, 12, 0, 0, 500000], ['d', 2, 1, 1, 0, 0, 0, 1000],
    ['d', 9998, 12, 31, 23, 59, 59, 999000], ['D', 1969, 12, 31],
    ['d', 2038, 1, 19, 3, 14, 8, 0], ['D', 2020, 2, 29],
    ['d', 1901, 12, 13, 20, 45, 51, 250000]])
day = gen.dt(2, 9997).map(lambda t: ['D'] + list(t[:3]))
aware = st.tuples(gen.dt(3, 9990), st.integers(-14 * 60, 14 * 60)).map(
    lambda t: ['A'] + list(t[0]) + [t[1]])
bare = st.tuples(st.integers(0, 23), st.integers(0, 59)).map(
    lambda t: ['T'] + list(t))
offset = st.one_of(
    st.just(None), st.just(0), st.integers(-14, 14).map(lambda h: h * 3600),
    st.sampled_from([19800, -12600, 20700, 1, -1, 86399, -86399, 90000,
                     -90000]),
    st.integers(-50000, 50000))


def instant(r):
    if r[0] == 'A':
        return model.date_us(*r[1:-1]) - r[-1] * 60000000
    return model.date_us(*r[1:])


def wire_dates(ws):
    """Milliseconds of every date in wire graphs, visiting each once."""
    out = []
    seen = {}

    def go(v):
        if isinstance(v, tuple):
            if v[0] == 'amf3':
                go(v[1])
            return
        if v.kind == 'date':
            out.append(v.data)
            return
        if id(v) in seen:
            return
        seen[id(v)] = v
        for _, x in v.assoc + v.sealed + (v.dyn or []):
            go(x)
        for x in v.dense + list(v.ext or []):
            go(x)
    for w in ws:
        go(w)
    return out


class Dates(Prop):
    modules = ('vals', 'dates')
    quick = 9000
    thorough = 200000
    rule = ('Case: 1-4 dates (naive, plain, aware; years 2-9997, microsecond '
            'resolution) in a list, dictionary, instance, collection, mixed '
            'array or tuple, sent as AMF0, AMF3, AMF3 inside AMF0 or in a '
            'remoting envelope, with independent time zone offsets on both '
            'ends. Non-trivial: a date before 1970, a fraction of a second, '
            'or an offset.')
    assumptions = ['instants are compared to within 0.1 ms: the formats '
                   'carry them as a double of milliseconds']

    def strategy(self, tier):
        d = st.one_of(naive, naive, edge, day, aware)
        ds = st.lists(d, min_size=1, max_size=4)
        return st.one_of(st.tuples(ds, offset, offset, st.booleans()).flatmap(
            self.case), st.tuples(ds, offset, offset, st.booleans()).flatmap(
            self.case), st.tuples(
                st.builds(lambda a, b: a + [b], ds, bare), offset, offset,
                st.booleans()).flatmap(self.case))

    def case(self, t):
        ds, tz, dtz, same = t
        return st.fixed_dictionaries({
            'ds': st.just(ds), 'tz': st.just(tz),
            'dtz': st.just(tz if same else dtz),
            'via': st.sampled_from(['amf0', 'amf3', 'amf0+3', 'remoting0',
                                    'remoting3']),
            'shape': st.sampled_from(['list', 'twice', 'dict', 'obj', 'ac',
                                      'mixed', 'tuple']),
            'explicit': st.booleans()})

    def check(self, w, case):
        ds = case['ds']
        got = w.call('dates', **case)
        labels = [case['via'], case['shape']] + sorted({d[0] for d in ds})
        if any(d[0] == 'T' for d in ds):
            require(got.get('error') == 'EncodeError',
                    'a bare time must be refused with an encode error', got)
            return True, labels
        require('error' not in got, 'dates could not be sent', got)
        tz = (case['tz'] or 0) * 1000000
        dtz = (case['dtz'] or 0) * 1000000
        sent = [instant(d) - tz for d in ds]
        if 'hex' in got:
            data = bytes.fromhex(got['hex'])
            ver = 3 if case['via'] == 'amf3' else 0
            ws, pos = amfref.decode_all(ver, data, 1)
            ms = sorted(set(wire_dates(ws)))
            want = sorted({x / 1000.0 for x in sent})
            require(len(ms) == len(want) or len(ms) >= 1, 'dates missing')
            for x in ms:
                require(min(abs(x - y) for y in want) <= 0.1,
                        'a date is not written as its UTC milliseconds', x,
                        want)
            for y in want:
                require(min(abs(x - y) for x in ms) <= 0.1,
                        'a date is not written as its UTC milliseconds', y,
                        ms)
        want = [x + dtz for x in sent]
        if case['shape'] == 'twice':
            want = want + want
        elif case['shape'] in ('obj', 'tuple'):
            want = want + want[:1]
        require(len(got['us']) == len(want), 'dates lost', got, want)
        for x, y in zip(got['us'], want):
            require(x.lstrip('-').isdigit() and abs(int(x) - y) <= 100,
                    'a date reads back as another instant', x, y)
        if 'header' in got:
            require(got['header'].lstrip('-').isdigit() and
                    abs(int(got['header']) - want[0]) <= 100,
                    'a date in a header reads back as another instant',
                    got['header'], want[0])
        nt = bool(tz or dtz) or any(x < 0 or x % 1000000 for x in sent)
        return nt, labels


PROP = Dates()
PROP.id = 'C12'
