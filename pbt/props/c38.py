from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen

OPT = {v: gen.Opts(v, max_nodes=5, empty_key=False, xml=False,
                   classes=['Plain', 'SD'], flex=(v == 3)) for v in (0, 3)}


@st.composite
def recset(draw, ver):
    cols = draw(st.lists(gen.short_text, max_size=4))
    rows = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 9))
        if k == 9:
            rows.append(draw(gen.value(OPT[ver], 1)))
        elif k == 8:
            rows.append(['r', draw(st.integers(0, 20))])
        else:
            rows.append(['l', [draw(st.one_of(
                gen.value(OPT[ver], 2), gen.value(OPT[ver], 1)))
                for _ in cols]])
    rid = draw(st.one_of(
        st.none(), gen.short_text.map(lambda s: ['s', s]),
        st.integers(0, 10 ** 6).map(lambda n: ['i', str(n)])))
    return ['RS', ['l', [['s', c] for c in cols]], ['l', rows],
            draw(st.one_of(st.none(), gen.short_text)), rid,
            draw(st.sampled_from(['args', 'set', 'default']))]


@st.composite
def case(draw):
    ver = draw(st.sampled_from([0, 3]))

    def value(depth):
        k = draw(st.integers(0, 9))
        if k < 5 or not depth:
            return draw(recset(ver))
        if k < 7:
            return ['r', draw(st.integers(0, 20))]
        if k == 7:
            return ['l', [value(depth - 1) for _ in range(
                draw(st.integers(1, 3)))]]
        if k == 8:
            return ['o', [[x, value(depth - 1)] for x in draw(st.lists(
                gen.key_text, max_size=2, unique=True))]]
        return draw(gen.value(OPT[ver], 2))
    return {'v': ver, 'vals': [value(2) for _ in range(
        draw(st.integers(1, 3)))], 'ch': draw(wiregen.choices),
        'more': draw(st.integers(0, 1))}


class Refs(model.Refs):
    def parse(self, r):
        if r[0] != 'RS':
            return model.Refs.parse(self, r)
        n = model.R('RS')
        n.data = (self.parse(r[1]), self.parse(r[2]), r[3], r[4])
        self.c.append(n)
        return n


class Enc(model.Enc):
    more = False

    def enc(self, r):
        if not (isinstance(r, model.R) and r.t == 'RS'):
            return model.Enc.enc(self, r)
        if id(r) in self.memo:
            return self.memo[id(r)]
        w = self.node(r, 'obj')
        w.cls = 'RecordSet'
        cols, rows, service, rid = r.data
        info = model.W('obj')
        self.keep.append(info)
        info.dyn = [('totalCount', self.enc(('i', str(len(rows.items))))),
                    ('cursor', self.enc(('i', '1'))),
                    ('version', self.enc(('i', '1'))),
                    ('initialData', self.enc(rows)),
                    ('columnNames', self.enc(cols))]
        if service is not None:
            info.dyn.append(('serviceName', ('str', service)))
        if rid is not None:
            info.dyn.append(('id', ('str', rid[1])))
        if self.more:
            info.dyn.insert(2, ('more', ('null',)))
        w.sealed = [('serverInfo', info)]
        return w


class Dec(model.Dec):
    def obj(self, w):
        if w.cls != 'RecordSet':
            return model.Dec.obj(self, w)
        n = self.node(w, 'inst', 'RecordSet')
        p = dict(w.sealed[0][1].dyn)
        n.pairs = [('columns', self.dec(p['columnNames'])),
                   ('items', self.dec(p['initialData'])),
                   ('id', self.dec(p['id']) if 'id' in p else ('null',)),
                   ('service', ('null',))]
        if 'serviceName' in p:
            d = model.N('dict')
            d.pairs = [('name', self.dec(p['serviceName']))]
            n.pairs[-1] = ('service', d)
        return n


class Recordsets(Prop):
    modules = ('vals', 'recset')
    quick = 3600
    thorough = 150000
    rule = ('Case: 1-3 values holding record sets with 0-4 columns and rows '
            'of any values, with or without service and id, made in three '
            'ways, with references to each other and to what they hold, in '
            'either format. The bytes are read, and other bytes for the same '
            'are written, by an independent implementation. Non-trivial: a '
            'record set with a column and a row.')

    def strategy(self, tier):
        return case()

    def check(self, w, case):
        ver = case['v']
        refs = Refs()
        rs = [refs.parse(r) for r in case['vals']]
        got = w.call('recset', v=ver, vals=case['vals'])
        if 'enc_error' in got:
            raise Violation('encoding failed: %s %s' % (
                got['enc_error'], got['msg']))
        require(not got['changed'], 'encoding changed the values')
        e = Enc(ver)
        ws = [e.enc(r) for r in rs]
        try:
            mine, used = amfref.decode_all(ver, bytes.fromhex(got['hex']),
                                           len(rs))
        except amfref.Bad as x:
            raise Violation('what was encoded is malformed: %s %s' % (
                x, got['hex'][:600]))
        require(used * 2 == len(got['hex']), 'bytes left over')
        x = model.diff(model.dump_wires(mine, ver), model.dump_wires(ws, ver))
        require(not x, 'the bytes say otherwise', x, got['hex'][:600])
        d = Dec(ver)
        want = model.dump_values([d.dec(x) for x in ws])
        if 'dec_error' in got:
            raise Violation('decoding failed: %s %s %s' % (
                got['dec_error'], got['msg'], got['hex'][:600]))
        x = model.diff(got['vals'], want)
        require(not x, 'decoded otherwise', x, got['hex'][:600])
        require(got['left'] == 0, 'bytes left over', got['left'])
        # written by somebody else
        e = Enc(ver)
        e.more = bool(case['more'])
        ws = [e.enc(r) for r in rs]
        data = amfref.encode_all(ver, ws, case['ch'])
        g = w.call('recdecode', v=ver, hex=data.hex(), n=len(ws))
        if 'dec_error' in g:
            raise Violation('well-formed bytes refused: %s %s %s' % (
                g['dec_error'], g['msg'], data.hex()[:600]))
        x = model.diff(g['vals'], want)
        require(not x and g['left'] == 0, 'well-formed bytes decode to '
                'something else', x, data.hex()[:600])
        labels = {'v%d' % ver}
        nt = False
        for r in refs.c:
            if r.t == 'RS':
                labels.add('recset')
                cols, rows, service, rid = r.data
                if service is not None:
                    labels.add('service')
                if rid is not None:
                    labels.add('id')
                nt = nt or bool(cols.items and rows.items)
        return nt, sorted(labels)


PROP = Recordsets()
PROP.id = 'C38'
