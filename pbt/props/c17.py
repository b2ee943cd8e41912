from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model
from pbt.model import R, W

# which values of user types each mapping applies to is decided in applies()
MAPPINGS = ['New', 'OldA', 'OldB', 'Flag', 'Tup', 'TupPred', 'Direct',
            'ListSub', 'Listy', 'DictSub', 'IntSub', 'SlotList', 'SlotTup',
            'Point', 'FloatSub']
SEQS = ('ListSub', 'TupleSub', 'SlotList', 'SlotTup', 'Point')
OBJ = ['New', 'NewSub', 'OldA', 'OldB', 'OldC', 'Flag', 'FlagOld', 'TupA',
       'TupB']
CLASHES = [('Tup', 'TupPred'), ('ListSub', 'Listy')]


def applies(r, maps):
    """The mapping that applies to the value of a user type, or None."""
    n = r.name
    if n in ('New', 'NewSub'):
        return 'New' if 'New' in maps else None
    if n in ('OldA', 'OldB', 'DictSub', 'IntSub', 'SlotList', 'SlotTup', 'Point',
             'FloatSub'):
        return n if n in maps else None
    if n == 'OldC':
        return 'Direct' if 'Direct' in maps else None
    if n in ('Flag', 'FlagOld'):
        if r.data and ('Flag' in maps or 'TupPred' in maps):
            return 'Flag'
        return None
    if n == 'TupA':
        return ('Tup' if 'Tup' in maps else
                'TupPred' if 'TupPred' in maps else None)
    if n == 'TupB':
        return 'Tup' if 'Tup' in maps else None
    if n == 'ListSub' and 'ListSub' in maps:
        return 'ListSub'
    if n in ('ListSub', 'TupleSub'):
        return 'Listy' if 'Listy' in maps and len(r.items) > 1 else None
    raise AssertionError(n)


class ARefs(model.Refs):
    def __init__(self):
        model.Refs.__init__(self)
        self.sets = 0
        self.used = set()
        self.orders = []

    def parse(self, r):
        t = r[0]
        if t in ('A', 'AD', 'W', 'U', 'dup', 'dec'):
            self.used.add(t if t in ('W', 'dup', 'dec') else r[1])
        if t == 'A':
            n = R('A')
            n.name = r[1]
            n.items = [self.parse(x) for x in r[2]]
            if r[1] in ('Set', 'ImmutableSet', 'WeakSet'):
                n.items = [n.items[i] for i in self.orders[self.sets]] \
                    if self.orders else n.items
                self.sets += 1
            return n
        if t == 'AD':
            n = R('AD')
            n.pairs = [(k, self.parse(v)) for k, v in r[2]]
            return n
        if t == 'W':
            n = R('W')
            n.items = [self.parse(r[1])]
            n.data = r[2]
            return n
        if t == 'dec':
            return tuple(r)
        if t == 'U':
            n = R('U')
            n.name = r[1]
            if r[1] in SEQS:
                n.items = [self.parse(x) for x in r[2]]
            elif r[1] == 'DictSub':
                n.pairs = [(k, self.parse(v)) for k, v in r[2]]
            elif r[1] in ('IntSub', 'StrSub', 'FloatSub'):
                n.data = r[2]
            else:
                n.items = [self.parse(r[2])]
                if r[1] in ('Flag', 'FlagOld'):
                    n.data = r[3]
            return n
        if t == 'dup':
            n = R('dup')
            n.items = [self.parse(r[1])] * r[2]
            return n
        return model.Refs.parse(self, r)


class AEnc(model.Enc):
    def __init__(self, ver, maps, strict):
        model.Enc.__init__(self, ver)
        self.maps = maps
        self.strict = strict
        if ver == 0:
            self.sub = AEnc(3, maps, strict)

    def fresh(self, kind):
        w = W(kind)
        self.keep.append(w)
        return w

    def arr(self, items):
        w = self.fresh('arr')
        w.dense = [self.enc(x) for x in items]
        return w

    def enc(self, r):
        if isinstance(r, tuple):
            if r[0] == 'dec':
                if self.strict:
                    raise model.CannotEncode('strict')
                return ('num', model.f2h(float(r[1])))
            return model.Enc.enc(self, r)
        t = r.t
        if t == 'A':
            return self.arr(r.items)
        if t == 'dup':          # a plain list
            if id(r) not in self.memo:
                w = self.node(r, 'arr')
                w.dense = [self.enc(x) for x in r.items]
            return self.memo[id(r)]
        if t == 'AD':
            w = self.fresh('obj')
            w.dyn = self.pairs(r.pairs)
            return w
        if t == 'W':
            return self.enc(r.items[0]) if r.data else ('null',)
        if t != 'U':
            return model.Enc.enc(self, r)
        if r.name == 'StrSub':
            return ('str', r.data)
        m = applies(r, self.maps)
        if m in ('New', 'OldA', 'Flag', 'Direct', 'TupPred'):
            return self.enc(r.items[0])
        if m in ('OldB', 'Tup'):
            return self.arr(r.items)
        if m in ('ListSub', 'SlotList', 'SlotTup', 'Point'):
            w = self.fresh('obj')
            w.dyn = [('items', self.arr(r.items))]
            return w
        if m == 'Listy':
            return self.prim(('i', str(len(r.items))))
        if m == 'DictSub':
            return self.prim(('i', str(len(r.pairs))))
        if m == 'IntSub':
            return ('str', str(r.data))
        if m == 'FloatSub':
            return self.arr([('f', r.data)])
        # no mapping: as any other instance
        if r.name in SEQS:
            return self.arr(r.items)
        if id(r) in self.memo:
            return self.memo[id(r)]
        w = self.node(r, 'obj')
        if r.name == 'DictSub':
            w.dyn = self.pairs(r.pairs)
        else:
            w.dyn = [('payload', self.enc(r.items[0]))]
            if r.name in ('Flag', 'FlagOld'):
                w.dyn.append(('flag', ('bool', int(r.data))))
        return w


@st.composite
def adapted(draw, o, depth, maps):
    k = draw(st.sampled_from(['plain', 'plain', 'l', 'm', 'c', 'set', 'deque',
                              'array', 'dict', 'counter', 'weak', 'wcoll',
                              'dec', 'user', 'user', 'user', 'user', 'seq',
                              'seq', 'dup', 'dup', 'int', 'op']))
    if depth <= 0 and k not in ('dec', 'int', 'plain'):
        k = 'plain'
    sub = lambda: draw(adapted(o, depth - 1, maps))

    def subs(n=3):
        return [sub() for _ in range(draw(st.integers(0, n)))]

    def keys(n=3):
        return draw(st.lists(gen.key_text, max_size=n, unique=True))

    if k == 'plain':
        return draw(gen.value(o, 1))
    if k == 'l':
        return ['l', subs()]
    if k == 'm':
        return ['m', [[x, sub()] for x in keys()]]
    if k == 'c':
        return ['c', draw(st.sampled_from(['Plain', 'Old', 'Anon'])),
                [[x, sub()] for x in draw(st.lists(
                    gen.attr_name, max_size=2, unique=True))]]
    if k == 'op':
        return ['op', ['m', [[x, sub()] for x in keys(2)]]]
    if k == 'set':
        xs = draw(st.one_of(
            st.lists(st.integers(-1000, 1000), max_size=5, unique=True).map(
                lambda v: [['i', str(x)] for x in v]),
            st.lists(gen.short_text, max_size=4, unique=True).map(
                lambda v: [['s', x] for x in v])))
        return ['A', draw(st.sampled_from(['Set', 'ImmutableSet'])), xs]
    if k == 'deque':
        return ['A', 'deque', subs()]
    if k == 'array':
        if draw(st.booleans()):
            return ['A', 'array', [['i', str(x)] for x in draw(st.lists(
                st.integers(-2 ** 31, 2 ** 31 - 1), max_size=4))], 'i']
        return ['A', 'array', [['f', x] for x in draw(st.lists(
            gen.floats, max_size=4))], 'd']
    if k == 'dict':
        return ['AD', draw(st.sampled_from(['defaultdict', 'OrderedDict'])),
                [[x, sub()] for x in keys()]]
    if k == 'counter':
        return ['AD', 'Counter', [[x, ['i', str(draw(st.integers(1, 99)))]]
                                  for x in keys()]]
    inst = lambda: ['c', draw(st.sampled_from(['Plain', 'Old'])),
                    [[x, sub()] for x in draw(st.lists(
                        gen.attr_name, max_size=2, unique=True))]]
    if k == 'weak':
        if draw(st.integers(0, 3)) == 0:
            return ['W', ['n'], 0]
        return ['W', inst(), 1]
    if k == 'wcoll':
        if draw(st.booleans()):
            return ['A', 'WeakSet', [inst() for _ in range(
                draw(st.integers(0, 2)))]]
        return ['AD', 'WeakValueDictionary', [[x, inst()] for x in keys(2)]]
    if k == 'dec':
        return ['dec', draw(st.decimals(allow_nan=False, allow_infinity=False,
                                        places=draw(st.integers(0, 4))).map(
            lambda d: str(d)))]
    if k == 'user':
        n = draw(st.sampled_from(OBJ))
        r = ['U', n, sub()]
        if n in ('Flag', 'FlagOld'):
            r.append(draw(st.booleans()))
        return r
    if k == 'seq':
        n = draw(st.sampled_from(['ListSub', 'TupleSub', 'DictSub',
                                  'SlotList', 'SlotTup', 'Point']))
        if n == 'Point':
            return ['U', n, [sub(), sub()]]
        return ['U', n, [[x, sub()] for x in keys()] if n == 'DictSub'
                else subs()]
    if k == 'int':
        c = draw(st.sampled_from(['IntSub', 'StrSub', 'FloatSub']))
        if c == 'StrSub':
            return ['U', c, draw(gen.short_text)]
        if c == 'FloatSub' and c in maps:
            return ['U', c, draw(gen.floats)]
        if 'IntSub' in maps:
            return ['U', 'IntSub', draw(st.integers(-99, 99))]
        return ['n']
    return ['dup', sub(), draw(st.integers(2, 3))]


@st.composite
def cases(draw, ver, depth):
    maps = draw(st.lists(st.sampled_from(MAPPINGS), unique=True))
    if draw(st.booleans()):
        maps = sorted(set(maps) | {'New', 'OldA', 'Flag'})
    for a, b in CLASHES:
        if a in maps and b in maps:
            maps.remove(draw(st.sampled_from([a, b])))
    o = gen.Opts(ver, max_nodes=6, xml=False, empty_key=(ver == 0))
    return {'v': ver, 'mappings': sorted(maps),
            'strict': draw(st.integers(0, 5)) == 0,
            'vals': draw(st.lists(adapted(o, depth, maps), min_size=1,
                                  max_size=4))}


class Adapted(Prop):
    modules = ('vals', 'adapt')
    quick = 5000
    thorough = 120000
    rule = ('Case: a set of user mappings (classes, old-style classes, '
            'predicates, tuples of them, functions writing by themselves) and '
            '1-4 values mixing sets, deques, arrays, dictionaries, decimals, '
            'weak references, user types (mapped or not) and plain values, '
            'encoded by one encoder; an independent reader must find exactly '
            'the plain values the mappings yield. Non-trivial: two or more '
            'kinds of adapted values.')
    assumptions = ['subclasses of the string types are always strings: '
                   'they are not mapped',
                   'mappings that overlap and disagree are not generated: '
                   'their precedence is not documented',
                   'values of adapted types keep no identity of their own, '
                   'as the mapping yields a new plain value each time']

    def strategy(self, tier):
        d = 3 if tier == 'quick' else 4
        return st.one_of(cases(0, d), cases(3, d), cases(3, d - 1))

    def check(self, w, case):
        ver = case['v']
        got = w.call('adapt', **case)
        p = ARefs()
        p.orders = got.get('orders') or []
        rs = [p.parse(r) for r in case['vals']]
        e = AEnc(ver, case['mappings'], case['strict'])
        labels = sorted('%s' % u for u in p.used)
        try:
            want = [e.enc(r) for r in rs]
        except model.CannotEncode:
            require('enc_error' in got, 'a value that cannot be encoded was',
                    got)
            return True, labels + ['refused']
        require('hex' in got, 'adapted values could not be encoded', got)
        data = bytes.fromhex(got['hex'])
        try:
            ws, pos = amfref.decode_all(ver, data, len(want))
        except amfref.Bad as x:
            raise Violation('not well-formed: %s; %s' % (x, got['hex'][:600]))
        require(pos == len(data), 'bytes left over', got['hex'][:600])
        d = model.diff(model.dump_wires(ws, ver), model.dump_wires(want, ver))
        if d:
            raise Violation('not what the mappings yield: %s; %s' % (
                d, got['hex'][:600]))
        return len(p.used) >= 2, labels


PROP = Adapted()
PROP.id = 'C17'
