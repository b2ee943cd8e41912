"""Hypothesis strategies for wire recipes (JSON descriptions of wire graphs,
i.e. of what an AMF item denotes) and their parser."""
from hypothesis import strategies as st

from . import gen, model
from .model import W, AC, OP

CLS_UNKNOWN = ['org.nowhere.Thing', 'no such class', 'caf\xe9.Nope', 'x',
               'flex.nothing.Here']


class Parser(object):
    """wire recipe -> wire graph. ['r', n] refers to the n-th container in
    order of first appearance (never to something not yet begun)."""

    def __init__(self, ver):
        self.ver = ver
        self.c = []
        self.sub = Parser(3) if ver == 0 else None

    def parse(self, r):
        t = r[0]
        if t == 'r':
            if not self.c:
                return ('null',)
            return self.c[r[1] % len(self.c)]
        if t == 'amf3':
            return ('amf3', self.sub.parse(r[1]))
        if t in ('arr', 'ecma', 'obj', 'date', 'xml', 'ba', 'ac', 'op', 'ext'):
            return getattr(self, 'p_' + t)(r)
        return tuple(r)

    def new(self, kind):
        w = W(kind)
        self.c.append(w)
        return w

    def pairs(self, ps):
        return [(k, self.parse(v)) for k, v in ps]

    def p_arr(self, r):
        w = self.new('arr')
        w.assoc = self.pairs(r[1])
        w.dense = [self.parse(x) for x in r[2]]
        return w

    def p_ecma(self, r):
        w = self.new('ecma')
        w.hint = r[1]
        w.assoc = self.pairs(r[2])
        return w

    def p_obj(self, r):
        w = self.new('obj')
        w.cls = r[1]
        w.sealed = self.pairs(r[2])
        w.dyn = None if r[3] is None else self.pairs(r[3])
        return w

    def p_date(self, r):
        w = W('date')
        if self.ver == 3:
            self.c.append(w)
        w.data = model.h2f(r[1])
        return w

    def p_xml(self, r):
        w = W('xml')
        if self.ver == 3:
            self.c.append(w)
        w.data = model.xmlnorm(r[1])
        return w

    def p_ba(self, r):
        w = self.new('ba')
        w.data = (r[1], bool(r[2]))
        return w

    def p_ac(self, r):
        w = self.new('obj')
        w.cls = AC
        w.ext = [self.parse(r[1])]
        return w

    def p_op(self, r):
        w = self.new('obj')
        w.cls = OP
        w.ext = [self.parse(r[1])]
        return w

    def p_ext(self, r):
        w = self.new('obj')
        w.cls = 'org.test.Ext'
        w.ext = [self.parse(r[1]), ('utf', r[2]), ('int', r[3]),
                 self.parse(r[4]), ('double', r[5])]
        return w


def parse_all(ver, rs):
    p = Parser(ver)
    return [p.parse(r) for r in rs]


# milliseconds representable as a Python date, to be on the safe side
ms = st.one_of(
    st.integers(-2 ** 40, 2 ** 42).map(float),
    st.integers(-59011459200000, 253000000000000).map(float),
    st.sampled_from([0.0, 1.0, -1.0, 999.0, -999.0, 0.5, -0.5, 1e12,
                     -2208988800000.0, 86399999.0]),
    st.integers(-10 ** 9, 10 ** 12).map(lambda n: n / 8.0))
date = ms.map(lambda x: ['date', model.f2h(x)])


def prims(ver):
    alts = [st.just(['null']), st.just(['undef']),
            st.booleans().map(lambda b: ['bool', int(b)]),
            gen.floats.map(lambda h: ['num', h]),
            gen.floats.map(lambda h: ['num', h]),
            gen.text.map(lambda s: ['str', s]),
            gen.short_text.map(lambda s: ['str', s]),
            date]
    if ver == 3:
        alts.append(st.one_of(
            st.integers(-2 ** 28, 2 ** 28 - 1), st.integers(-200, 200),
            st.sampled_from([n for n in gen.BOUND_INTS
                             if -2 ** 28 <= n < 2 ** 28])
        ).map(lambda n: ['int', str(n)]))
    return st.one_of(alts)


PRIMS = {0: prims(0), 3: prims(3)}
KEYS = gen.key_text
# names with a meaning to Python itself cannot be set as plain attributes
NAMES = st.one_of(gen.attr_name, gen.key_text).filter(
    lambda s: not s.startswith('__'))


@st.composite
def wire(draw, ver, depth=4, budget=None, xml=True, classes=True):
    if budget is None:
        budget = [16]
    budget[0] -= 1
    if depth <= 0 or budget[0] <= 0:
        return draw(PRIMS[ver])
    if ver == 3:
        ks = ['arr', 'arr', 'mix', 'obj', 'obj', 'cls', 'cls', 'ba', 'ac',
              'op', 'ext', 'r', 'r', 'r', 'r']
    else:
        ks = ['arr', 'arr', 'ecma', 'obj', 'obj', 'cls', 'cls', 'amf3', 'r',
              'r', 'r']
    if xml:
        ks.append('xml')
    if not classes:
        ks = [k for k in ks if k not in ('cls', 'ext')]
    k = draw(st.sampled_from(ks if depth >= 4 else ks + ['p'] * len(ks)))
    if k == 'p':
        return draw(PRIMS[ver])

    def sub():
        return draw(wire(ver, depth - 1, budget, xml, classes))

    def pairs(names, mx=3):
        n = draw(st.sampled_from([0, 1, 1, 2, mx]))
        ks = draw(st.lists(names, min_size=n, max_size=n, unique=True))
        return [[x, sub()] for x in ks]

    if k == 'arr':
        n = draw(st.sampled_from([0, 1, 2, 2, 3, 5]))
        return ['arr', [], [sub() for _ in range(n)]]
    if k == 'mix':
        return ['arr', pairs(KEYS.filter(bool)),
                [sub() for _ in range(draw(st.integers(0, 3)))]]
    if k == 'ecma':
        names = st.one_of(st.integers(0, 4).map(str), KEYS, st.just(''))
        return ['ecma', draw(st.sampled_from(
            [0, 1, 2, 3, 7, 0xffffffff])), pairs(names, 4)]
    if k == 'xml':
        return ['xml', draw(gen.xml_tree(2))]
    if k == 'ba':
        c = draw(st.integers(0, 3)) == 0
        return ['ba', draw(gen.content()), int(c)]
    if k == 'ac':
        n = draw(st.integers(0, 3))
        return ['ac', ['arr', [], [sub() for _ in range(n)]]]
    if k == 'op':
        return ['op', sub()]
    if k == 'ext':
        return ['ext', sub(), draw(gen.short_text),
                draw(st.integers(-2 ** 31, 2 ** 31 - 1)), sub(),
                draw(gen.floats)]
    if k == 'amf3':
        return ['amf3', draw(wire(3, depth - 1, budget, xml, classes))]
    if k == 'r':
        return ['r', draw(st.integers(0, 40))]
    # objects
    cls = ''
    if k == 'cls':
        cls = draw(st.sampled_from(
            ['org.test.Plain', 'Old', 'org.test.Static', 'org.test.SD',
             'org.test.Slots', 'org.test.Kid', 'caf\xe9.Cl\u20ac'] +
            CLS_UNKNOWN))
    must = {'org.test.Static': ['a', 'b'], 'org.test.SD': ['s1', 's2'],
            'org.test.Kid': ['k', 's1', 's2']}.get(cls, [])
    if must and draw(st.integers(0, 9)) == 9:
        must = must[1:]         # a missing static attribute
    if ver == 0:
        names = NAMES if cls else st.one_of(NAMES, st.just(''))
        ps = [[m, sub()] for m in must] + [
            p for p in pairs(names) if p[0] not in must]
        ps = draw(st.permutations(ps)) if len(ps) > 1 else ps
        return ['obj', cls, [], list(ps)]
    ps = [[m, sub()] for m in must] + [
        p for p in pairs(NAMES, 4) if p[0] not in must and p[0]]
    ps = list(draw(st.permutations(ps))) if len(ps) > 1 else ps
    n = draw(st.integers(0, len(ps)))
    if draw(st.booleans()):
        return ['obj', cls, ps, None]
    return ['obj', cls, ps[:n], ps[n:]]


choices = st.lists(st.integers(0, 255), max_size=24)


def kinds(ws):
    """Labels of everything occurring in wire graphs."""
    out = set()
    seen = {}

    def go(v):
        if isinstance(v, tuple):
            out.add(v[0])
            if v[0] == 'amf3':
                go(v[1])
            return
        if id(v) in seen:
            out.add('backref')
            return
        seen[id(v)] = v
        k = v.kind
        if k == 'obj':
            if v.ext is not None:
                k = 'ext'
            elif v.cls:
                k = 'typed'
        elif k == 'arr' and v.assoc:
            k = 'mixed'
        out.add(k)
        for _, x in v.assoc + v.sealed + (v.dyn or []):
            go(x)
        for x in v.dense + list(v.ext or []):
            if not (isinstance(x, tuple) and
                    x[0] in ('utf', 'int', 'double')):
                go(x)
    for v in ws:
        go(v)
    return sorted(out)


CONTAINERS = {'arr', 'mixed', 'ecma', 'obj', 'typed', 'ext'}
