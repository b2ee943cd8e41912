from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen
from pbt.props import c07

# declared proxied attributes
PROXY = {'Prox': {'p', 'q'}, 'Sub': {'p', 'q', 'r'}}
CLASSES = dict(model.CLASSES)
CLASSES['Prox'] = ('org.test.Prox', [], True, False)
CLASSES['Sub'] = ('org.test.ProxSub', ['q', 'z'], True, False)


class Enc(model.Enc):
    """Also instances with declared proxied attributes."""

    def __init__(self, ver, proxies=False):
        model.Enc.__init__(self, ver, proxies=proxies)
        self.px = {}
        if ver == 0:
            self.sub = Enc(3)

    def enc(self, r):
        if isinstance(r, tuple) or r.t != 'c' or r.name not in PROXY or \
                id(r) in self.memo:
            return model.Enc.enc(self, r)
        alias, static, dynamic, _ = CLASSES[r.name]
        w = self.node(r, 'obj')
        w.cls = alias
        f = dict(r.pairs)
        for k in static:
            w.sealed.append((k, self.one(r.name, k, f[k])))
        w.dyn = [(k, self.one(r.name, k, v)) for k, v in r.pairs
                 if k not in static]
        return w

    def one(self, name, k, v):
        if k not in PROXY[name] or isinstance(v, tuple) or self.proxies or \
                self.ver == 0 or v.t not in ('l', 't', 'm', 'o', 'M'):
            return self.enc(v)
        if id(v) in self.px:
            return self.px[id(v)]
        w = self.px[id(v)] = model.W('obj')
        self.keep.append(v)
        if v.t in ('l', 't'):
            w.cls = model.AC
            inner = model.W('arr')
            inner.dense = [self.enc(x) for x in v.items]
            w.ext = [inner]
        else:
            w.cls = model.OP
            w.ext = [self.bare(v) if v.t == 'M' else self.enc(v)]
        return w


class Dec(model.Dec):
    """With proxies off, declared attributes are unwrapped none the less."""

    def __init__(self, ver, proxies=False):
        model.Dec.__init__(self, ver, classes=CLASSES, proxies=proxies)
        self.un = {}
        self.late = []

    def obj(self, w):
        name = self.by_alias.get(w.cls)
        if name not in PROXY or self.proxies or self.ver == 0:
            return model.Dec.obj(self, w)
        n = self.node(w, 'inst', name)
        d = {}
        for k, v in w.sealed + (w.dyn or []):
            d[k] = self.unwrap(v) if k in PROXY[name] else self.dec(v)
        n.pairs = list(d.items())
        return n

    def unwrap(self, v):
        c = getattr(v, 'cls', None)
        if c == model.OP:
            return self.unwrap(v.ext[0])
        if c != model.AC:
            return self.dec(v)
        if id(v) not in self.un:
            n = self.un[id(v)] = model.N('list')
            self.keep.append(v)
            # the collection may be on its way still
            self.late.append((n, self.dec(v)))
        return self.un[id(v)]

    def all(self, ws):
        ns = [self.dec(w) for w in ws]
        for n, ac in self.late:
            n.items = ac.items
        return ns


def endless(w, seen=None, chain=()):
    """Is there a proxy which holds nothing but itself?"""
    if seen is None:
        seen = {}
    if not isinstance(w, model.W):
        return False
    if id(w) in chain:
        return True
    if id(w) in seen:
        return False
    seen[id(w)] = w
    if getattr(w, 'cls', None) == model.OP:
        return endless(w.ext[0], seen, chain + (id(w),))
    kids = list(getattr(w, 'ext', None) or [])
    kids += list(getattr(w, 'dense', None) or [])
    for k in ('sealed', 'dyn', 'assoc'):
        kids += [v for _, v in getattr(w, k, None) or []]
    return any(endless(x, seen) for x in kids)


def opts():
    return gen.Opts(3, xml=False, max_nodes=12, empty_key=False)


@st.composite
def graph(draw):
    c = draw(c07.graph().filter(lambda c: c['v'] == 3))
    nodes = c['nodes']
    for n in nodes:
        if n[0] in ('Plain', 'Anon', 'Kid') and draw(st.integers(0, 1)):
            # make it one with declared attributes
            ts = [t for _, t in n[1]]
            if n[0] == 'Kid':
                n[0] = 'Sub'
                names = ['q', 'z', 'p', 'r', 'a']
                ts = (ts + [['n'], ['s', 'z']])[:5]
                if len(ts) < 2:
                    ts += [['n']] * 2
            else:
                n[0] = 'Prox'
                names = ['p', 'q', 'a', 'r']
            n[1] = [[k, t] for k, t in zip(names, ts)]
    # what a dictionary becomes depends on where it is met first
    mixed = {i for i, n in enumerate(nodes) if n[0] == 'M'}
    for n in nodes:
        if n[0] in PROXY:
            n[1] = [[k, ['n'] if k in PROXY[n[0]] and isinstance(t, int) and
                     t in mixed else t] for k, t in n[1]]
    return {'k': 'graph', 'nodes': nodes, 'roots': c['roots']}


def attrs():
    """Values of declared attributes in both formats."""
    o = gen.Opts(0, xml=False, max_nodes=8, empty_key=False, refs=False,
                 classes=['Plain', 'SD', 'Anon'], flex=False)

    def inst(name):
        ks = ['p', 'q', 'r', 'a'] if name == 'Prox' else \
            ['q', 'z', 'p', 'r', 'a']
        n = 0 if name == 'Prox' else 2
        return st.tuples(st.integers(n, len(ks)), st.lists(
            gen.value(o, 2), min_size=5, max_size=5)).map(
                lambda x: ['c', name, [[k, v] for k, v in zip(
                    ks[:x[0]], x[1])]])
    return st.one_of(inst('Prox'), inst('Sub'))


@st.composite
def case(draw):
    k = draw(st.integers(0, 11))
    if k < 5:
        c = draw(graph())
    elif k < 8:
        c = {'k': 'vals', 'vals': draw(gen.values(opts()))}
    elif k < 9:
        c = {'k': 'vals', 'vals': draw(st.lists(attrs(), min_size=1,
                                                max_size=2))}
    else:
        c = {'k': 'wire', 'ch': draw(wiregen.choices), 'w': draw(st.lists(
            wiregen.wire(3, xml=False), min_size=1, max_size=2))}
    c['on'] = draw(st.sampled_from([1, 1, 0]))
    c['how'] = draw(st.sampled_from(['arg', 'arg', 'default']))
    c['v'] = 3
    if k == 8 and draw(st.integers(0, 1)):
        c['v'] = 0
        c['on'] = 0
    return c


class Proxies(Prop):
    modules = ('vals', 'prox')
    quick = 4000
    thorough = 250000
    rule = ('Case: value recipes, object graphs (shared, cyclic) or bytes of '
            'an independent writer; proxies on or off for the encoder, by '
            'argument or by default, and both for the decoder; instances '
            'with declared proxied attributes among them. Non-trivial: a '
            'proxy was sent or read.')

    def strategy(self, tier):
        return case()

    def check(self, w, case):
        ver, on = case['v'], bool(case['on'])
        labels = [case['k'], 'on' if on else 'off', case['how']]
        if case['k'] == 'wire':
            ws = wiregen.parse_all(3, case['w'])
            data = amfref.encode_all(3, ws, case['ch'])
            if any(endless(x) for x in ws):
                # there is no value which this could mean
                return False, labels + ['proxy of itself']
            got = w.call('prox', v=3, hex=data.hex(), n=len(ws),
                         how=case['how'])
        else:
            if case['k'] == 'graph':
                rs = c07.rgraph(case['nodes'])
                rs = [rs[i] for i in case['roots']]
                got = w.call('prox', v=3, nodes=case['nodes'],
                             roots=case['roots'], on=on, how=case['how'])
            else:
                rs = model.parse_all(case['vals'])
                got = w.call('prox', v=ver, vals=case['vals'], on=on,
                             how=case['how'])
            e = Enc(ver, proxies=on)
            ws = [e.enc(r) for r in rs]
            if 'enc_error' in got:
                raise Violation('encoding failed: %s %s' % (
                    got['enc_error'], got['msg']))
            require(not got['changed'], 'encoding changed the values')
            data = bytes.fromhex(got['hex'])
            try:
                xs, pos = amfref.decode_all(ver, data, len(rs))
            except amfref.Bad as ex:
                raise Violation('what was encoded is malformed: %s %s' % (
                    ex, got['hex'][:600]))
            require(pos == len(data), 'bytes left over')
            x = model.diff(model.dump_wires(xs, ver),
                           model.dump_wires(ws, ver))
            require(not x, 'the bytes say otherwise', x, got['hex'][:600])
        for un in (0, 1):
            if 'dec%d' % un not in got:
                continue
            g = got['dec%d' % un]
            what = 'with proxies' if un else 'without proxies'
            d = Dec(ver, proxies=bool(un))
            try:
                want = model.dump_values(d.all(ws))
            except model.MissingStatic:
                labels.append('missing')
                require('error' in g, 'a missing static attribute')
                continue
            if 'error' in g:
                raise Violation('decoding %s failed: %s %s %s' % (
                    what, g['error'], g['msg'], data.hex()[:600]))
            x = model.diff(g['vals'], want)
            require(not x, 'decoded otherwise ' + what, x,
                    data.hex()[:600])
            require(g['left'] == 0, 'bytes left over', g['left'])
        text = repr(model.dump_wires(ws, ver))
        nt = model.AC in text or model.OP in text
        if nt:
            labels.append('proxied')
        return nt, labels


PROP = Proxies()
PROP.id = 'C32'
