"""Generated classes: strategies, and a model of what the attribute control
declarations (__amf__, properties, slots) documented in
doc/architecture/attributecontrol.rst mean."""
from hypothesis import strategies as st

from . import gen, model, wiregen
from .model import W, N, R

POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'name', 'password', '_x', 'length']
WIRE_NAMES = ['public', 'wa', 'wb', 'Secret']


class Info(object):
    """What class i of a specification allows."""

    def __init__(self, specs, i):
        s = specs[i]
        self.s = s
        self.i = i
        self.kind = s['kind']
        base = s.get('base')
        b = Info(specs, base) if base is not None else None
        self.alias = s.get('alias') if s.get('reg') else None
        # the declaration itself is an ordinary, inherited, class attribute
        self.meta = s['meta'] if s.get('meta') is not None else (
            b.meta if b else {})
        m = self.meta
        self.static = set(m.get('static', ()))
        self.exclude = set(m.get('exclude', ()))
        self.readonly = set(m.get('readonly', ()))
        self.proxy = set(m.get('proxy', ()))
        self.synonym = dict(b.synonym) if b else {}
        self.synonym.update(m.get('synonym', {}))
        self.getters = set()
        self.setters = set()
        self.slots = set(s.get('slots', ()))
        self.props = dict(b.props) if b else {}
        self.defaults = dict(b.defaults) if b else {}
        self.defaults.update(s.get('defaults', {}))
        for n, mode in s.get('props', {}).items():
            self.props[n] = mode
            if mode != 'wo':
                self.getters.add(n)
            if mode == 'ro':
                self.readonly.add(n)
            else:
                self.setters.add(n)
        if b:
            for k in ('static', 'exclude', 'readonly', 'proxy', 'getters',
                      'setters', 'slots'):
                getattr(self, k).update(getattr(b, k))
        self.sealed = self.kind == 'new' and 'slots' in s and (
            b is None or b.sealed)
        if self.sealed:
            self.dynamic = False
        elif 'dynamic' in m:
            self.dynamic = bool(m['dynamic'])
        elif b:
            self.dynamic = b.dynamic or b.sealed
        else:
            self.dynamic = True
        self.amf3 = bool(m.get('amf3', b.amf3 if b else False))
        self.static -= self.exclude
        self.encodable = (self.slots | self.getters | self.static) - \
            self.exclude
        self.decodable = (self.slots | self.setters | self.static) - \
            self.exclude - self.readonly
        self.is_dict = self.kind == 'dict'
        # does anything filter or rename attributes
        self.plain = not (self.encodable or self.decodable or self.exclude or
                          self.readonly or self.proxy or self.synonym or
                          not self.dynamic)

    def wire(self, n):
        return self.synonym.get(n, n)


def infos(specs):
    return [Info(specs, i) for i in range(len(specs))]


class CEnc(model.Enc):
    def __init__(self, ver, inf):
        model.Enc.__init__(self, ver)
        self.inf = inf
        self.px = {}
        if ver == 0:
            self.sub = CEnc(3, inf)

    def proxied(self, v):
        if self.ver != 3 or isinstance(v, tuple):
            return v
        if id(v) not in self.px:
            x = v
            if v.t in ('l', 't'):
                x = R('ac')
                x.items = v.items
            elif v.t in ('m', 'o') or (v.t == 'c' and
                                       not isinstance(v.name, str) and
                                       self.inf[v.name].is_dict):
                x = R('op')
                x.items = [v]
            self.px[id(v)] = x
            self.keep += [v, x]
        return self.px[id(v)]

    def inst(self, r):
        if isinstance(r.name, str):
            return model.Enc.inst(self, r)
        c = self.inf[r.name]
        if c.amf3 and self.ver == 0:
            return ('amf3', self.sub.enc(r))
        w = self.node(r, 'obj')
        w.cls = c.alias or ''
        attrs = dict(r.pairs)
        out = {}
        if c.is_dict:
            for k, v in attrs.items():
                if c.dynamic or k in c.encodable:
                    out[k] = v
            for k in c.exclude:
                out.pop(k, None)
            for k in c.static:
                out.setdefault(k, ('u',))
        else:
            own = dict(attrs)
            for n, mode in c.props.items():
                if mode == 'ro':
                    own[n] = ('s', 'ro:' + n)
                elif mode == 'rw':
                    own.setdefault(n, ('n',))
                else:
                    own.pop(n, None)
            names = set(c.encodable)
            if c.dynamic:
                names |= set(own) - c.exclude
            for k in names:
                if k in own:
                    out[k] = own[k]
                elif k in c.defaults:
                    out[k] = tuple(c.defaults[k])
                elif k in c.static:
                    out[k] = ('u',)
                else:
                    raise model.CannotEncode('%s unset' % k)
        for k, v in out.items():
            if k in c.proxy:
                v = self.proxied(v)
            name = self.key(c.wire(k))
            p = (name, self.enc(v))
            if k in c.static:
                w.sealed.append(p)
            else:
                w.dyn = w.dyn or []
                w.dyn.append(p)
        if w.dyn is None and (c.dynamic or c.encodable - c.static):
            w.dyn = []
        return w


class UnknownClass(Exception):
    pass


class CDec(model.Dec):
    def __init__(self, ver, inf, strict=False):
        model.Dec.__init__(self, ver)
        self.inf = inf
        self.strict = strict
        self.names = {c.alias: c for c in inf if c.alias}
        self.un = {}
        if ver == 0:
            self.sub = CDec(3, inf, strict)

    def unproxied(self, w, v):
        """The plain form of the value v."""
        if self.ver != 3 or not isinstance(v, N):
            return v
        if v.kind == 'ac':
            if id(v) not in self.un:
                n = N('list')
                n.items = v.items
                self.un[id(v)] = n
                self.keep.append(v)
            return self.un[id(v)]
        if v.kind == 'proxy':
            return v.items[0]
        return v

    def obj(self, w):
        c = self.names.get(w.cls)
        if w.cls in (model.AC, model.OP, ''):
            return model.Dec.obj(self, w)
        if c is None and w.cls in self.by_alias:
            return model.Dec.obj(self, w)
        if c is None:
            if self.strict:
                raise UnknownClass(w.cls)
            n = self.node(w, 'typed', w.cls)
            d = {}
            for key, v in w.sealed + (w.dyn or []):
                d[key] = self.dec(v)
            n.pairs = list(d.items())
            return n
        n = self.node(w, 'inst', str(c.i))
        d = {}
        for key, v in w.sealed + (w.dyn or []):
            d[key] = (v, self.dec(v))
        back = {b: a for a, b in c.synonym.items()}
        e = {k: v for k, v in d.items() if k not in back}
        for k, v in d.items():
            if k in back:
                e[back[k]] = v
        if c.static - set(e):
            raise model.MissingStatic(w.cls)
        allowed = set(e) if c.dynamic else set(e) & c.decodable
        allowed -= c.readonly
        allowed -= c.exclude
        for k in sorted(allowed):
            wv, v = e[k]
            if k in c.proxy:
                v = self.unproxied(wv, v)
            n.pairs.append((k, v))
        return n


# ------------------------------------------------------------ strategies

names = st.lists(st.sampled_from(POOL), max_size=3, unique=True)


@st.composite
def meta(draw, slots, synonyms):
    m = {}
    for k in ('static', 'exclude', 'readonly', 'proxy'):
        if draw(st.integers(0, 2)) == 0:
            m[k] = draw(names)
    if not slots and draw(st.integers(0, 2)) == 0:
        m['dynamic'] = draw(st.sampled_from([0, 0, 1]))
    if draw(st.integers(0, 9)) == 0:
        m['amf3'] = 1
    if synonyms and draw(st.integers(0, 2)) == 0:
        ks = draw(names)
        vs = draw(st.permutations(WIRE_NAMES))
        m['synonym'] = dict(zip(ks, vs))
    m['form'] = draw(st.sampled_from(['new', 'old', 'dict']))
    m['seq'] = draw(st.sampled_from('tls'))
    return m


@st.composite
def spec(draw, max_classes=4):
    """A list of class specifications; later ones may derive from earlier
    ones of the same family."""
    out = []
    n = draw(st.integers(1, max_classes))
    for i in range(n):
        s = {}
        cands = [None] + [j for j in range(i)]
        base = draw(st.sampled_from(cands + cands[1:]))
        kind = out[base]['kind'] if base is not None else \
            draw(st.sampled_from(['new', 'new', 'new', 'old', 'dict']))
        s['kind'] = kind
        s['base'] = base
        taken = set()
        b = Info(out, base) if base is not None else None
        if b:
            taken |= set(b.slots) | set(b.props) | set(b.defaults)
        slotty = b.slots if b else False
        if kind == 'new' and draw(st.integers(0, 3)) == 0:
            s['slots'] = [x for x in draw(names) if x not in taken]
            taken |= set(s['slots'])
            slotty = True
        if kind == 'new' and draw(st.integers(0, 2)) == 0:
            s['props'] = {}
            for x in draw(names):
                if x not in taken:
                    s['props'][x] = draw(st.sampled_from(['rw', 'rw', 'ro',
                                                          'wo']))
                    taken.add(x)
        if kind != 'dict' and draw(st.integers(0, 3)) == 0:
            s['defaults'] = {x: ['i', str(draw(st.integers(0, 9)))]
                             for x in draw(names) if x not in taken}
        if draw(st.integers(0, 4)):
            m = s['meta'] = draw(meta(slotty, not (b and b.synonym)))
            c = Info(out + [s], i)
            if c.sealed and 'static' in m:
                # nothing else can be set on such an instance
                m['static'] = [x for x in m['static']
                               if x in c.slots or x in c.props]
        s['reg'] = draw(st.sampled_from(['call', 'call', 'bytes', None]))
        s['alias'] = 'gen.C%d' % i
        out.append(s)
    return out


def _values(proxied, ver):
    o = gen.Opts(ver, max_nodes=5, xml=False, insts=False, mixed=False,
                 refs=not proxied)
    return gen.value(o, 3)


VALUES = {(p, v): _values(p, v) for p in (False, True) for v in (0, 3)}


@st.composite
def instance(draw, inf, ver, depth=2, budget=None):
    if budget is None:
        budget = [6]
    budget[0] -= 1
    c = draw(st.sampled_from(inf))
    attrs = []
    pool = [n for n in POOL if c.props.get(n) != 'ro']
    if c.is_dict:
        pool = pool + ['caf\xe9', 'public']
    elif not c.plain:
        pool = pool + ['zz']
    else:
        pool = pool + ['public', 'zz']
    if c.synonym:
        pool = [n for n in pool if n not in WIRE_NAMES]
    if c.sealed:
        pool = [n for n in pool if n in c.slots or n in c.setters]
    ks = draw(st.lists(st.sampled_from(pool), max_size=5, unique=True)) \
        if pool else []
    # slots have to hold something to be sent
    ks += [n for n in sorted(c.slots) if n not in ks and
           n not in c.static and n not in c.exclude]
    for k in ks:
        p = k in c.proxy
        if depth > 0 and budget[0] > 0 and not p and \
                draw(st.integers(0, 2)) == 0:
            attrs.append([k, draw(instance(inf, ver, depth - 1, budget))])
        else:
            attrs.append([k, draw(VALUES[(p, ver)])])
    return ['c', c.i, attrs]


@st.composite
def sent(draw, ver):
    specs = draw(spec())
    inf = infos(specs)
    vs = []
    for _ in range(draw(st.integers(1, 3))):
        x = draw(instance(inf, ver))
        k = draw(st.integers(0, 5))
        if k == 0:
            x = ['l', [x, ['r', 0]]]
        elif k == 1:
            x = ['m', [['k', x], ['j', draw(instance(inf, ver))]]]
        vs.append(x)
    order = draw(st.permutations(range(len(specs))))
    return {'v': ver, 'classes': specs, 'vals': vs, 'order': list(order)}


class CParser(wiregen.Parser):
    pass


@st.composite
def received_obj(draw, ver, inf, depth=2, budget=None, unknown=None):
    """A wire recipe of an object of one of the registered classes."""
    if budget is None:
        budget = [6]
    budget[0] -= 1
    regs = [c for c in inf if c.alias]
    if unknown and draw(st.integers(0, 3)) == 0:
        c = None
    else:
        c = draw(st.sampled_from(regs)) if regs else None
    back = set()
    must = []
    if c is None:
        cls = draw(st.sampled_from(unknown or wiregen.CLS_UNKNOWN))
        pool = POOL + ['caf\xe9']
        proxy = set()
    else:
        cls = c.alias
        must = [c.wire(k) for k in sorted(c.static)]
        proxy = {c.wire(k) for k in c.proxy}
        # both names of one attribute at once means nothing documented
        pool = [n for n in POOL + WIRE_NAMES if n not in c.synonym]
        if c.is_dict:
            pool = pool + ['caf\xe9']
        if c.sealed or any(m == 'wo' for m in c.props.values()):
            pass
        if must and draw(st.integers(0, 11)) == 0:
            must = must[1:]
    extra = [x for x in draw(st.lists(st.sampled_from(pool), max_size=4,
                                      unique=True)) if x not in must]
    ps = []
    for k in draw(st.permutations(must + extra)):
        if k in proxy and ver == 3:
            kind = draw(st.sampled_from(['ac', 'op', 'x', 'x']))
            if kind == 'ac':
                v = ['ac', ['arr', [], [draw(wiregen.PRIMS[3]) for _ in
                                        range(draw(st.integers(0, 2)))]]]
            elif kind == 'op':
                v = ['op', ['obj', '', [], [['k', draw(wiregen.PRIMS[3])]]]]
            else:
                v = draw(wiregen.wire(3, 1, [3], False, False))
        elif depth > 0 and budget[0] > 0 and draw(st.integers(0, 2)) == 0:
            v = draw(received_obj(ver, inf, depth - 1, budget, unknown))
        elif draw(st.integers(0, 3)) == 0:
            v = draw(wiregen.wire(ver, 2, [4], False, False))
        else:
            v = draw(wiregen.PRIMS[ver])
        ps.append([k, v])
    if ver == 0:
        return ['obj', cls, [], ps]
    n = draw(st.integers(0, len(ps)))
    if draw(st.booleans()):
        return ['obj', cls, ps, None]
    return ['obj', cls, ps[:n], ps[n:]]


@st.composite
def received(draw, ver, unknown=None):
    specs = draw(spec())
    inf = infos(specs)
    for s, c in zip(specs, inf):
        if not any(x['reg'] for x in specs):
            s['reg'] = 'call'
    inf = infos(specs)
    ws = []
    for _ in range(draw(st.integers(1, 2))):
        x = draw(received_obj(ver, inf, unknown=unknown))
        k = draw(st.integers(0, 7))
        if k == 0:
            x = ['arr', [], [x, ['r', 1]]]
        elif k == 1:
            x = ['obj', '', [], [['k', x]]]
        elif k == 2 and ver == 0:
            x = ['arr', [], [['amf3', draw(received_obj(
                3, inf, unknown=unknown))]]]
        ws.append(x)
    return {'v': ver, 'classes': specs, 'w': ws,
            'ch': draw(wiregen.choices),
            'order': list(draw(st.permutations(range(len(specs)))))}


def features(inf):
    out = set()
    for c in inf:
        for k in ('static', 'exclude', 'readonly', 'proxy', 'synonym',
                  'slots', 'props'):
            if getattr(c, k):
                out.add(k)
        if not c.dynamic:
            out.add('closed')
        if c.sealed:
            out.add('sealed')
        if c.s.get('base') is not None:
            out.add('derived')
        if c.amf3:
            out.add('amf3')
        out.add('kind:' + c.kind)
    return sorted(out)
