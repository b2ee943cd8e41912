# Python 2 (Jython): classes built from specifications, registered for the
# duration of one operation.
import types

import pyamf
import vals
from vals import err, msg, ERRORS, Builder, Dumper

STORE = {}


def mkprop(name, mode):
    def get(self):
        if mode == 'ro':
            return u'ro:' + name
        return STORE.get((id(self), name), (None, None))[1]

    def put(self, v):
        STORE[(id(self), name)] = (self, v)

    return property(None if mode == 'wo' else get,
                    None if mode == 'ro' else put)


FORMS = {'t': tuple, 'l': list, 's': set}


def mkmeta(m):
    seq = FORMS[m.get('seq', 't')]
    d = {}
    for k in ('static', 'exclude', 'readonly', 'proxy'):
        if k in m:
            d[k] = seq(n.encode('ascii') for n in m[k])
    for k in ('dynamic', 'amf3'):
        if k in m:
            d[k] = bool(m[k])
    if 'alias' in m:
        d['alias'] = m['alias']
    if 'synonym' in m:
        d['synonym'] = dict((a.encode('ascii'), b.encode('ascii'))
                            for a, b in m['synonym'].items())
    if m.get('form') == 'dict':
        return d
    if m.get('form') == 'old':
        return types.ClassType('__amf__', (), d)
    return type('__amf__', (object,), d)


def mkclass(i, s, classes):
    ns = {'__module__': 'generated'}
    if s.get('meta') is not None:
        ns['__amf__'] = mkmeta(s['meta'])
    for n, mode in s.get('props', {}).items():
        ns[n.encode('ascii')] = mkprop(n, mode)
    for n, v in s.get('defaults', {}).items():
        ns[n.encode('ascii')] = vals.build(v)
    if 'slots' in s:
        ns['__slots__'] = tuple(n.encode('ascii') for n in s['slots'])
    base = s.get('base')
    base = None if base is None else classes[base]
    name = 'C%d' % i
    if s['kind'] == 'old':
        return types.ClassType(name, (base,) if base else (), ns)
    if s['kind'] == 'dict':
        return type(name, (base or dict,), ns)
    return type(name, (base or object,), ns)


class Universe(object):
    """The classes of one case."""

    def __init__(self, specs, order=None):
        self.specs = specs
        self.classes = []
        for i, s in enumerate(specs):
            self.classes.append(mkclass(i, s, self.classes))
        self.names = dict((c, str(i)) for i, c in enumerate(self.classes))
        self.registered = []
        for i in order if order is not None else range(len(specs)):
            how = specs[i].get('reg')
            if how is None:
                continue
            if how == 'meta':
                pyamf.register_class(self.classes[i])
            elif how == 'bytes':
                pyamf.register_class(self.classes[i],
                                     specs[i]['alias'].encode('utf-8'))
            elif how == 'deco':
                pyamf.RemoteClass(specs[i]['alias'])(self.classes[i]) \
                    if hasattr(pyamf, 'RemoteClass') else \
                    pyamf.register_class(self.classes[i], specs[i]['alias'])
            else:
                pyamf.register_class(self.classes[i], specs[i]['alias'])
            self.registered.append(self.classes[i])

    def close(self):
        for c in self.registered:
            try:
                pyamf.unregister_class(c)
            except pyamf.UnknownClassAlias:
                pass
        STORE.clear()


class CBuilder(Builder):
    def __init__(self, u):
        Builder.__init__(self)
        self.u = u

    def b_c(self, r):
        if not isinstance(r[1], int):
            return Builder.b_c(self, r)
        cls = self.u.classes[r[1]]
        o = cls()
        self.c.append(o)
        for k, v in r[2]:
            v = self.build(v)
            if isinstance(o, dict):
                o[k] = v
            elif max(k) > u'\x7f':
                o.__dict__[k] = v
            else:
                setattr(o, k, v)
        return o


class CDumper(Dumper):
    def __init__(self, u):
        Dumper.__init__(self)
        self.u = u

    def other(self, v):
        cls = v.__class__
        name = self.u.names.get(cls)
        if name is None:
            return Dumper.other(self, v)
        d = {}
        if isinstance(v, dict):
            d.update(v)
        if hasattr(v, '__dict__'):
            for k, x in v.__dict__.items():
                d[k] = x
        c = cls
        mro = [cls]
        while mro:
            c = mro.pop()
            for s in c.__dict__.get('__slots__', ()):
                if hasattr(v, s):
                    d[s] = getattr(v, s)
            mro.extend(c.__bases__)
        for (i, n), (o, x) in STORE.items():
            if o is v:
                d[n] = x
        return ['inst', name, self.pairs(d)]


def dump_all(u, vs):
    d = CDumper(u)
    return [d.dump(v) for v in vs]


def op_cls(req):
    """mode enc / dec / rt"""
    ver = req['v']
    u = Universe(req['classes'], req.get('order'))
    out = {}
    try:
        data = None
        n = req.get('n', 1)
        if 'vals' in req:
            b = CBuilder(u)
            vs = [b.build(r) for r in req['vals']]
            n = len(vs)
            before = dump_all(u, vs)
            e = vals.encoder(ver, req)
            try:
                for v in vs:
                    e.writeElement(v)
            except ERRORS, x:
                return {'enc_error': err(x), 'msg': msg(x)}
            data = e.stream.getvalue()
            out['hex'] = data.encode('hex')
            out['same'] = before == dump_all(u, vs)
            if req.get('enc_only'):
                return out
        else:
            data = req['hex'].decode('hex')
        STORE_before = dict(STORE)
        d = vals.decoder(ver, data, req)
        res = []
        try:
            for i in range(n):
                res.append(d.readElement())
        except ERRORS, x:
            out['dec_error'] = err(x)
            out['msg'] = msg(x)
        out['left'] = len(data) - d.stream.tell()
        out['vals'] = dump_all(u, res)
        return out
    finally:
        u.close()


OPS = {'cls': op_cls}
