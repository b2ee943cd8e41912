# Python 2 (Jython): histories of operations on PyAMF's registries.
import types

import pyamf
import regmod

CLASSES = dict((n, getattr(regmod, n)) for n in
               ('A', 'B', 'Old', 'M', 'X', 'D', 'R', 'E', 'F', 'G', 'AT1',
                'AT2', 'AT3'))
NAMES = dict((v, k) for k, v in CLASSES.items())
PREDS = {'pred_o': regmod.pred_o, 'pred_x': regmod.pred_x,
         'tpred': regmod.tpred}
FUNCS = [None, lambda *a: 1, lambda *a: 2]
REGISTRIES = ['CLASS_CACHE', 'CLASS_LOADERS', 'TYPE_MAP', 'ALIAS_TYPES',
              'ERROR_CLASS_MAP']
KNOWN = (TypeError, ValueError, KeyError, LookupError, RuntimeError,
         pyamf.UnknownClassAlias)


class Loader(object):
    def __init__(self, h, i, answers):
        self.h = h
        self.i = i
        self.answers = answers

    def __call__(self, name):
        self.h.calls.append([self.i, name])
        a = self.answers.get(name)
        if a is None:
            return None
        kind, v = a
        if kind == 'class':
            return CLASSES[v]
        if kind == 'alias':
            return self.h.premade[v]
        return 42

    def __hash__(self):
        return self.i


class History(object):
    def __init__(self, req):
        self.calls = []
        self.seen = []
        self.encoders = {}
        self.premade = dict((n, pyamf.ClassAlias(CLASSES[c], n, defer=True))
                            for n, c in req['premade'].items())
        self.loaders = [Loader(self, i, a)
                        for i, a in enumerate(req['loaders'])]

    def ident(self, a):
        for i, x in enumerate(self.seen):
            if x is a:
                return i
        self.seen.append(a)
        return len(self.seen) - 1

    def alias(self, a):
        if not isinstance(a, pyamf.ClassAlias):
            return ['notalias', repr(a)]
        if not (a == a.klass and a == a.alias and a == a):
            return ['unequal', a.alias]
        if a != a.klass or a != a.alias or a != a or a == 5 or not a != 5:
            return ['unequal too', a.alias]
        return ['alias', self.ident(a), a.alias, NAMES.get(a.klass, '?'),
                a.__class__.__name__, bool(a.anonymous)]

    def thing(self, x):
        if isinstance(x, list):
            k, v = x
            if k == 'class':
                return CLASSES[v]
            if k == 'pred':
                return PREDS[v]
            if k == 'tuple':
                return tuple(self.thing(y) for y in v)
            if k == 'list':
                return [self.thing(y) for y in v]
            if k == 'bytes':
                return v.encode('utf-8')
            if k == 'module':
                return regmod
            return v
        return x

    def run(self, op):
        return getattr(self, 'o_' + op[0])(*op[1:])

    def o_register_class(self, k, name):
        a = [self.thing(k)]
        if name is not None:
            a.append(self.thing(name))
        return self.alias(pyamf.register_class(*a))

    def o_unregister_class(self, k):
        return self.alias(pyamf.unregister_class(self.thing(k)))

    def o_get(self, k):
        return self.alias(pyamf.get_class_alias(self.thing(k)))

    def o_load(self, k):
        return self.alias(pyamf.load_class(self.thing(k)))

    def o_loader(self, i):
        pyamf.register_class_loader(self.loaders[i] if isinstance(i, int)
                                    else self.thing(i))

    def o_unloader(self, i):
        pyamf.unregister_class_loader(self.loaders[i])

    def o_package(self, form, members, package, kw):
        kw = dict((str(k), v) for k, v in kw.items())
        if form == 'module':
            r = pyamf.register_package(regmod, package, **kw)
        elif form == 'list':
            r = pyamf.register_package([CLASSES[c] for c in members], package,
                                       **kw)
        elif form == 'empty':
            r = pyamf.register_package('', package)
        elif form == 'junk':
            r = pyamf.register_package(42, package)
        else:
            d = dict((c, CLASSES[c]) for c in members)
            d['junk'] = 'junk'
            if form != 'noname':
                d['__name__'] = 'regmod' if form != 'other' else 'elsewhere'
            r = pyamf.register_package(d, package, **kw)
        return sorted([NAMES[k], self.alias(v)] for k, v in r.items())

    def o_alias_type(self, k, args):
        pyamf.register_alias_type(self.thing(k),
                                  *[self.thing(a) for a in args])

    def o_unalias_type(self, k):
        r = pyamf.unregister_alias_type(self.thing(k))
        if r is None:
            return None
        return [NAMES.get(x) or getattr(x, '__name__', '?') for x in r]

    def o_add_type(self, t, f):
        pyamf.add_type(self.thing(t), FUNCS[f])

    def o_get_type(self, t):
        return FUNCS.index(pyamf.get_type(self.thing(t)))

    def o_remove_type(self, t):
        return FUNCS.index(pyamf.remove_type(self.thing(t)))

    def o_add_error(self, k, code):
        pyamf.add_error_class(self.thing(k), self.thing(code))

    def o_remove_error(self, k):
        pyamf.remove_error_class(self.thing(k))

    def o_send(self, k, ver, reuse=0):
        c = CLASSES[k]
        o = c()
        if not isinstance(o, dict):
            o.attr = 1
        else:
            o['attr'] = 1
        if reuse:
            # an encoder that lives as long as the history, cleared each time
            if ver not in self.encoders:
                self.encoders[ver] = pyamf.get_encoder(ver)
            e = self.encoders[ver]
            e.context.clear()
            e.stream.truncate()
            e.writeElement(o)
            return e.stream.getvalue().encode('hex')
        return pyamf.encode(o, encoding=ver).getvalue().encode('hex')


def snapshot():
    return dict((r, getattr(pyamf, r).copy()) for r in REGISTRIES)


def restore(s):
    for r, v in s.items():
        x = getattr(pyamf, r)
        x.clear()
        x.update(v)


def op_registry(req):
    saved = snapshot()
    try:
        h = History(req)
        out = []
        for op in req['ops']:
            h.calls = []
            try:
                r = ['ok', h.run(op)]
            except KNOWN, e:
                r = ['error', [c.__name__ for c in e.__class__.__mro__]]
            calls = h.calls
            h.calls = []
            classes = {}
            for n in req['watch']:
                try:
                    classes[n] = h.alias(pyamf.get_class_alias(CLASSES[n]))
                except pyamf.UnknownClassAlias:
                    classes[n] = None
            errors = dict((k, NAMES.get(v, v.__name__)) for k, v in
                          pyamf.ERROR_CLASS_MAP.items())
            out.append([r, calls, classes, errors, len(h.calls)])
        return out
    finally:
        restore(saved)
        assert pyamf.CLASS_CACHE == saved['CLASS_CACHE']


OPS = {'registry': op_registry}
