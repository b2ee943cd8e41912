# Python 2 (Jython): values of adapted types.
import array
import collections
import decimal
import gc
import sets
import weakref

import pyamf
from pyamf.adapters import register_adapters  # noqa
import vals
from vals import err, msg, ERRORS, Builder


class New(object):
    pass


class NewSub(New):
    pass


class OldA:
    pass


class OldB:
    pass


class OldC:
    pass


class Flag(object):
    pass


class FlagOld:
    pass


class TupA(object):
    pass


class TupB(object):
    pass


class ListSub(list):
    pass


class TupleSub(tuple):
    pass


class DictSub(dict):
    pass


class IntSub(int):
    pass


class SlotList(list):
    __slots__ = ()


class SlotTup(tuple):
    __slots__ = ()


Point = collections.namedtuple('Point', 'x y')


class StrSub(unicode):
    __slots__ = ()


class FloatSub(float):
    __slots__ = ()


USER = dict((c.__name__, c) for c in
            (New, NewSub, OldA, OldB, OldC, Flag, FlagOld, TupA, TupB,
             ListSub, TupleSub, DictSub, IntSub, SlotList, SlotTup, Point,
             StrSub, FloatSub))


def is_flag(x):
    return isinstance(x, (Flag, FlagOld)) and x.flag


def is_listy(x):
    return isinstance(x, (ListSub, TupleSub)) and len(x) > 1


def payload(x, encoder):
    return x.payload


def boxed(x, encoder):
    return [x.payload]


def direct(x, encoder):
    encoder.writeElement(x.payload)


def asdict(x, encoder):
    return {u'items': list(x)}


def aslen(x, encoder):
    return len(x)


def asfloat(x, encoder):
    return [float(x)]


def asstr(x, encoder):
    return unicode(int(x))


# one entry: types, function
MAPPINGS = {
    'New': (New, payload), 'OldA': (OldA, payload), 'OldB': (OldB, boxed),
    'Flag': (is_flag, payload), 'Tup': ((TupA, TupB), boxed),
    'TupPred': ([TupA, is_flag], direct), 'Direct': (OldC, direct),
    'ListSub': (ListSub, asdict), 'Listy': (is_listy, aslen),
    'DictSub': (DictSub, aslen), 'IntSub': (IntSub, asstr),
    'SlotList': (SlotList, asdict), 'SlotTup': (SlotTup, asdict),
    'Point': (Point, asdict), 
    'FloatSub': (FloatSub, asfloat),
}


class ABuilder(Builder):
    def __init__(self):
        Builder.__init__(self)
        self.orders = []
        self.keep = []

    def b_A(self, r):
        items = self._items(r[2])
        form = r[1]
        if form == 'deque':
            return collections.deque(items)
        if form == 'array':
            return array.array(r[3].encode('ascii'), items)
        self.keep.append(items)
        o = {'Set': sets.Set, 'ImmutableSet': sets.ImmutableSet,
             'WeakSet': weakref.WeakSet}[form](items)
        order = []
        for x in o:
            for i, y in enumerate(items):
                if x is y or (form != 'WeakSet' and x == y):
                    order.append(i)
        self.orders.append(order)
        return o

    def b_AD(self, r):
        form = r[1]
        pairs = [(k, self.build(v)) for k, v in r[2]]
        self.keep.append(pairs)
        if form == 'defaultdict':
            return collections.defaultdict(list, pairs)
        if form == 'OrderedDict':
            return collections.OrderedDict(pairs)
        if form == 'Counter':
            return collections.Counter(dict(pairs))
        o = weakref.WeakValueDictionary()
        for k, v in pairs:
            o[k] = v
        return o

    def b_W(self, r):
        o = self.build(r[1])
        if r[2]:
            self.keep.append(o)
            return weakref.ref(o)
        return DEAD

    def b_dec(self, r):
        return decimal.Decimal(r[1])

    def b_U(self, r):
        cls = USER[r[1]]
        if r[1] in ('ListSub', 'TupleSub', 'SlotList', 'SlotTup'):
            return cls(self._items(r[2]))
        if r[1] == 'Point':
            return cls(*self._items(r[2]))
        if r[1] == 'FloatSub':
            return cls(vals.h2f(r[2]))
        if r[1] == 'DictSub':
            return cls((k, self.build(v)) for k, v in r[2])
        if r[1] in ('IntSub', 'StrSub'):
            return cls(r[2])
        o = cls()
        o.payload = self.build(r[2])
        if r[1] in ('Flag', 'FlagOld'):
            o.flag = r[3]
        return o

    def b_dup(self, r):
        o = self.build(r[1])
        return [o] * r[2]


def dead():
    class Gone(object):
        pass
    r = weakref.ref(Gone())
    for i in range(50):
        gc.collect()
        if r() is None:
            return r
        import time
        time.sleep(0.05)
    raise AssertionError('garbage collector does not collect')


DEAD = dead()


def op_adapt(req):
    added = []
    saved = pyamf.TYPE_MAP.copy()
    try:
        for name in req['mappings']:
            t, f = MAPPINGS[name]
            pyamf.add_type(t, f)
            added.append(t)
        b = ABuilder()
        vs = [b.build(r) for r in req['vals']]
        e = vals.encoder(req['v'], req)
        try:
            for v in vs:
                e.writeElement(v)
        except ERRORS, x:
            return {'enc_error': err(x), 'msg': msg(x)}
        return {'hex': e.stream.getvalue().encode('hex'),
                'orders': b.orders}
    finally:
        pyamf.TYPE_MAP.clear()
        pyamf.TYPE_MAP.update(saved)


OPS = {'adapt': op_adapt}
