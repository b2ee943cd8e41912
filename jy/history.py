# Python 2 (Jython): sequences of encodes and decodes in one process.
import datetime

import pyamf
from pyamf import amf3, util
from pyamf.flex import ArrayCollection, ObjectProxy
from pyamf import xml as pxml
import vals
from vals import err, msg, ERRORS


class Bomb(object):
    """Fails while its attributes are read."""
    def __getattribute__(self, name):
        if name == '__dict__':
            raise KeyError('bomb')
        return object.__getattribute__(self, name)


class BombExt(object):
    class __amf__:
        external = True

    def __writeamf__(self, o):
        o.writeObject([1, {'a': u'half'}])
        raise ValueError('bomb')

    def __readamf__(self, i):
        i.readObject()
        raise ValueError('bomb')


pyamf.register_class(BombExt, 'org.test.BombExt')


def poison(kind):
    if kind == 'func':
        return poison
    if kind == 'class':
        return Bomb
    if kind == 'time':
        return datetime.time(1, 2)
    if kind == 'bomb':
        return Bomb()
    if kind == 'ext':
        return BombExt()
    if kind == 'key':
        return pyamf.MixedArray({(1, 2): 3})
    if kind == 'lambda':
        return lambda: 1
    raise ValueError(kind)


def scramble(v, seen):
    """Change every container reachable from v."""
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, ArrayCollection):
        for x in list(v):
            scramble(x, seen)
        list.append(v, 'scrambled')
    elif isinstance(v, ObjectProxy):
        scramble(v._amf_object, seen)
        v._amf_object = None
    elif isinstance(v, list):
        for x in list(v):
            scramble(x, seen)
        v.append('scrambled')
    elif isinstance(v, tuple):
        for x in v:
            scramble(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x, seen)
        v.clear()
        v['scrambled'] = True
    elif isinstance(v, amf3.ByteArray):
        v.seek(0, 2)
        v.write('scrambled')
    elif pxml.is_xml(v):
        v.text = 'scrambled'
        v.set('s', 'c')
    elif v.__class__ in vals.NAMES:
        for k in ('p', 'q', 'a', 'b', 's1', 's2', 'k'):
            if hasattr(v, k):
                scramble(getattr(v, k), seen)
                setattr(v, k, 'scrambled')
        if hasattr(v, '__dict__'):
            for k in v.__dict__.keys():
                scramble(v.__dict__[k], seen)
                v.__dict__[k] = 'scrambled'


def step(s, state):
    op = s[0]
    ver = s[1]
    if op in ('enc', 'encl'):
        v = vals.build(s[2])
        before = vals.dump(v)
        if op == 'enc':
            e = pyamf.get_encoder(ver)
        else:
            e = state.get(('e', ver))
            if e is None:
                e = state[('e', ver)] = pyamf.get_encoder(ver)
            e.context.clear()
            e.stream.truncate()
        e.writeElement(v)
        return {'hex': e.stream.getvalue().encode('hex'),
                'same': vals.dump(v) == before}
    if op in ('encbad', 'encbadl'):
        p = poison(s[3])
        v = vals.build(s[2])
        v = {'t': [[v, p], v], 'd': {'a': v, 'b': [p]}, 'v': p,
             'o': pyamf.ASObject(x=v, y=p), 'l': [v, v, [v, [p, v]]]}[s[4]]
        if op == 'encbad':
            e = pyamf.get_encoder(ver)
        else:
            e = state.get(('e', ver))
            if e is None:
                e = state[('e', ver)] = pyamf.get_encoder(ver)
            e.context.clear()
            e.stream.truncate()
        try:
            e.writeElement(v)
        except ERRORS, x:
            return {'error': err(x)}
        return {'hex': e.stream.getvalue().encode('hex')}
    if op in ('dec', 'decl'):
        data = s[2].decode('hex')
        if op == 'dec':
            d = pyamf.get_decoder(ver, data)
        else:
            d = state.get(('d', ver))
            if d is None:
                d = state[('d', ver)] = pyamf.get_decoder(ver)
            d.context.clear()
            d.stream.truncate()
            d.send(data)
            d.stream.seek(0)
        try:
            v = d.readElement()
        except ERRORS, x:
            return {'error': err(x), 'msg': msg(x)}
        out = vals.dump(v)
        scramble(v, {})
        return {'val': out}
    raise ValueError(op)


def op_history(req):
    state = {}
    out = []
    for s in req['steps']:
        try:
            out.append(step(s, state))
        except ERRORS, e:
            import traceback
            out.append({'fail': traceback.format_exc()[-800:]})
    return out


OPS = {'history': op_history}
