# Python 2 (Jython): classes the registry checks register, load and import.
import pyamf


class A(object):
    pass


class B(A):
    pass


class Old:
    pass


class M(object):
    class __amf__:
        alias = 'm.M'


class X(object):
    pass


class D(dict):
    pass


class R:
    def __init__(self, needed):
        pass


class E(Exception):
    pass


class F(E):
    pass


class G(ValueError):
    pass


class AT1(pyamf.ClassAlias):
    def getEncodableAttributes(self, obj, **kw):
        d = pyamf.ClassAlias.getEncodableAttributes(self, obj, **kw)
        d['via'] = self.__class__.__name__
        return d


class AT2(AT1):
    pass


class AT3(AT1):
    pass


def pred_o(cls):
    return getattr(cls, '__name__', '').startswith('O')


def pred_x(cls):
    return getattr(cls, '__name__', '') == 'X'


def tpred(x):
    return False


notaclass = 42
anAlias = pyamf.ClassAlias(X, 'mod.X', defer=True)
__all__ = ['A', 'B', 'Old']
