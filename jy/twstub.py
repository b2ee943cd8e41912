# Python 2 (Jython): the few parts of Twisted the gateway stands on, with an
# event queue whose order the caller decides.
import sys
import traceback
import types


class Loop(object):
    """What is to happen; `pick(n)` chooses what happens next."""

    def __init__(self, pick):
        self.pick = pick
        self.queue = []

    def later(self, f, *args):
        self.queue.append((f, args))

    def run(self, limit=5000):
        n = 0
        while self.queue:
            n += 1
            assert n < limit, 'endless'
            f, args = self.queue.pop(self.pick(len(self.queue)))
            f(*args)


LOOP = None


class Failure(object):
    def __init__(self, exc_value=None, exc_type=None, exc_tb=None):
        if exc_value is None:
            self.type, self.value, self.tb = sys.exc_info()
            assert self.type is not None, 'no exception'
        else:
            self.type = exc_type or exc_value.__class__
            self.value = exc_value
            self.tb = exc_tb

    def check(self, *types):
        for t in types:
            if issubclass(self.type, t):
                return t
        return None

    def trap(self, *types):
        t = self.check(*types)
        if t is None:
            raise self.type, self.value, self.tb
        return t

    def raiseException(self):
        raise self.type, self.value, self.tb

    def getErrorMessage(self):
        if isinstance(self.value, Failure):
            return self.value.getErrorMessage()
        try:
            return str(self.value)
        except Exception:
            return '<%s instance>' % self.type.__name__

    def getTraceback(self, *args, **kwargs):
        return ''.join(safe(x) for x in traceback.format_exception(
            self.type, self.value, self.tb))

    def cleanFailure(self):
        self.tb = None


def safe(s):
    if isinstance(s, unicode):
        return s.encode('utf-8')
    return s


class AlreadyCalledError(Exception):
    pass


def passthru(x):
    return x


class Deferred(object):
    def __init__(self, canceller=None):
        self.called = False
        self.paused = 0
        self.callbacks = []
        self._chainedTo = None

    def addCallbacks(self, callback, errback=None, callbackArgs=None,
                     callbackKeywords=None, errbackArgs=None,
                     errbackKeywords=None):
        assert callable(callback)
        self.callbacks.append((
            (callback, callbackArgs or (), callbackKeywords or {}),
            (errback or passthru, errbackArgs or (), errbackKeywords or {})))
        if self.called:
            self._run()
        return self

    def addCallback(self, f, *args, **kw):
        return self.addCallbacks(f, None, args, kw)

    def addErrback(self, f, *args, **kw):
        return self.addCallbacks(passthru, f, None, None, args, kw)

    def addBoth(self, f, *args, **kw):
        return self.addCallbacks(f, f, args, kw, args, kw)

    def callback(self, result):
        assert not isinstance(result, Deferred)
        self._start(result)

    def errback(self, fail=None):
        if fail is None:
            fail = Failure()
        elif not isinstance(fail, Failure):
            fail = Failure(fail)
        self._start(fail)

    def _start(self, result):
        if self.called:
            raise AlreadyCalledError()
        self.called = True
        self.result = result
        self._run()

    def pause(self):
        self.paused += 1

    def unpause(self):
        self.paused -= 1
        if not self.paused and self.called:
            self._run()

    def _run(self):
        if self.paused or getattr(self, '_running', False):
            return
        self._running = True
        try:
            while self.callbacks:
                pair = self.callbacks.pop(0)
                f, args, kw = pair[isinstance(self.result, Failure)]
                try:
                    self.result = f(self.result, *args, **kw)
                except:
                    self.result = Failure()
                if isinstance(self.result, Deferred):
                    inner = self.result
                    self.result = None
                    self.pause()
                    inner.addBoth(self._take)
                    if self.paused:
                        return
        finally:
            self._running = False
        if isinstance(self.result, Failure):
            self.result.cleanFailure()

    def _take(self, result):
        self.result = result
        self.paused -= 1
        if not getattr(self, '_running', False):
            self._run()
        return None


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(result=None):
    d = Deferred()
    d.errback(result)
    return d


def maybeDeferred(f, *args, **kw):
    try:
        result = f(*args, **kw)
    except:
        return fail(Failure())
    if isinstance(result, Deferred):
        return result
    if isinstance(result, Failure):
        return fail(result)
    return succeed(result)


class DeferredList(Deferred):
    def __init__(self, deferredList, fireOnOneCallback=0, fireOnOneErrback=0,
                 consumeErrors=0):
        self.resultList = [None] * len(deferredList)
        Deferred.__init__(self)
        self.fireOnOneCallback = fireOnOneCallback
        self.fireOnOneErrback = fireOnOneErrback
        self.consumeErrors = consumeErrors
        self.finishedCount = 0
        if not deferredList and not fireOnOneCallback:
            self.callback(self.resultList)
        for i, d in enumerate(list(deferredList)):
            d.addCallbacks(self._cb, self._cb, callbackArgs=(i, True),
                           errbackArgs=(i, False))

    def _cb(self, result, index, succeeded):
        self.resultList[index] = (succeeded, result)
        self.finishedCount += 1
        if not self.called:
            if succeeded and self.fireOnOneCallback:
                self.callback((result, index))
            elif not succeeded and self.fireOnOneErrback:
                self.errback(result)
            elif self.finishedCount == len(self.resultList):
                self.callback(self.resultList)
        if not succeeded and self.consumeErrors:
            result = None
        return result


def gatherResults(ds, consumeErrors=False):
    d = DeferredList(ds, fireOnOneErrback=True, consumeErrors=consumeErrors)
    d.addCallback(lambda rs: [x[1] for x in rs])
    return d


def deferToThread(f, *args, **kw):
    d = Deferred()

    def work():
        try:
            r = f(*args, **kw)
        except:
            LOOP.later(d.errback, Failure())
        else:
            LOOP.later(d.callback, r)
    LOOP.later(work)
    return d


NOT_DONE_YET = 1


class UnsupportedMethod(Exception):
    def __init__(self, allowedMethods, *args):
        Exception.__init__(self, allowedMethods, *args)
        self.allowedMethods = allowedMethods


class Resource(object):
    isLeaf = 0

    def __init__(self):
        self.children = {}

    def putChild(self, path, child):
        self.children[path] = child

    def render(self, request):
        m = getattr(self, 'render_' + request.method, None)
        if not m:
            raise UnsupportedMethod(getattr(self, 'allowedMethods', ()))
        return m(request)


class Request(object):
    """One http request as twisted.web hands it to a resource."""

    def __init__(self, method, content):
        self.method = method
        self.content = content
        self.code = 200
        self.headers = []
        self.body = ''
        self.finished = 0
        self.late = 0

    def setResponseCode(self, code, message=None):
        assert isinstance(code, (int, long))
        self.code = code

    def setHeader(self, name, value):
        assert isinstance(name, str) and isinstance(value, str), (name, value)
        self.headers = [x for x in self.headers
                        if x[0].lower() != name.lower()] + [[name, value]]

    def getHeader(self, name):
        return None

    def write(self, data):
        if self.finished:
            self.late += 1
            raise RuntimeError('write after finish')
        if not isinstance(data, str):
            raise TypeError('data must not be unicode')
        self.body += data

    def finish(self):
        if self.finished:
            self.late += 1
            raise RuntimeError('finished twice')
        self.finished = 1

    def notifyFinish(self):
        return Deferred()


def install():
    if 'twisted' in sys.modules:
        return
    mods = {}
    for n in ('twisted', 'twisted.internet', 'twisted.internet.defer',
              'twisted.internet.threads', 'twisted.python',
              'twisted.python.failure', 'twisted.web', 'twisted.web.resource',
              'twisted.web.server'):
        mods[n] = sys.modules[n] = types.ModuleType(n)
        mods[n].__path__ = []
        if '.' in n:
            p, c = n.rsplit('.', 1)
            setattr(mods[p], c, mods[n])
    d = mods['twisted.internet.defer']
    for n in ('Deferred', 'DeferredList', 'maybeDeferred', 'succeed', 'fail',
              'gatherResults', 'AlreadyCalledError'):
        setattr(d, n, globals()[n])
    mods['twisted.internet.threads'].deferToThread = deferToThread
    mods['twisted.python.failure'].Failure = Failure
    mods['twisted.web.resource'].Resource = Resource
    mods['twisted.web.server'].NOT_DONE_YET = NOT_DONE_YET
    mods['twisted.web.server'].UnsupportedMethod = UnsupportedMethod


def use(pick):
    global LOOP
    LOOP = Loop(pick)
    return LOOP
