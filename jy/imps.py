# Python 2 (Jython): programs of imports and import hooks.
import imp
import os
import shutil
import sys
import tempfile

import pyamf
from pyamf import adapters
from pyamf.util import imports

world = imp.new_module('qworld')
sys.modules['qworld'] = world
STDLIB = ('sndhdr', 'colorsys', 'chunk', 'wsgiref.headers', 'xml.sax.saxutils')


class Run(object):
    def __init__(self, req, hooked):
        self.req = req
        self.hooked = hooked
        self.trace = []
        self.failed = {}
        self.modules = dict((m[0], m) for m in req['modules'])
        self.depth = 0

    def ev(self, *args):
        self.trace.append(list(args))

    def fail(self, name, times):
        n = self.failed.get(name, 0)
        if n < times:
            self.failed[name] = n + 1
            raise ValueError(name)

    def action(self, a):
        k = a[0]
        if k == 'hook':
            return self.hook(a)
        if k == 'forget':
            for n in sys.modules.keys():
                if n == a[1] or n.startswith(a[1] + '.'):
                    del sys.modules[n]
            return
        try:
            if k == 'imp':
                m = __import__(str(a[1]), {}, {}, [])
                full = sys.modules[a[1]]
                top = sys.modules[a[1].split('.')[0]]
                r = ['ok', m is top, getattr(full, '__name__', None),
                     getattr(full, 'value', None)]
            else:
                m = __import__(str(a[1]), {}, {}, [str(a[2])])
                r = ['ok', m is sys.modules[a[1]], hasattr(m, a[2]),
                     getattr(getattr(m, a[2], None), '__name__', None)]
        except Exception, e:
            r = [e.__class__.__name__]
        self.ev('res', k, a[1:], r)

    def hook(self, a):
        """['hook', name, [[id, [actions]]...], how]"""
        name, hooks, how = a[1:]
        if not self.hooked:
            return
        name = str(name)

        def make(hid, actions):
            def h(mod):
                self.ev('hook', hid, name, mod is sys.modules.get(name),
                        mod is not None)
                for x in actions:
                    self.action(x)
                self.ev('endhook', hid)
            return h
        fs = [make(*h) for h in hooks]
        self.ev('reg', name, [h[0] for h in hooks],
                sys.modules.get(name) is not None)
        if how == 'adapter':
            for f in fs:
                adapters.register_adapter(name, f)
        elif how == 'finder':
            imports.finder.when_imported(name, *fs)
        else:
            imports.when_imported(name, *fs)
        self.ev('endreg')

    def source(self, m):
        out = ['import qworld', 'qworld.run.ev("exec", __name__)',
               'value = %d' % m[3]]
        for s in m[2]:
            k = s[0]
            if k == 'hook':
                out.append('qworld.run.hook(%r)' % (s,))
                continue
            if k == 'fail':
                out.append('qworld.run.fail(__name__, %d)' % s[1])
                continue
            if k == 'replace':
                out.append('import sys')
                out.append('class C(object):')
                out.append('    __name__ = __name__')
                out.append('    value = value')
                out.append('sys.modules[__name__] = C()')
                # what the globals say is lost with the module
                out.append('import qworld')
                continue
            x = {'imp': 'import %s as x', 'try': 'import %s as x',
                 'plain': 'import %s', 'tryplain': 'import %s'}.get(k)
            x = x % s[1] if x else 'from %s import %s as x' % (s[1], s[2])
            if k.startswith('try'):
                out += ['try:', '    ' + x, 'except (ImportError, ValueError, '
                        'AttributeError):',
                        '    qworld.run.ev("caught", %r)' % (s[1],)]
            else:
                out.append(x)
            if k in ('imp', 'from'):
                out.append('qworld.run.ev("got", %r, getattr(x, "__name__", '
                           'None))' % (s[1],))
        out.append('qworld.run.ev("done", %r)' % (str(m[0]),))
        return '\n'.join(out) + '\n'

    def go(self):
        world.run = self
        for o in self.req['ops']:
            self.action(o)
        self.ev('end')
        return self.trace


def op_imports(req):
    base = tempfile.mkdtemp(prefix='pyamf-imports-')
    state = imports.finder.__getstate__()
    saved = list(sys.path)
    tops = set(m[0].split('.')[0] for m in req['modules'])
    out = []
    std = dict((n, sys.modules.get(n)) for n in STDLIB)

    def clean():
        for n in sys.modules.keys():
            if n.split('.')[0] in tops or n in STDLIB:
                del sys.modules[n]
        imports.finder.__setstate__((dict(
            (k, list(v)) for k, v in state[0].items()), list(state[1])))
    try:
        r = Run(req, 0)
        for m in req['modules']:
            p = os.path.join(base, *m[0].split('.'))
            if m[1]:
                if not os.path.isdir(p):
                    os.makedirs(p)
                p = os.path.join(p, '__init__')
            elif not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            f = open(p + '.py', 'w')
            f.write(r.source(m))
            f.close()
        sys.path.insert(0, base)
        for hooked in (0, 1):
            clean()
            t = Run(req, hooked).go()
            left = {}
            for n, h in imports.finder.post_load_hooks.items():
                if n not in state[0] and n not in STDLIB and h:
                    left[n] = len(h)
            out.append([t, left])
        return out
    finally:
        sys.path[:] = saved
        clean()
        for n, m in std.items():
            if m is not None:
                sys.modules[n] = m
        for n in sys.path_importer_cache.keys():
            if n.startswith(base):
                del sys.path_importer_cache[n]
        shutil.rmtree(base)


OPS = {'imports': op_imports}
