# Python 2 (Jython): executes operations on the real PyAMF code.
# One JSON request per line on stdin, one JSON answer per line on stdout.
import sys
import os
import json

class _Out(object):
    def __init__(self, f):
        self.f = f

    def write(self, s):
        self.f.write(s)
        self.f.flush()


_out = _Out(sys.stdout)
sys.stdout = sys.stderr


class _VersionFinder(object):
    """pyamf/_version.py is generated by the build and ignored by git; provide
    it when absent, without writing into the repository."""

    def find_module(self, name, path=None):
        if name == 'pyamf._version':
            import imp
            try:
                f = imp.find_module('_version', path)
                if f[0]:
                    f[0].close()
                return None
            except ImportError:
                return self

    def load_module(self, name):
        import imp
        from pyamf.versions import Version
        m = imp.new_module(name)
        m.version = Version(0, 8, 0)
        m.__loader__ = self
        sys.modules[name] = m
        return m


sys.meta_path.append(_VersionFinder())

import traceback

import pyamf  # noqa


def main():
    ops = {}
    for name in sys.argv[1:]:
        mod = __import__(name)
        ops.update(mod.OPS)
    _out.write('{"ready": true}\n')

    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        op = req.pop('op')
        try:
            res = {'ok': ops[op](req)}
        except Exception:
            res = {'fail': traceback.format_exc()[-3000:]}
        except BaseException:
            res = {'fail': traceback.format_exc()[-3000:]}
        except:  # Java throwables (StackOverflowError, OutOfMemoryError)
            res = {'fail': repr(sys.exc_info()[:2])[:3000]}
        try:
            data = json.dumps(res)
        except Exception:
            data = json.dumps({'fail': 'unserialisable answer: ' +
                               repr(res)[:2000]})
        _out.write(data + '\n')


main()
os._exit(0)
