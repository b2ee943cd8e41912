# Python 2 (Jython): histories of shared objects saved and loaded.
import os
import shutil
import tempfile
from StringIO import StringIO

import pyamf
from pyamf import sol, util

import vals


def errname(e):
    if isinstance(e, IOError) and not isinstance(e, pyamf.BaseError):
        return 'IOError'
    return vals.err(e)


def dump_items(d):
    dm = vals.Dumper()
    return [[vals.txt(k), dm.dump(d[k])]
            for k in sorted(d, key=lambda k: vals.u8(k))]


def put(s, path, mode, enc):
    """Saves; the bytes written."""
    if mode == 'path':
        sol.save(s, path, encoding=enc)
    elif mode == 'upath':
        s.save(unicode(path), enc)
    elif mode == 'file':
        f = open(path, 'wb')
        try:
            s.save(f, encoding=enc)
        finally:
            f.close()
    elif mode == 'stringio':
        f = StringIO()
        sol.save(s, f, enc)
        write(path, f.getvalue())
    elif mode == 'encode':
        b = sol.encode(s.name, s, encoding=enc)
        assert b.tell() == 0, b.tell()
        write(path, b.read())
    elif mode == 'loose':
        b = sol.encode(s.name, dict(s), strict=False, encoding=enc)
        write(path, b.getvalue())
    else:
        raise AssertionError(mode)
    return open(path, 'rb').read()


def write(path, data):
    f = open(path, 'wb')
    f.write(data)
    f.close()


def get(path, mode):
    """(name, items)"""
    data = open(path, 'rb').read()
    if mode == 'path':
        s = sol.load(path)
        return s.name, s
    if mode == 'file':
        f = open(path, 'rb')
        try:
            s = sol.load(f)
        finally:
            f.close()
        return s.name, s
    if mode == 'stringio':
        s = sol.load(StringIO(data))
        return s.name, s
    if mode == 'stream':
        s = sol.load(util.BufferedByteStream(data))
        return s.name, s
    if mode == 'decode':
        return sol.decode(data)
    if mode == 'decode-stream':
        return sol.decode(util.BufferedByteStream(data))
    if mode == 'loose':
        return sol.decode(data, strict=False)
    raise AssertionError(mode)


def op_sols(req):
    d = tempfile.mkdtemp()
    try:
        return run(req, d)
    finally:
        shutil.rmtree(d)


def run(req, d):
    sols, builders, slots, out = {}, {}, {}, []
    for o in req['ops']:
        k = o[0]
        try:
            if k == 'new':
                sols[o[1]] = sol.SOL(o[2])
                builders[o[1]] = vals.Builder()
                r = None
            elif k == 'set':
                sols[o[1]][o[2]] = builders[o[1]].build(o[3])
                r = None
            elif k == 'del':
                del sols[o[1]][o[2]]
                r = None
            elif k == 'save':
                p = os.path.join(d, 'f%d' % o[2])
                r = put(sols[o[1]], p, o[4], o[3]).encode('hex')
            elif k == 'write':
                write(os.path.join(d, 'f%d' % o[1]), o[2].decode('hex'))
                r = None
            elif k == 'load':
                name, items = get(os.path.join(d, 'f%d' % o[1]), o[2])
                r = [vals.txt(name), dump_items(items)]
            elif k == 'adopt':
                # go on with what was loaded
                s = sol.load(os.path.join(d, 'f%d' % o[2]))
                assert type(s) is sol.SOL
                sols[o[1]] = s
                builders[o[1]] = vals.Builder()
                r = None
            else:
                raise AssertionError(k)
        except vals.ERRORS, e:
            if isinstance(e, AssertionError):
                raise
            out.append({'error': errname(e), 'msg': vals.msg(e)})
            continue
        out.append({'ok': r})
    return out


OPS = {'sols': op_sols}
