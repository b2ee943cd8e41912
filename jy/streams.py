# Python 2 (Jython): several values on one stream, incremental feeding.
import pyamf
from pyamf import util
import vals
from vals import err, msg, ERRORS


def kwargs(req):
    kw = {}
    if req.get('tz') is not None:
        kw['timezone_offset'] = vals.td(req['tz'])
    if req.get('amf3') and req['v'] == 0:
        kw['use_amf3'] = True
    return kw


def op_stream(req):
    ver = req['v']
    xs = vals.build_all(req['vals'])
    kw = kwargs(req)
    out = {}
    mode = req['enc']
    pieces = []
    try:
        if mode == 'call':              # all in one call
            stream = pyamf.encode(*xs, **dict(kw, encoding=ver))
            data = stream.getvalue()
            if stream.tell() != 0:
                out['badpos'] = stream.tell()
        elif mode == 'send':            # queued, then fetched one by one
            enc = pyamf.get_encoder(ver, **kw)
            for x in xs:
                enc.send(x)
            for p in enc:
                pieces.append(p)
            data = ''.join(pieces)
            out['stream_ok'] = enc.stream.getvalue() == data
        elif mode == 'each':            # queued and fetched in turn
            enc = pyamf.get_encoder(ver, **kw)
            for x in xs:
                enc.send(x)
                pieces.append(enc.next())
            data = ''.join(pieces)
            out['stream_ok'] = enc.stream.getvalue() == data
        else:                           # written to one encoder
            enc = pyamf.get_encoder(ver, **kw)
            for x in xs:
                enc.writeElement(x)
                pieces.append(None)
            data = enc.stream.getvalue()
    except ERRORS, e:
        return {'enc_error': err(e), 'msg': msg(e)}
    out['hex'] = data.encode('hex')
    if pieces and pieces[0] is not None:
        out['pieces'] = [len(p) for p in pieces]
    return out


def op_feed(req):
    """Feed bytes in chunks; after each chunk, read as long as possible."""
    ver = req['v']
    data = req['hex'].decode('hex')
    kw = kwargs(req)
    kw.pop('use_amf3', None)
    how = req['how']
    cuts = req['cuts']
    res = []
    counts = []
    poss = []
    ends = set()
    out = {'ends': ends}

    if how == 'decode':         # pyamf.decode over all bytes
        g = pyamf.decode(data, **dict(kw, encoding=ver))
        for x in g:
            res.append(x)
        return {'counts': [len(res)], 'poss': [g.stream.tell()], 'ends': [],
                'vals': vals.dump_all(res)}

    dec = pyamf.get_decoder(ver, **kw)
    last = 0
    for c in cuts + [len(data)]:
        chunk = data[last:c]
        last = c
        dec.send(chunk)
        while True:
            try:
                if how == 'next':
                    res.append(dec.next())
                else:
                    res.append(dec.readElement())
            except (StopIteration, pyamf.EOStream, IOError), e:
                ends.add(e.__class__.__name__)
                break
        counts.append(len(res))
        poss.append(dec.stream.tell())
    return {'counts': counts, 'poss': poss, 'vals': vals.dump_all(res),
            'ends': sorted(ends)}


OPS = {'stream': op_stream, 'feed': op_feed}
