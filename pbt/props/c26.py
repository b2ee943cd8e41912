from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gate, gen, model, remref
from pbt.props.c08 import BYTES, mutate, mutation
from pbt.props.c24 import batch, errors, http, zone

KINDS = ['func', 'fixed', 'cls', 'inst', 'mod', 'callinst', 'badcls', 'dyn']
SECRET = 'zq-secret-zq'


@st.composite
def bodies(draw, names):
    """A batch, some of whose results cannot be sent."""
    ver = draw(st.sampled_from([0, 3]))
    c = draw(batch(ver, names))
    if draw(st.integers(0, 5)) == 0:
        c['b'].append(['call', '/9', names[0] + '.odd', [], 0])
    return c


@st.composite
def history(draw):
    gw = {'http': draw(http), 'strict': draw(st.sampled_from([0, 0, 1])),
          'debug': draw(st.integers(0, 1)), 'expose_request': 0,
          'tz': draw(zone),
          'tzs': draw(st.integers(0, 1)), 'log': draw(st.integers(0, 1))}
    if draw(st.integers(0, 11)) == 0:
        gw['boom'] = [draw(st.sampled_from(
            ['ValueError', 'KeyError', 'CodedError', 'SubCoded', 'EncodeError',
             'OldError', 'CustomError'])), SECRET]
    services = [{'kind': draw(st.sampled_from(KINDS)), 'prop': 0, 'base': 0}
                for _ in range(draw(st.integers(1, 2)))]
    names = ['a', 'a.b'][:len(services)]
    ops = [['add', i, n] for i, n in enumerate(names)]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 11))
        c = draw(bodies(names))
        if k < 3:
            ops.append(['batch', c, draw(st.sampled_from(['', '00']))])
        elif k < 9:
            ms = draw(st.lists(mutation, min_size=1, max_size=2))
            ops.append(['bad', c, ms])
        elif k == 9:
            pre = draw(st.sampled_from([[], [0, 3, 0, 0, 0, 1],
                                        [0, 0, 0, 1, 0, 0], [0, 0]]))
            ops.append(['raw', pre + draw(st.lists(BYTES, max_size=20))])
        elif gw['http'] == 'google':
            ops.append(['method', 'GET', c])
        else:
            ops.append(['method', draw(st.sampled_from(
                ['GET', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'post',
                 'POSTX', 'PATCH'])), c])
    return gate.finish({'gw': gw, 'services': services, 'ops': ops})


class Http(Prop):
    modules = ('vals', 'gate')
    quick = 3000
    thorough = 120000
    rule = ('Case: a WSGI, Django or App Engine gateway (strict or not, '
            'debugging or not) gets 1-4 http requests: whole batches, '
            'batches with 1-2 mutations (cut, changed, inserted or removed '
            'bytes), raw bytes, other methods; some results cannot be sent, '
            'some gateways fail inside. An independent reader says which '
            'bodies are well-formed. Non-trivial: a body is malformed or '
            'mutated, a method is wrong or an answer fails.')
    assumptions = ['a malformed body whose fault lies in the XML, dates, '
                   'classes or trait flags inside it may get 400 or 500',
                   'CONTENT_LENGTH is present and right (a test of the '
                   'repository pins an error when it is missing)',
                   'App Engine is represented by a stub of '
                   'webapp.RequestHandler']

    def strategy(self, tier):
        return history()

    def fixed(self, tier):
        out = []
        c = {'ver': 0, 'h': [['h', ['s', 'v']]], 'b': [
            ['call', '/1', 'a.echo', [['l', [['s', 'x']]]], 0],
            ['call', '/2', 'a.fail', [['l', [['s', 'ValueError'],
                                             ['s', 'y']]]], 0]]}
        for h in ('wsgi', 'django', 'google'):
            for debug in (0, 1):
                g = {'http': h, 'strict': 0, 'debug': debug,
                     'expose_request': 0, 'tz': None, 'log': 1}
                ops = [['add', 0, 'a']] + [
                    ['bad', c, [['cut', n]]] for n in range(100)]
                ops.append(['batch', c, ''])
                out.append(gate.finish({'gw': g, 'ops': ops, 'services': [
                    {'kind': 'inst', 'prop': 0, 'base': 0}]}))
        return out

    def check(self, w, case):
        g = case['gw']
        world = gate.World(case)
        ops = []
        plan = []
        for o in case['ops']:
            if o[0] == 'add':
                ops.append(o)
                plan.append(None)
                world.add(o[1], o[2])
                continue
            if o[0] == 'raw':
                data = bytes(o[1])
                b = None
            elif o[0] == 'method':
                b = gate.Batch(o[2], world.tz)
                data = b.data
            else:
                b = gate.Batch(o[1], world.tz)
                data = b.data
                if o[0] == 'bad':
                    data = mutate(data, o[2])
            ops.append(['http', o[1] if o[0] == 'method' else 'POST',
                        data.hex(), o[2] if o[0] == 'batch' else ''])
            plan.append((b, data))
        got = w.call('gateway', gw=g, services=case['services'], ops=ops,
                     _timeout=60)
        labels = {g['http'], 'debug' if g['debug'] else 'quiet'}
        odd = False
        for o, p, r in zip(case['ops'], plan, got):
            if p is None:
                require(r == 'ok', 'adding', r)
                continue
            b, data = p
            body = bytes.fromhex(r['body'])
            status = r['status'].split(' ')[0]
            labels.add(status)
            self.leaks(g, r, body, status, o[0] == 'batch')
            if o[0] == 'method':
                want = {'wsgi': 400, 'django': 405, 'google': 405}[g['http']]
                gate.check_http(g, r, want, False)
                require(r['log'] == [], 'something was called', r['log'])
                odd = True
            elif b is not None and data == b.data:
                if g.get('boom'):
                    gate.check_http(g, r, 500, False)
                    odd = True
                else:
                    x = gate.check_batch(world, b, r)
                    odd = odd or None in x
            else:
                self.broken(world, g, data, r, body, status, labels)
                odd = True
            self.sync(world, r['log'])
        return odd, sorted(labels)

    def sync(self, world, log):
        for e in log:
            if e[0] == 'call' and case_kind(world, e[1]) not in gate.CLASSES:
                world.state.setdefault(e[1], {})['n'] = e[3]

    def leaks(self, g, r, body, status, sound):
        if not g['debug']:
            for x in (b'Traceback', b'File "', SECRET.encode()):
                require(x not in body, 'internal details in the answer',
                        repr(x), body[:600])
        elif status == '500' and g.get('boom'):
            # which a body that was damaged may have brought about itself
            require(b'Traceback' in body and
                    (SECRET.encode() in body or not sound),
                    'no traceback when debugging', body[:600])

    def broken(self, world, g, data, r, body, status, labels):
        strict = bool(g.get('strict'))
        seen = set()
        what = data.hex()[:600]
        p = None
        try:
            p = remref.parse(data, strict, seen)
            kind = 'ok'
            if any(b.kind != 'req' for b in p.bodies):
                kind = 'answers'
        except amfref.Bad as e:
            kind = e.kind
        except RecursionError:
            return
        labels.add(kind)
        own = bool(seen) or b'<' in data
        if kind in ('ok', 'answers', 'other', 'text') or own:
            require(status in ('200', '400', '500'), 'status', r['status'],
                    what)
            if kind == 'ok' and not own and not g.get('boom'):
                require(status != '400' or self.novalue(p, world.tz),
                        'a well-formed body is a bad request', what)
            if kind not in ('ok', 'answers', 'other'):
                require(status != '200', 'a malformed body was answered',
                        kind, what)
        else:
            require(status == '400', 'status for a malformed body (%s)' %
                    kind, r['status'], what)
        if status == '400':
            require(r['log'] == [], 'called for a bad request', r['log'])
        gate.check_http(g, r, status, status == '200')
        if status == '200':
            try:
                a = remref.parse(body, strict)
            except amfref.Bad as e:
                if e.kind == kind == 'other':
                    # names of attributes which are no text are given back
                    return
                raise Violation('the answer is not a well-formed envelope: '
                                '%s %s' % (e, body.hex()[:600]))
            if kind == 'ok':
                require([b.id for b in a.bodies] == [b.id for b in p.bodies],
                        'messages answered', [b.id for b in a.bodies], what)

    def novalue(self, p, tz):
        try:
            for b in p.bodies:
                for x in b.args if isinstance(b.args, list) else [b.args]:
                    model.Dec(0, tz).dec(x)
            for h in p.headers:
                model.Dec(0, tz).dec(h[2])
        except Exception:
            return True
        from pbt.props.c23 import PROP as C23
        return C23.may_refuse(p)


def case_kind(world, u):
    return world.services[u]['kind']


PROP = Http()
PROP.id = 'C26'
