from hypothesis import strategies as st

from pbt.core import Prop
from pbt import gate, gen
from pbt.props.c24 import KINDS, call, errors, http, value, zone
from pbt.props.c25 import text
from pbt.props.c30 import uuids

METHS = ['echo', 'echo', 'swap', 'opt', 'none', 'count', 'fail', 'fail',
         'mutate', 'first', 'pair', 'value', 'sub', '_private', '__init__',
         'nothing', 'caf\xe9', '']
CLASSES = ['RemotingMessage'] * 8 + ['CommandMessage'] * 4 + [
    'AsyncMessage', 'AcknowledgeMessage', 'AbstractMessage', 'ErrorMessage']
mids = st.one_of(
    st.sampled_from(['0F3AC8E0-A9D8-4F7B-97E2-000000000000', 'm', '',
                     'caf\xe9']).map(text),
    gen.short_text.map(text), st.just(['n']),
    st.integers(-5, 2 ** 30).map(lambda n: ['i', str(n)]))
dsids = st.sampled_from([None, None, ['n'], text(''), text('nil'),
                         text('abc'), text('caf\xe9'), ['i', '7']])


@st.composite
def message(draw, ver, names):
    cls = draw(st.sampled_from(CLASSES))
    f = {'messageId': draw(mids)}
    if draw(st.integers(0, 2)):
        hs = draw(st.lists(st.tuples(st.sampled_from(
            ['DSEndpoint', 'x', 'DSRequestTimeout']),
            value(ver, 1, True, True)).map(list), max_size=2,
            unique_by=lambda kv: kv[0]))
        d = draw(dsids)
        if d is not None:
            hs.append(['DSId', d])
        f['headers'] = ['o', hs]
    for k in ('clientId', 'timestamp', 'timeToLive', 'source'):
        if k in gate.MSG[cls] and draw(st.integers(0, 4)) == 0:
            f[k] = draw(value(ver, 0, True, True))
    if 'correlationId' in gate.MSG[cls] and draw(st.integers(0, 2)) == 0:
        f['correlationId'] = draw(mids)
    if cls == 'RemotingMessage':
        m = draw(st.sampled_from(METHS))
        n = draw(st.sampled_from(names))
        k = draw(st.integers(0, 11))
        if k < 8:
            f['destination'], f['operation'] = text(n), text(m)
        elif k == 8:
            # the whole name as operation
            f['operation'] = text(n + '.' + m)
            if draw(st.integers(0, 1)):
                f['destination'] = text('')
        elif k == 9:
            f['operation'] = text(n)
            m = 'echo'
        elif k == 10:
            f['destination'] = text(n + '.b')
            f['operation'] = text(m)
        else:
            f['destination'] = text(n)
        if m == 'fail':
            args = [gate.spec_wire(draw(errors))]
        else:
            args = [draw(value(ver, 2, True, True)) for _ in range(
                2 if m == 'swap' and draw(st.integers(0, 3)) else
                draw(st.integers(0, 3)))]
        f['body'] = ['l', args]
        if m != 'fail' and draw(st.integers(0, 14)) == 0:
            f['body'] = draw(st.sampled_from([['n'], ['i', '3']]))
    elif cls == 'CommandMessage':
        op = draw(st.sampled_from([0, 1, 2, 4, 5, 5, 5, 7, 8, 9, 10, 12, 12,
                                   1000, -1, None, '5']))
        if op is not None:
            f['operation'] = text(op) if isinstance(op, str) else \
                ['i', str(op)]
        if draw(st.integers(0, 3)) == 0:
            f['body'] = draw(value(ver, 1, True, True))
    elif draw(st.integers(0, 1)):
        f['body'] = draw(value(ver, 2, True, True))
    if cls in ('CommandMessage', 'AsyncMessage', 'AcknowledgeMessage') and \
            draw(st.integers(0, 1)):
        # the compact form
        for k in ('messageId', 'correlationId', 'clientId'):
            if draw(st.integers(0, 1)):
                f[k] = ['U', draw(uuids)]
        for k in ('timestamp', 'timeToLive'):
            if k in f:
                f[k] = ['i', '1500000']
        return {'cls': cls, 'f': f, 'small': 1}
    return {'cls': cls, 'f': f}


@st.composite
def history(draw):
    gw = {'http': draw(http), 'strict': draw(st.sampled_from([0, 0, 0, 1])),
          'debug': draw(st.sampled_from([0, 0, 1])), 'expose_request': 0,
          'tz': draw(zone),
          'tzs': draw(st.integers(0, 1)), 'log': draw(st.integers(0, 1))}
    services = [{'kind': draw(st.sampled_from(KINDS)), 'prop': 0,
                 'base': draw(st.integers(0, 1))}
                for _ in range(draw(st.integers(1, 3)))]
    names = ['a', 'a.b', 'caf\xe9'][:len(services)]
    ops = [['add', i, n] for i, n in enumerate(names)]
    for _ in range(draw(st.integers(1, 3))):
        ver = draw(st.sampled_from([0, 3, 3]))
        c = {'ver': ver, 'h': [], 'b': []}
        for i in range(draw(st.integers(1, 5))):
            k = draw(st.integers(0, 14))
            rid = st.sampled_from(['/%d' % i, '/%d' % i, '/1', 'null', ''])
            if k == 0:
                c['b'].append(['rox', draw(rid), 'null', draw(st.lists(
                    value(ver, 2, True, True), max_size=2))])
            elif k in (1, 2):
                c['b'].append(draw(call(ver, names, rid)))
            else:
                c['b'].append(['ro', draw(rid), draw(st.sampled_from(
                    ['null', 'null', 'null', ''])),
                    draw(message(ver, names * 6 + ['zz']))])
        ops.append(['batch', c, ''])
    return gate.finish({'gw': gw, 'services': services, 'ops': ops})


class Flex(Prop):
    modules = ('vals', 'gate')
    quick = 2400
    thorough = 100000
    rule = ('Case: a gateway (WSGI, Django, App Engine; debugging on or off) '
            'with 1-3 services; 1-3 batches of 1-5 Flex messages of six '
            'classes in either AMF version, with any message ids, headers, '
            'session ids, operations and destinations, among plain calls '
            'and bodies which are no messages. Answers and the log of calls '
            'are compared with a model. Non-trivial: at least one '
            'RemotingMessage reached a service or a command was answered.')
    assumptions = ['results and exception attributes are values AMF3 can '
                   'carry']

    def strategy(self, tier):
        return history()

    def check(self, w, case):
        m = gate.run_history(w, case)
        return bool(m.labels & (set(KINDS) | {'CommandMessage'})), \
            sorted(m.labels) + [case['gw']['http']]


PROP = Flex()
PROP.id = 'C27'
