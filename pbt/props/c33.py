from hypothesis import strategies as st

from pbt.core import Prop
from pbt import e2e, gate, gen
from pbt.props.c24 import http, value

RAISED = ['ValueError', 'KeyError', 'TypeError', 'AttributeError', 'IOError',
          'IndexError', 'CustomError', 'CodedError', 'SubValueError',
          'OldError', 'NameError', 'UnknownServiceError', 'RemotingError',
          'LookupError', 'RuntimeError', 'OverflowError',
          'NotImplementedError', 'Base1', 'Sub1', 'TextCode', 'SubTextCode',
          'BytesCode', 'IntCode', 'NoneCode', 'EmptyCode', 'ListCode',
          'Clash', 'NoText', 'Uni']
COMMON = ['ValueError', 'KeyError', 'TypeError', 'Base1', 'Sub1', 'CodedError',
          'TextCode', 'SubTextCode', 'BytesCode', 'EmptyCode', 'Clash',
          'LookupError']
CODE = ['ValueError', 'KeyError', 'TypeError', 'LookupError', 'Base1', 'Sub1',
        'My.Code', 'caf\xe9', '', 'Server.Call.Failed',
        'Service.ResourceNotFound', 'Service.MethodNotFound',
        'Service.MethodInvalid', 'AuthenticationError', 'RemotingError',
        'TextCode', 'CodedError', 'Clash', '5', 'None']


@st.composite
def error(draw, c=None):
    c = c or draw(st.one_of(st.sampled_from(COMMON), st.sampled_from(RAISED)))
    t = draw(gen.short_text)
    k = draw(st.integers(0, 9))
    if c == 'Uni' or k < 5:
        return [c, t]
    if k == 5:
        return [c]
    if k == 6 and c != 'IOError':
        return [c, 'two', 'args']
    return [c, [t]]


@st.composite
def history(draw):
    ver = draw(st.sampled_from([0, 3]))
    gw = {'http': draw(http), 'strict': 0,
          'debug': draw(st.sampled_from([0, 0, 1])), 'expose_request': 0,
          'tz': None, 'log': draw(st.integers(0, 1))}
    services = [{'kind': draw(st.sampled_from(
        ['inst', 'mod', 'cls', 'oldinst', 'dyn', 'badcls', 'func']
        if i else ['inst', 'mod', 'cls', 'oldinst'])),
        'prop': 1, 'base': 0} for i in range(draw(st.integers(1, 2)))]
    names = ['a', 'b'][:len(services)]
    if draw(st.integers(0, 5)) == 0:
        services[0]['auth'] = {'id': 1, 'ok': ['u', 'p'], 'good': 'yes',
                               'bad': 'no', 'exp': 0}
    p = e2e.Plan()
    for i, n in enumerate(names):
        p.ops.append(['add', i, n])
    for n in names + ['gone']:
        p.svc(n, draw(st.integers(0, 1)), 0)
    codes = set()
    classes = set()

    def request():
        i = draw(st.integers(0, 5))
        i = 0 if i < 4 else min(i - 3, len(names))
        k = draw(st.integers(0, 9))
        if k < 7:
            return i, 'fail', [gate.spec_wire(draw(error()))]
        m = draw(st.sampled_from(['echo', 'nothing', '_private', 'value',
                                  'swap', 'aprop', 'none']))
        return i, m, [draw(value(ver, 1, False))
                      for _ in range(draw(st.integers(0, 2)))]

    for _ in range(draw(st.integers(3, 10))):
        k = draw(st.integers(0, 23))
        if k > 19:
            # raise what the code just registered is for
            c = draw(st.sampled_from(RAISED + ['SubCoded']))
            code = gate.CODES.get(c, c)
            if isinstance(code, str):
                p.ops.append(['err+', draw(st.sampled_from(e2e.GOOD)), code,
                              draw(st.integers(0, 1))])
            p.call(0, 'fail', [gate.spec_wire(draw(error(c)))])
        elif k < 6:
            i, m, args = request()
            p.call(i, m, args)
        elif k < 9:
            i, m, args = request()
            p.req('%s.%s' % ((names + ['gone'])[i], m), args)
        elif k < 11:
            if p.pending:
                p.exec()
        elif k < 13:
            if p.kept:
                p.ops.append(['again', draw(st.sampled_from(p.kept))])
        elif k < 17:
            c = draw(st.one_of(st.sampled_from(CODE), st.sampled_from(CODE),
                               gen.short_text))
            cls = draw(st.sampled_from(e2e.GOOD * 3 + e2e.BAD))
            p.ops.append(['err+', cls, c, draw(st.integers(0, 1))])
        elif k < 18:
            c = draw(st.sampled_from(CODE + list(e2e.BUILTIN)))
            p.ops.append(['err-', draw(st.sampled_from(['code', 'bytes'])),
                          c])
        elif k < 19:
            cls = draw(st.sampled_from(e2e.GOOD + ('NotError', 'OldNotError',
                                                   'none')))
            p.ops.append(['err-', 'class', cls])
        else:
            p.ops.append(['errs'])
    if p.pending:
        p.exec()
    if p.kept:
        p.ops.append(['again', draw(st.sampled_from(p.kept))])
    p.ops.append(['errs'])
    # which of the codes of a class goes with it is not said
    at = {c: c for c in e2e.BUILTIN}
    at['Server.Call.Failed'] = 'RemotingCallFailed'
    ops = []
    for o in p.ops:
        if o[0] == 'err+' and o[1] in e2e.GOOD:
            at.setdefault(o[2], o[1])
        elif o[0] == 'err-':
            if o[1] != 'class':
                at.pop(o[2], None)
            else:
                cs = [c for c, y in at.items() if y == o[2]]
                if len(cs) > 1:
                    continue
                for c in cs:
                    del at[c]
        ops.append(o)
    return gate.finish({'ver': ver, 'gw': gw, 'services': services,
                        'ops': ops})


class Errors(Prop):
    modules = ('vals', 'gate', 'e2e')
    quick = 1500
    thorough = 100000
    rule = ('Case: 3-10 operations on a client and a gateway joined in one '
            'process (WSGI, Django or App Engine adapter, either format): '
            'calls, batches, faults kept and raised again later, error codes '
            'registered and removed. Services raise 29 kinds of exception '
            '(codes of their own, inherited, of any type; messages in text, '
            'bytes, none, unprintable). What is raised at the caller is '
            'compared with a model of the registry. Non-trivial: a fault '
            'arrived whose code was registered.')
    assumptions = ['registered classes can be built from a message alone',
                   'a class registered under several codes is removed by '
                   'code only']

    def strategy(self, tier):
        return history()

    def check(self, w, case):
        r = e2e.run(w, case)
        return 'class' in r.labels, sorted(r.labels)


PROP = Errors()
PROP.id = 'C33'
