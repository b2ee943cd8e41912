"""Model of the remoting client and a gateway, joined."""
from . import gate, model
from .core import require

BUILTIN = ('TypeError', 'LookupError', 'KeyError', 'IndexError', 'NameError',
           'ValueError')
# codes of exceptions the services raise, where it is not the class name
CODES = {'TextCode': 'caf\xe9', 'SubTextCode': 'caf\xe9',
         'BytesCode': 'caf\xe9', 'IntCode': 5, 'NoneCode': None,
         'EmptyCode': '', 'ListCode': ['x'], 'Clash': 'TypeError'}
gate.CODES.update(CODES)
TEXTS = {'NoText': lambda a: 'NoText', 'Uni': lambda a: '\u20ac' + a[0]}
GOOD = ('Local1', 'Local2', 'Chatty', 'Base1', 'Sub1', 'ValueError',
        'KeyError', 'RemotingError', 'RemotingCallFailed')
BAD = ('NotError', 'OldNotError', 'text', 'none')


class Run(object):
    def __init__(self, case):
        self.case = case
        self.world = gate.World(case)
        self.codes = {c: c for c in BUILTIN}
        self.codes['Server.Call.Failed'] = 'RemotingCallFailed'
        self.headers = {}
        self.svcs = []
        self.wraps = []         # [id, target, args]
        self.pending = []
        self.kept = {}          # wrapper index -> what run_one said
        self.n = 0
        self.labels = set()
        self.calls = 0

    # ---- errors

    def raised(self, what, got, f):
        require('result' not in got, what + ' should fail', f.code, got)
        self.labels.add('fault')
        if f.code is gate.ANY:
            return
        cls = 'RemotingError'
        if isinstance(f.code, str):
            cls = self.codes.get(f.code, cls)
        if cls != 'RemotingError':
            self.labels.add('class')
        require(got['cls'] == cls, what + ' raises', got, cls, f.code)
        args = got['args']
        require(isinstance(args, list) and len(args) == 1,
                what + ' arguments', got)
        text = f.text
        if f.cls in TEXTS:
            text = TEXTS[f.cls](['' if f.text is None else f.text])
        if text is None:
            require(args[0][0] == 'str', what + ' message', args)
        else:
            require(args == [['str', text]], what + ' message', args, text)

    def outcome(self, what, got, x):
        if x[1] == 'ok':
            require('result' in got, what + ' failed', got)
            d = model.diff([got['result']], x[2])
            require(not d, what, d, got['result'])
            self.labels.add('result')
        else:
            self.raised(what, got, x[2])

    # ---- requests

    def batch(self, wraps):
        b = gate.Batch({'ver': self.case['ver'],
                        'h': [[k, r] for k, r in self.headers.items()],
                        'b': [['call', i, t, a, 0] for i, t, a in wraps]}, 0)
        want = []
        ok = True
        for q in b.requests:
            try:
                want.append(gate.run_one(self.world, q))
            except gate.Unsendable:
                ok = False
        self.calls += len(wraps)
        return want if ok else None

    def called(self, what, got, want):
        events = []
        for x in want:
            events += x[0]
        d = model.diff(got['log'], events)
        require(not d, what + ' calls made', d, got['log'], events)

    def broken(self, what, got):
        """The gateway could not answer."""
        require('result' not in got and 'each' not in got and
                got.get('cls') == 'RemotingError',
                what + ' should be a remoting error', got)
        self.labels.add('broken')

    def add(self, target, args):
        self.n += 1
        w = ['/%d' % self.n, target, args]
        return w

    def step(self, o, got):
        k = o[0]
        what = repr(o)[:300]
        if k == 'add':
            want = self.world.add(o[1], o[2])
            require(got == want, what, got, want)
        elif k == 'del':
            want = self.world.remove(o[1], 'name')
            require(got == want, what, got, want)
        elif k == 'svc':
            self.svcs.append((o[1], o[2]))
        elif k == 'call':
            name, auto = self.svcs[o[1]]
            w = self.add(name if o[2] is None else name + '.' + o[2], o[3])
            if auto:
                want = self.batch([w])
                if want is None:
                    self.broken(what, got)
                else:
                    self.outcome(what, got, want[0])
                    self.called(what, got, want)
            else:
                self.pending.append(w)
                self.wraps.append(w)
        elif k == 'req':
            w = self.add(o[1], o[2])
            self.pending.append(w)
            self.wraps.append(w)
        elif k == 'rm':
            self.pending.remove(self.wraps[o[1]])
        elif k == 'exec':
            ws = self.pending
            self.pending = []
            want = self.batch(ws)
            if want is None:
                self.broken(what, got)
            else:
                require('each' in got, what + ' failed', got)
                require(got['n'] == len(ws), what + ' answers', got['n'])
                require([e[0] for e in got['each']] == [w[0] for w in ws],
                        what + ' who is answered', got['each'])
                for w, x, e in zip(ws, want, got['each']):
                    self.outcome('%s: %s %s' % (what, w[0], w[1]), e[1], x)
                    self.kept[[y is w for y in self.wraps].index(True)] = x
                self.called(what, got, want)
                if len(ws) > 1:
                    self.labels.add('batch')
        elif k == 'again':
            x = self.kept[o[1]]
            self.outcome(what, got, x)
            self.labels.add('again')
        elif k == 'cred':
            self.headers['Credentials'] = ['m', [
                ['userid', ['s', o[1]]], ['password', ['s', o[2]]]]]
        elif k == 'hdr':
            self.headers[o[1]] = o[2]
        elif k == 'delhdr':
            del self.headers[o[1]]
        elif k == 'err+':
            if o[1] in BAD:
                want = 'TypeError'
            elif o[2] in self.codes:
                want = 'ValueError'
            else:
                want = 'ok'
                self.codes[o[2]] = o[1]
            require(got == want, what, got, want)
        elif k == 'err-':
            if o[1] == 'class':
                cs = [c for c, y in self.codes.items() if y == o[2]]
                if o[2] == 'none':
                    want = 'TypeError'
                elif len(cs) == 0:
                    want = 'ValueError'
                else:
                    want = 'ok'
                    del self.codes[cs[0]]
            elif o[2] not in self.codes:
                want = 'ValueError'
            else:
                want = 'ok'
                del self.codes[o[2]]
            require(got == want, what, got, want)
        elif k == 'errs':
            want = sorted([c, y] for c, y in self.codes.items())
            require(sorted(got) == want, what, got, want)
        if isinstance(got, dict):
            require(got['pending'] == [w[0] for w in self.pending],
                    what + ' pending', got['pending'])
            if k != 'exec' and not (k == 'call' and self.svcs[o[1]][1]):
                require(got['log'] == [], what + ' calls made', got['log'])


def run(w, case):
    got = w.call('e2e', **case)
    r = Run(case)
    for o, g in zip(case['ops'], got):
        r.step(o, g)
    return r


class Plan(object):
    """Keeps generated operations sensible."""

    def __init__(self):
        self.ops = []
        self.svcs = []
        self.wraps = 0
        self.pending = []
        self.kept = []
        self.headers = set()

    def svc(self, name, auto, enc):
        self.ops.append(['svc', name, int(auto), int(enc)])
        self.svcs.append((name, auto))

    def call(self, i, meth, args):
        self.ops.append(['call', i, meth, args])
        if not self.svcs[i][1]:
            self.pending.append(self.wraps)
            self.wraps += 1

    def req(self, target, args):
        self.ops.append(['req', target, args])
        self.pending.append(self.wraps)
        self.wraps += 1

    def rm(self, i):
        self.ops.append(['rm', self.pending.pop(i % len(self.pending))])

    def exec(self, kept=True):
        self.ops.append(['exec'])
        if kept:
            self.kept += self.pending
        self.pending = []
