"""usage: mutate.py N SEED OUT [file ...]

Random small changes to the original lines of the sources; those the
repository's tests do not notice are given to the checks. A way to find out
what the checks miss; what is printed as MISSED is looked at by hand."""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import TEST, base, sh  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
CASES = os.environ.get('MUT_CASES', '800')
CHECKS = {
    'amf0.py': 'C03 C05 C01 C08 C09 C07 C12 C17 C14 C11',
    'amf3.py': 'C04 C06 C02 C08 C10 C19 C09 C07 C32 C12 C11',
    'alias.py': 'C14 C15 C13 C16 C11 C17',
    'codec.py': 'C11 C09 C07 C01 C02 C17 C04 C13 C12',
    '__init__.py': 'C16 C13 C17 C33 C01 C09 C11',
    'util/pure.py': 'C18 C19 C09',
    'util/__init__.py': 'C12 C14 C15 C13 C17 C31',
    'util/imports.py': 'C31',
    'xml.py': 'C20 C01',
    'sol.py': 'C21',
    'flex/__init__.py': 'C29 C32 C02',
    'flex/messaging.py': 'C30 C27',
    'remoting/__init__.py': 'C22 C23 C33 C24 C28',
    'remoting/amf0.py': 'C24 C25 C33 C27',
    'remoting/amf3.py': 'C27 C25 C24',
    'remoting/client/__init__.py': 'C28 C34 C33',
    'remoting/gateway/__init__.py': 'C24 C25 C34 C26',
    'remoting/gateway/wsgi.py': 'C26 C24 C34',
    'remoting/gateway/django.py': 'C26 C24 C25',
    'remoting/gateway/google.py': 'C26 C24 C25',
    'adapters/_collections.py': 'C17',
    'adapters/_sets.py': 'C17',
    'adapters/_decimal.py': 'C17',
    'adapters/_weakref.py': 'C17',
    'adapters/_array.py': 'C17',
    'adapters/_sqlalchemy_orm.py': '',
    'adapters/__init__.py': 'C31 C17',
    'adapters/util.py': 'C17',
    'python.py': 'C12 C04 C17',
}
OPS = {'==': ['!='], '!=': ['=='], '<': ['<=', '>='], '>': ['>=', '<='],
       '<=': ['<'], '>=': ['>'], '+': ['-'], '-': ['+'], '&': ['|'],
       '|': ['&'], '<<': ['>>'], '>>': ['<<'], '+=': ['-=', '='],
       '-=': ['+='], 'and': ['or'], 'or': ['and'], 'not': [''],
       'True': ['False'], 'False': ['True'], 'is': ['is not'],
       'in': ['not in'], 'break': ['continue'], 'continue': ['break'],
       'None': ["''"]}


def original(path):
    """Line numbers which are those of the first commit, and code."""
    out = sh('git -C %s blame -s --root pyamf/%s' % (REPO, path)).stdout
    first = sh('git -C %s rev-list --max-parents=0 HEAD' %
               REPO).stdout.strip()
    ok = set()
    for i, l in enumerate(out.splitlines(), 1):
        if first.startswith(l.split(' ')[0].lstrip('^')[:7]):
            ok.add(i)
    return ok


def candidates(path):
    src = open('%s/pyamf/%s' % (REPO, path)).read()
    lines = src.split('\n')
    ok = original(path)
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    doc = set()
    for t in toks:
        if t.type == tokenize.STRING and t.string.lstrip('urb').startswith(
                '"""'):
            doc.update(range(t.start[0], t.end[0] + 1))
    for i, t in enumerate(toks):
        n = t.start[0]
        if n not in ok or n in doc:
            continue
        l = lines[n - 1]
        if re.match(r'\s*(import|from|raise|#|class|@|logger|self\.logger)\b',
                    l) or 'logger' in l or '__version' in l:
            continue
        new = []
        if t.type in (tokenize.OP, tokenize.NAME) and t.string in OPS:
            if t.string == 'in' and re.match(r'\s*for\b', l):
                continue
            if t.string == 'not' and toks[i + 1].string == 'in':
                continue
            if t.string == 'is' and toks[i + 1].string == 'not':
                continue
            new = OPS[t.string]
        elif t.type == tokenize.NUMBER:
            try:
                v = int(t.string, 0)
                new = [str(v + 1), str(v - 1)] if v else ['1']
            except ValueError:
                new = []
        for x in new:
            out.append((n, l, l[:t.start[1]] + x + l[t.end[1]:]))
    # statements left out
    for n in sorted(ok):
        if n in doc:
            continue
        l = lines[n - 1]
        s = l.strip()
        if not s or 'logger' in l or s[0] in '#@"\'':
            continue
        if re.match(r'(self\.[\w.]+|[\w.]+)(\[.*\])?\s*([-+|&]?=|\().*[\w\])]$',
                    s) and s.count('(') == s.count(')') and \
                l.startswith('        ') and s.count('[') == s.count(']'):
            ind = l[:len(l) - len(l.lstrip())]
            out.append((n, l, ind + 'pass'))
        m = re.match(r'return (.+)', s)
        if m and s.count('(') == s.count(')') and s != 'return None' and \
                s.count('[') == s.count(']') and s[-1] not in '\\{':
            ind = l[:len(l) - len(l.lstrip())]
            out.append((n, l, ind + 'return None'))
        m = re.match(r'(if|elif|while) (.+):$', s)
        if m:
            ind = l[:len(l) - len(l.lstrip())]
            if m.group(1) != 'while':
                out.append((n, l, '%s%s False:' % (ind, m.group(1))))
            out.append((n, l, '%s%s not (%s):' % (ind, m.group(1),
                                                  m.group(2))))
    return out


def one(k, path, m):
    c = '/tmp/mu/m%d' % k
    n, old, new = m
    shutil.rmtree(c, ignore_errors=True)
    sh('git clone -q %s %s' % (REPO, c))
    try:
        p = '%s/pyamf/%s' % (c, path)
        lines = open(p).read().split('\n')
        assert lines[n - 1] == old
        lines[n - 1] = new
        open(p, 'w').write('\n'.join(lines))
        sh(TEST % {'d': c})
        try:
            missing = base - set(json.load(open(c + '/.o.json'))['passed'])
        except (IOError, ValueError):
            missing = [1]
        if missing:
            return 'tests', path, m, len(missing)
        for p in CHECKS[path].split():
            r = sh('VERIF_REPO=%s VERIF_SEED=%d VERIF_CASES=%s '
                   'VERIF_TIER=quick timeout 800 ./run.py %s' % (
                       c, k + 1, CASES, p), cwd='/verif')
            if 'VIOLATION property' in r.stdout:
                return 'caught', path, m, p
            if r.returncode:
                return 'broken', path, m, p + ' ' + (
                    r.stdout + r.stderr)[-300:]
        return 'MISSED', path, m, ''
    finally:
        shutil.rmtree(c, ignore_errors=True)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or sorted(CHECKS)
    rnd = random.Random(seed)
    todo = []
    for f in files:
        cs = candidates(f)
        rnd.shuffle(cs)
        todo += [(f, c) for c in (cs[:n] if len(files) < 3 else
                                  cs[:max(2, len(cs) * n // 2000)])]
    rnd.shuffle(todo)
    todo = todo[:n]
    print(len(todo))
    os.makedirs('/tmp/mu', exist_ok=True)
    with open(out, 'a') as f, ThreadPoolExecutor(
            int(os.environ.get('JOBS', 4))) as ex:
        fs = [ex.submit(one, seed * 10000 + i, p, m)
              for i, (p, m) in enumerate(todo)]
        for x in as_completed(fs):
            try:
                kind, p, m, more = x.result()
            except Exception as e:
                f.write('ERROR %r\n' % (e,))
                continue
            f.write('%s %s:%d | %s | %s | %s\n' % (
                kind, p, m[0], m[1].strip(), m[2].strip(), more))
            f.flush()


if __name__ == '__main__':
    main()
