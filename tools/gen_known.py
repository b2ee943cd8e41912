#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from /repo's fix commits."""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
# properties of the fixes, in the order of the commits
PROPS = '''C31 C13 C13 C05 C05 C08 C01 C02 C02 C12 C02 C05 C08 C06 C10 C09 C15
C15 C14 C14 C11 C13 C16 C01 C08 C09 C01 C02 C12 C14 C15 C32 C16 C16 C17 C17 C17
C18 C18 C18 C18 C19 C20 C22 C22 C22 C23 C22 C22 C22 C23 C26 C24 C24 C25 C24 C24
C24 C26 C27 C23 C26 C28 C28 C28 C22 C28 C30 C30 C30 C30 C30 C30 C30 C31 C31
C32 C33 C33'''.split()


def main():
    log = subprocess.run(['git', '-C', R, 'log', '--reverse',
                          '--format=%h %s'], capture_output=True, text=True,
                         check=True).stdout.splitlines()
    fixes = [l.split(' ', 1) for l in log if ' fix: ' in l]
    extra = {}
    p = os.path.join(V, 'tools', 'fix_props.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                k, s = l.rstrip('\n').split(' ', 1)
                extra[s] = k
    path = os.path.join(V, 'known_findings.txt')
    out = [l for l in open(path) if not l.startswith('fixed:')]
    while out and not out[-1].strip():
        out.pop()
    out.append('\n')
    for i, (h, s) in enumerate(fixes):
        s = s[len('fix: '):]
        k = extra.get(s) or PROPS[i]
        out.append('fixed: property=%s %s %s\n' % (k, h, s))
    open(path, 'w').writelines(out)
    print(len(fixes))


if __name__ == '__main__':
    main()
