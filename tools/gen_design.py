#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the properties and the checks.

Run with /opt/veriftools/pyvenv/bin/python."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.gen_manifest import NA, TECH  # noqa


def sections(path):
    out = {}
    key = None
    for l in open(path):
        m = re.match(r'## (C\d\d)\s*$', l)
        if m:
            key = m.group(1)
            out[key] = ''
        elif key:
            out[key] += l
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    notes = sections(os.path.join(V, 'tools', 'design_notes.md'))
    out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
    for p in props:
        i = p['id']
        out.append('\n### %s %s\n\n' % (i, p['title']))
        if i in NA:
            out.append('Not applicable: %s\n' % NA[i])
            continue
        P = importlib.import_module('pbt.props.' + i.lower()).PROP
        out.append('*Method.* %s.\n\n' % (TECH[i][0].upper() + TECH[i][1:]))
        out.append('*Generated.* %s\n\n' % P.rule)
        out.append(notes[i].strip() + '\n\n')
        if getattr(P, 'assumptions', None):
            out.append('*Assumed.* %s.\n\n' % '; '.join(P.assumptions))
        out.append('*Bounds and cost.* quick %d cases, thorough %d cases.\n' %
                   (P.quick, P.thorough))
    out.append('\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read())
    out.append('\n## Planted changes\n\n'
               'Each lies in seeded/<id>/ with its patch, demonstration and '
               'what it needs to manifest. "Caught by" lists the checks seen '
               'to report it at their quick budget.\n\n'
               '| change | property | breaks | needs | caught by |\n'
               '|---|---|---|---|---|\n')
    caught = {}
    path = os.path.join(V, 'tools', 'caught.json')
    if os.path.exists(path):
        caught = json.load(open(path))
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s | %s |\n' % (
            i, m['property'], m['what_it_breaks'].replace('|', '/'),
            m['needs'].replace('|', '/'),
            ', '.join(caught.get(i, [])) or '-'))
    open(os.path.join(V, 'DESIGN.md'), 'w').writelines(out)


if __name__ == '__main__':
    main()
