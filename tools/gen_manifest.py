#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks in pbt/props/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based round trip against a reference value model',
    'C02': 'property-based round trip against a reference value model',
    'C03': 'property-based differential test against an independent AMF0 reader',
    'C04': 'property-based differential test against an independent AMF3 reader',
    'C05': 'generated AMF0 items from an independent writer with free encoding choices',
    'C06': 'generated AMF3 items from an independent writer with free encoding choices',
    'C07': 'property-based round trip of generated graphs, identity compared',
    'C08': 'mutation fuzzing of AMF bytes against an independent strict reader',
    'C09': 'property-based testing of element streams and every cut position',
    'C10': 'property-based testing of integers against a variable-length integer model',
    'C11': 'stateful property-based testing: random histories, metamorphic comparison with a fresh process',
    'C12': 'property-based round trip of dates with time zone offsets, wire compared with a model',
    'C13': 'property-based testing of generated class registrations against a model',
    'C14': 'property-based testing of generated class declarations against an attribute-control model, bytes read independently',
    'C15': 'property-based testing of generated class declarations against an attribute-control model',
    'C16': 'model-based stateful testing of the registries',
    'C17': 'metamorphic property-based testing: adapted value against its plain equivalent',
    'C18': 'model-based stateful testing against an ideal byte buffer',
    'C19': 'model-based testing of generated data-output/data-input programs',
    'C20': 'property-based XML round trips and generated hostile documents at every entry point',
    'C21': 'property-based round trip and damage fuzzing of shared objects',
    'C22': 'property-based round trip of envelopes, checked by an independent envelope reader',
    'C23': 'mutation fuzzing of envelopes against an independent strict reader',
    'C24': 'model-based testing of generated services and request batches',
    'C25': 'model-based testing of generated authenticator and preprocessor configurations',
    'C26': 'fuzzing of HTTP requests with an HTTP response oracle',
    'C27': 'model-based testing of generated Flex message batches',
    'C28': 'model-based stateful testing of the client against a scripted server',
    'C29': 'model-based stateful testing against a plain list',
    'C30': 'property-based round trip and generated compact messages from an independent writer',
    'C31': 'model-based stateful testing of hook and import histories',
    'C32': 'property-based round trip and independent reading with proxying',
    'C33': 'model-based testing of generated failures and error registrations',
    'C34': 'end-to-end property-based testing, client against gateway in one process',
    'C36': 'generated thread schedules run deterministically, compared with running alone',
    'C37': 'generated schedules of deferred work over a stub of Twisted against a model of the gateway',
    'C38': 'round-trip and differential against an independent implementation',
    'C39': 'generated tables of model instances against a model of the adapter, bytes read and written independently',
}
NOTES = {}
NA = {
    'C35': 'cpyamf needs Cython and a C Python 2 to be built; this sandbox has '
           'only Jython for Python 2, so there is no compiled codec to run '
           'generated inputs through.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        path = os.path.join(V, 'pbt', 'props', i.lower() + '.py')
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif not os.path.exists(path):
            na.append({'property': i, 'reason': 'no check built yet'})
        else:
            checks.append({
                'property': i,
                'quick_cmd': './run.py ' + i,
                'thorough_cmd': './run.py %s --thorough' % i,
                'technique': TECH[i],
                'level': 'exploration',
                'level_note': NOTES.get(
                    i, 'Random search: the property held for every generated '
                    'case (numbers and samples in the evidence file); bounds '
                    'on sizes and depths are those of the generators. Trusts '
                    'the oracle in pbt/, Jython 2.7 and the fixtures in jy/.'),
            })
    m = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup_check.py',
        'checks': checks,
        'not_applicable': na,
        'notes': 'Every check drives the pure Python code of /repo under '
                 'Jython; nothing is compiled, so the current tree is what '
                 'runs. No hooks were added to /repo.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
