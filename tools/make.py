#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sa import catalog

LIB = 'lib/src/pbtools.c'
HDR = 'lib/include/pbtools.h'
GEN = 'pbtools/c_source/__init__.py'
PARSER = 'pbtools/parser.py'
CLI = 'pbtools/__init__.py'

P = []


def prop(id, title, statement, over, quant, why, files, mechanism,
         observe, state=None, hook=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': quant},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w}
                                   for n, w in mechanism],
                     'observe_at': observe, 'hook_needed': hook}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                 for n, m, w in state]
    P.append(d)


exec(open(os.path.join(HERE, 'properties.py')).read())


def main():
    ids = [d['id'] for d in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks = []
    for d in P:
        i = d['id']
        if i not in catalog.PROPERTIES:
            assert i in NOT_APPLICABLE, i
            continue
        m = catalog.PROPERTIES[i]
        checks.append({'property': i,
                       'quick_cmd': f'python3 check.py {i} quick',
                       'thorough_cmd': f'python3 check.py {i} thorough',
                       'technique': m['technique'],
                       'level': m['level'],
                       'level_note': m['level_note']})
    man = {'version': 1,
           'setup_cmd': 'python3 check.py --setup',
           'checks': checks,
           'not_applicable': [{'property': i, 'reason': r}
                              for i, r in NOT_APPLICABLE.items()]}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
