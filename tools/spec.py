#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

The table is tools/spec_table.py; a property is claimed iff sa/registry.py has
rules for it, otherwise its entry must carry a not-applicable reason.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from spec_table import PROPS
from sa.registry import RULES

PY = '/opt/venv/bin/python'


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        for _, w in p['mech']:
            f, _, fn = w.partition(':')
            src = open('/repo/src/bartz/' + f).read()
            assert not fn or any(f'{k} {fn.split(".")[-1]}' in src for k in ('def', 'class')), w
        assert len(p['title']) <= 80, p['title']
        d = dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
                 quantifier=dict(over=p['over'], text=' '.join(p['quant'].split())),
                 why_tests_cant=' '.join(p['why'].split()),
                 anchors=dict(files=sorted({'src/bartz/' + w.split(':')[0] for _, w in p['mech']}),
                              mechanism=[dict(name=n, where='src/bartz/' + w) for n, w in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        lines.append(json.dumps(d))
        if p['id'] in RULES:
            checks.append(dict(property=p['id'], quick_cmd=f'{PY} check.py {p["id"]} --tier quick',
                               thorough_cmd=f'{PY} check.py {p["id"]} --tier thorough',
                               technique=' '.join(p['technique'].split()), level='other', level_note=' '.join(p['note'].split())))
        else:
            na.append(dict(property=p['id'], reason=' '.join(p['na'].split())))
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids) and set(RULES) <= set(ids), set(RULES) - set(ids)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    man = dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Every check re-imports /repo/src and analyses the IR that the JAX front end emits for it.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(lines), 'properties', len(checks), 'checks', len(na), 'not applicable')


main()
