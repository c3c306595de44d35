"""Writes properties.jsonl and MANIFEST.json from the definitions in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props                                                    # noqa: E402

TECH = 'bounded symbolic execution of the real Python source with SMT (z3), counterexamples replayed on the real code'
NOTE = ('Every feasible path within the stated bounds is executed with symbolic inputs and each obligation is decided '
        'by the solver for all input values; floats are modelled as exact reals with NaN and zero-division behaviour; '
        'trusts z3, the numpy/pandas models of the executor (validated by replaying path models on the real code) '
        'and the reference definitions in the check.')


def main():
    ids = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            assert p['id'] not in ids
            ids.add(p['id'])
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in props.PROPS:
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        cmd = f'/opt/venv/bin/python /verif/check.py {p["id"]} --tier '
        checks.append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'evidence_file': f'evidence/{p["id"]}.json', 'technique': TECH, 'level': 'other',
                       'level_note': (p.get('note', '') + ' ' + NOTE).strip()})
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/check.py --selftest', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo. Checks load the source under /repo at run time; nothing is cached.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
