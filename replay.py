#!/opt/venv/bin/python
"""Replays concrete cases of a harness on the real, unpatched code of /repo.

replay.py <file.json>   re-runs a recorded counterexample (exit 1 if it still fails)
replay.py -             request on stdin, machine-readable answer on stdout
"""
import json
import os
import re
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('SYMX_REPO', '/repo'))
sys.path.insert(0, HERE)


def unreadable(e, s):
    """Did the code raise or return something no caller could use (rather than the harness naming what is gone)?"""
    import traceback
    import types
    repo = os.path.abspath(os.environ.get('SYMX_REPO', '/repo'))
    frames = traceback.extract_tb(e.__traceback__)
    ours = os.path.abspath(frames[-1].filename).startswith(HERE)
    in_repo = any(os.path.abspath(f.filename).startswith(repo + os.sep) for f in frames)
    obj = getattr(e, 'obj', None)
    where = getattr(type(obj), '__module__', '') or ''
    if isinstance(e, ImportError) or isinstance(e, AttributeError) and (
            isinstance(obj, (types.ModuleType, type)) or where.startswith('metcalcpy')):
        return None
    if isinstance(e, TypeError) and ours and re.search(r'positional argument|required (positional|keyword)|unexpected keyword', str(e)):
        return None             # a call that no longer fits the signature
    if in_repo or s.calls:
        return f'{type(e).__name__}: {e} at {frames[-1].filename}:{frames[-1].lineno}'
    return None


def main():
    src = sys.argv[1]
    req = json.load(sys.stdin if src == '-' else open(src))
    import logging
    import warnings
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    logging.disable(logging.CRITICAL)
    from symx.run import load_check
    from symx.harness import ConcSession
    from symx.core import Infeasible
    mod = load_check(req['property'])
    known = getattr(mod, 'known_tasks', list)()     # harnesses of recorded findings
    task = next(t for t in mod.tasks(req.get('tier', 'quick')) + known if t.name == req['task'])
    answers = []
    for case in req['cases']:
        s = ConcSession(case)
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
        a = {}
        try:
            task.harness(s)
        except Infeasible:
            pass
        except Exception as e:
            import traceback
            a['error'] = traceback.format_exc()[-1500:]
            a['unreadable'] = unreadable(e, s)
        a['failures'] = s.failures
        a['checks'] = s.checks
        answers.append(a)
    sys.stdout = out
    if src == '-':
        print('REPLAY ' + json.dumps(answers, default=str))
        return 0
    bad = 0
    for case, a in zip(req['cases'], answers):
        print('inputs :', json.dumps(case, default=str))
        for f in a['failures']:
            bad = 1
            print('FAILS  :', f['label'], f['detail'])
        if a.get('error'):
            print(a['error'])
            bad = bad or int(bool(a['unreadable']))
    if not bad:
        print('no violation reproduced')
    return bad


sys.exit(main())
