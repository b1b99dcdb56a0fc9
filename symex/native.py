"""
Runs harnesses natively: the unmodified code of /repo, the ordinary
interpreter, concrete inputs.  A server on stdin/stdout, one JSON per line;
or, with a file name, replays one recorded counterexample.
"""
import importlib
import io
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def run(harness, cell, inputs):
    from symex.provider import Native, Stop
    mod = importlib.import_module('harness.' + harness)
    p = Native(inputs)
    res = {'failures': [], 'stopped': False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(p, cell)
    except Stop:
        res['stopped'] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-1:]
        p.failures.append('exception:' + type(e).__name__)
        res['detail'] = f'{type(e).__name__}: {e} at {where}'[:500]
    finally:
        p.cleanup()
    res['failures'] = p.failures
    res['obs'] = p.obs
    res['checks'] = p.checks
    return res


def main():
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            ce = json.load(f)
        r = run(ce['harness'], ce['cell'], ce['inputs'])
        print(json.dumps(r, indent=1, ensure_ascii=True))
        sys.exit(1 if r['failures'] else 0)
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = run(q['harness'], q['cell'], q['inputs'])
        except BaseException as e:
            r = {'failures': [], 'crash': repr(e)[:300], 'obs': [],
                 'checks': 0}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
