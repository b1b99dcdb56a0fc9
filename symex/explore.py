"""
Explores the paths of a harness cell: the worker side.
"""
import gc
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
NATIVE_PY = '/opt/venv/bin/python'

_ready = False


def setup():
    """Once per worker: the import hook, and the packages under test."""
    global _ready
    if _ready:
        return
    _ready = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    from symex import lift
    lift.install({'sangfroid': REPO, 'bywords': REPO, 'harness': HERE})
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


class NativeServer:
    def __init__(self):
        self.p = None
        self.calls = 0

    def start(self):
        env = dict(os.environ)
        env['VP_REPO'] = REPO
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            [NATIVE_PY, '-B', os.path.join(HERE, 'symex', 'native.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True, cwd=HERE)

    def run(self, harness, cell, inputs, timeout=30):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps(
                {'harness': harness, 'cell': cell, 'inputs': inputs}) + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.kill()
                return {'failures': ['hang'], 'obs': [], 'checks': 0}
            line = self.p.stdout.readline()
            return json.loads(line)
        except (BrokenPipeError, json.JSONDecodeError, OSError):
            self.kill()
            return {'failures': [], 'crash': 'native process died',
                    'obs': [], 'checks': 0}

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None


NATIVE = NativeServer()


class PathTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise PathTimeout()


def same_obs(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and a[0] == 'f' and len(b) == 2 and b[0] == 'f':
            x, y = Fraction(a[1]), Fraction(b[1])
            return abs(x - y) <= max(abs(x), abs(y), 1) * Fraction(1, 10**9)
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return same_obs(list(a), b)
    if isinstance(b, tuple):
        return same_obs(a, list(b))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        # the last digits of a rounded number may differ
        x, y = NUM_RE.split(a), NUM_RE.split(b)
        return len(x) == len(y) and all(
            u == v or (i % 2 == 1 and
                       same_obs(['f', str(Fraction(u))],
                                ['f', str(Fraction(v))]))
            for i, (u, v) in enumerate(zip(x, y)))
    return a == b


NUM_RE = re.compile(r'([0-9]+\.[0-9]{10,}(?:e[-+]?[0-9]{1,3})?)')


class Result:
    """What a slice of exploration produced (picklable)."""

    def __init__(self):
        self.pending = []
        self.ces = []
        self.known = []
        self.undecided = []
        self.completed = 0
        self.infeasible = 0
        self.truncated = {}
        self.validated = 0
        self.mismatch = []
        self.labels = {}
        self.samples = []
        self.smt = []
        self.stats = None
        self.crash = None


def fresh_context():
    """A new z3 context: deterministic, and nothing accumulates."""
    import z3.z3 as zz
    zz._main_ctx = None
    gc.collect(0)


def explore(harness, cell, prefixes, slice_s, opts):
    """Runs paths from the given prefixes until done or the slice ends."""
    setup()
    from symex import core
    from symex.provider import Symbolic
    import z3
    res = Result()
    core.STATS = core.Stats()
    for m in ('symex.lift', 'symex.strings', 'symex.regex'):
        if m in sys.modules and hasattr(sys.modules[m], 'STATS'):
            sys.modules[m].STATS = core.STATS
    sys.modules['symex.core'].STATS = core.STATS
    STATS = core.STATS
    mod = importlib.import_module('harness.' + harness)
    stack = list(prefixes)
    t_end = time.time() + slice_s
    known = opts.get('known', [])
    native0 = NATIVE.calls
    confirmed_labels = set()
    smt_left = opts.get('smt', 0)

    def want_ce(label, inputs):
        r = NATIVE.run(harness, cell, inputs)
        if not r['failures']:
            return False
        for lab in r['failures']:
            rec = {'harness': harness, 'cell': cell, 'inputs': inputs,
                   'label': lab, 'detail': r.get('detail', '')}
            if is_known(known, lab):
                if not any(k['label'] == lab for k in res.known):
                    res.known.append(rec)
            elif lab not in confirmed_labels:
                confirmed_labels.add(lab)
                res.ces.append(rec)
        return True

    def on_query(c, neg, r):
        nonlocal smt_left
        if smt_left > 0 and r != z3.unknown:
            s = z3.Solver()
            for a in c.asserted:
                s.add(a)
            s.add(neg)
            res.smt.append((s.to_smt2(), 'sat' if r == z3.sat else 'unsat'))
            smt_left -= 1

    signal.signal(signal.SIGALRM, _alarm)
    while stack:
        if time.time() > t_end:
            break
        if res.ces and len(res.ces) >= 3:
            break
        prefix = stack.pop()
        fresh_context()
        ctx = core.Ctx(prefix, timeout_ms=opts.get('timeout_ms', 10000))
        core.Ctx.cur = ctx
        p = Symbolic(ctx)
        p.want_ce = want_ce
        p.on_query = on_query
        status = None
        signal.alarm(opts.get('path_s', 40))
        try:
            try:
                mod.run(p, cell)
                status = 'ok'
            except core.Infeasible:
                status = 'infeasible'
            except core.Truncated as e:
                status = 'truncated'
                k = str(e) or 'budget'
                res.truncated[k] = res.truncated.get(k, 0) + 1
            except PathTimeout:
                raise
            except RecursionError:
                status = 'error'
                err = 'RecursionError'
            except Exception as e:
                status = 'error'
                err = ''.join(traceback.format_exception(e))[-1500:]
            model = None
            if status in ('ok', 'error'):
                try:
                    model = ctx.ensure_model()
                except core.Infeasible:
                    status = 'infeasible'
            if status == 'error' and model is not None:
                inputs = p.model_inputs(model)
                lab = 'exception'
                if not want_ce(lab, inputs):
                    res.undecided.append('symbolic path ended in an error '
                                         'the real code does not raise: ' +
                                         err)
            elif status == 'ok' and model is not None:
                res.completed += 1
                if opts.get('validate', True):
                    inputs = p.model_inputs(model)
                    r = NATIVE.run(harness, cell, inputs)
                    if r['failures']:
                        # the real code fails where the path did not
                        want_ce('native', inputs)
                    elif r.get('crash') or r.get('stopped'):
                        res.mismatch.append(
                            {'inputs': inputs, 'why': str(r)[:300]})
                    else:
                        so = p.obs_under(model)
                        if same_obs([list(x) for x in so], r['obs']):
                            res.validated += 1
                        else:
                            res.mismatch.append(
                                {'inputs': inputs,
                                 'symbolic': repr(so)[:600],
                                 'native': repr(r['obs'])[:600]})
                    if len(res.samples) < 2:
                        res.samples.append({'cell': cell, 'inputs': inputs})
            elif status == 'ok':
                res.undecided.append('no model of a completed path')
        except PathTimeout:
            res.truncated['path time'] = res.truncated.get('path time', 0) + 1
        except z3.Z3Exception as e:
            res.undecided.append('z3: ' + str(e)[:200])
        finally:
            signal.alarm(0)
            core.Ctx.cur = None
            p.cleanup()
        if status == 'infeasible':
            res.infeasible += 1
        STATS.paths += 1
        for lab, n in p.labels.items():
            res.labels[lab] = res.labels.get(lab, 0) + n
        res.undecided.extend(p.undecided)
        stack.extend(ctx.pending)
    res.pending = stack
    STATS.native = NATIVE.calls - native0
    res.stats = STATS.as_dict()
    return res


def is_known(known, label):
    return any(k['label'] == label for k in known)


def worker(conn):
    """Process loop: (harness, cell, prefixes, slice, opts) -> Result."""
    while True:
        try:
            task = conn.recv()
        except EOFError:
            break
        if task is None:
            break
        try:
            r = explore(*task)
        except BaseException as e:
            r = Result()
            r.crash = ''.join(traceback.format_exception(e))[-3000:]
            from symex import core
            core.Ctx.cur = None
        conn.send(r)
    NATIVE.kill()
