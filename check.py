#!/usr/bin/env python3-vt
"""
check.py PROPERTY: decides one property of /repo's current tree.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no answer.
"""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, HERE)

from symex import explore as ex          # noqa: E402


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def harness_info(pid):
    """cells and text of a harness, read without instrumentation."""
    import ast
    path = os.path.join(HERE, 'harness', pid.lower() + '.py')
    src = open(path, encoding='utf-8').read()
    ns = {'__name__': 'harness_info', '__file__': path}
    tree = ast.parse(src)
    # only the declarative part: constants and the function cells()
    keep = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and all(
                isinstance(t, ast.Name) and t.id.isupper()
                for t in n.targets):
            keep.append(n)
        elif isinstance(n, ast.FunctionDef) and n.name == 'cells':
            keep.append(n)
    exec(compile(ast.Module(keep, []), path, 'exec'), ns)
    return ns


class Pool:
    def __init__(self, n):
        self.ctx = mp.get_context('fork')
        self.n = n
        self.w = []
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=self._run, args=(b, a), daemon=True)
        p.start()
        b.close()
        self.w.append([p, a, None, 0.0])

    @staticmethod
    def _run(conn, other):
        other.close()
        sys.stdout = open(os.devnull, 'w')
        ex.worker(conn)

    def close(self):
        for p, c, t, _ in self.w:
            try:
                c.send(None)
            except (OSError, BrokenPipeError):
                pass
        for p, c, t, _ in self.w:
            p.join(1)
            if p.is_alive():
                p.terminate()
                p.join(1)
                if p.is_alive():
                    p.kill()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--cell', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    info = harness_info(pid)
    cells = info['cells'](tier)
    if a.cell is not None:
        cells = [cells[a.cell]]
    budget = a.budget or (info.get('QUICK_S', 400) if tier == 'quick'
                          else info.get('THOROUGH_S', 1200))
    kf = load_known()
    known = [k for k in kf['known'] if k['property'] == pid]
    opts = {'known': known, 'timeout_ms': 8000 if tier == 'quick' else 30000,
            'path_s': 40 if tier == 'quick' else 180,
            'smt': 1 if tier == 'quick' else 6}
    pool = Pool(min(a.j, max(1, len(cells) * 4)))
    # one queue per cell, served round-robin: no cell starves
    queues = [[[]] for _ in cells]
    turn = 0
    running = [0] * len(cells)
    agg = {'paths': 0, 'branches': 0, 'queries': 0, 'sat': 0, 'unsat': 0,
           'unknown': 0, 'solver_s': 0.0, 'checks': 0, 'check_unsat': 0,
           'native': 0, 'truncated': 0}
    funcs, conc = set(), collections.Counter()
    labels, trunc = collections.Counter(), collections.Counter()
    per_cell = [collections.Counter() for _ in cells]
    ces, knowns, undecided, mismatch, samples, smt, crashes = \
        [], [], [], [], [], [], []
    completed = infeasible = validated = 0
    deadline = t0 + budget
    slice_s = 2.0

    def dispatch():
        nonlocal turn
        for w in pool.w:
            if w[2] is not None:
                continue
            for _ in range(len(cells)):
                ci = turn % len(cells)
                turn += 1
                if queues[ci]:
                    q = queues[ci]
                    # leave something for the others
                    n = max(1, len(q) // max(1, pool.n))
                    q.sort(key=len, reverse=True)
                    take, queues[ci] = q[-n:], q[:-n]
                    w[2] = ci
                    w[3] = time.time()
                    running[ci] += 1
                    w[1].send((pid.lower(), cells[ci], take, slice_s, opts))
                    break
            else:
                return

    stop = False
    while not stop:
        if time.time() < deadline:
            dispatch()
        busy = [w for w in pool.w if w[2] is not None]
        if not busy:
            break
        rd = mpc.wait([w[1] for w in busy] + [w[0].sentinel for w in busy],
                      timeout=5)
        now = time.time()
        for w in busy:
            got = None
            if w[1] in rd:
                try:
                    got = w[1].recv()
                except (EOFError, OSError):
                    got = None
                    dead = True
            elif w[0].sentinel in rd or \
                    now - w[3] > slice_s + opts['path_s'] * 2 + 60:
                pass
            else:
                continue
            ci = w[2]
            if got is None:
                trunc['worker lost'] += 1
                running[ci] -= 1
                w[0].kill()
                pool.w.remove(w)
                pool.spawn()
                continue
            w[2] = None
            running[ci] -= 1
            if got.crash:
                crashes.append(got.crash)
                continue
            for k in agg:
                agg[k] += got.stats[k] if k in got.stats else 0
            funcs.update(got.stats['functions'])
            conc.update(got.stats['concretised'])
            labels.update(got.labels)
            trunc.update(got.truncated)
            completed += got.completed
            infeasible += got.infeasible
            validated += got.validated
            per_cell[ci]['completed'] += got.completed
            per_cell[ci]['undecided'] += len(got.undecided)
            ces.extend(got.ces)
            knowns.extend(got.known)
            undecided.extend(got.undecided)
            mismatch.extend(got.mismatch)
            if len(samples) < 12:
                samples.extend(got.samples)
            if len(smt) < 60:
                smt.extend(got.smt)
            queues[ci].extend(got.pending)
        if ces:
            stop = True
    pool.close()
    left = sum(len(q) for q in queues)
    cross = cross_check(smt, 20 if tier == 'quick' else 200,
                        10 if tier == 'quick' else 120) \
        if not ces else {'checked': 0}
    wall = time.time() - t0
    code = 0
    # -- report -----------------------------------------------------------
    seen = set()
    for k in knowns:
        ent = next(x for x in known if x['label'] == k['label'])
        if ent['label'] in seen:
            continue
        seen.add(ent['label'])
        print(f"KNOWN-FINDING: property={pid} {ent['what']}")
    if ces:
        code = 1
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, c in enumerate(ces[:3]):
            path = os.path.join(rd, f'{pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump(c, f, indent=1)
            print(f"  {c['label']}: {c['detail']} cell={c['cell']} "
                  f"inputs={c['inputs']}")
            print(f'VIOLATION property={pid} replay={path}')
    no_answer, inconclusive = [], []
    if not ces:
        open_cells = 0
        for ci, pc in enumerate(per_cell):
            if not pc['completed'] and not (
                    seen and not pc['undecided']):
                inconclusive.append(f'cell {cells[ci]}: no path was decided')
                open_cells += 1
        if crashes:
            inconclusive.append('worker crash: ' + crashes[0])
        nrep = [u for u in undecided if 'does not reproduce' in u]
        for u in nrep[:5]:
            inconclusive.append('counterexample that the real code does not '
                                'reproduce, not reported: ' + u)
        # what is undecided is listed; an answer needs most of it decided
        if open_cells * 2 > len(cells):
            no_answer.append('most cells have no decided path')
        if len(nrep) * 2 > max(1, completed):
            no_answer.append('most counterexamples do not reproduce')
        if not labels or not completed:
            no_answer.append('no obligation was reached')
        if cross.get('disagree'):
            no_answer.append('solvers disagree')
        for n in inconclusive[:10]:
            print('INCONCLUSIVE:', n)
    if no_answer:
        code = 2
        for n in no_answer:
            print('NO-ANSWER:', n, file=sys.stderr)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': agg['paths'],
            'transitions': agg['branches'],
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': bool(left == 0 and not trunc and not undecided and
                               not any('cut' in k for k in conc)),
            'cells': len(cells),
            'paths_completed': completed,
            'paths_infeasible': infeasible,
            'paths_left_unexplored': left,
            'paths_cut': dict(trunc),
            'obligations_per_label': dict(labels),
            'obligations': agg['checks'],
            'obligations_shown_unsat': agg['check_unsat'],
            'inconclusive': inconclusive[:20],
            'undecided': undecided[:10],
            'undecided_count': len(undecided),
            'queries': agg['queries'], 'queries_sat': agg['sat'],
            'queries_unsat': agg['unsat'], 'queries_unknown': agg['unknown'],
            'solver_s': round(agg['solver_s'], 2),
            'solver': 'z3 ' + _z3v(),
            'second_solver': cross,
            'functions_encoded': sorted(f for f in funcs
                                        if not f.startswith('harness.')),
            'bounds': info.get('BOUNDS', ''),
            'concretised': dict(conc),
            'native_runs': agg['native'],
            'model_mismatches': mismatch[:5],
            'model_mismatch_count': len(mismatch),
        },
        'assumptions': info.get('ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(ces),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{pid}.json'))
    print(f'{pid} {tier}: exit {code}; {len(cells)} cells, '
          f'{completed} paths, {left} left, {agg["checks"]} obligations '
          f'({agg["check_unsat"]} unsat), {len(undecided)} undecided, '
          f'{validated} validated natively, {len(mismatch)} mismatches, '
          f'{agg["queries"]} queries, solver {agg["solver_s"]:.1f}s, '
          f'wall {wall:.1f}s')
    if a.v:
        print('labels', dict(labels))
        print('cut', dict(trunc), 'conc', dict(conc))
        for u in undecided[:5]:
            print('UNDECIDED', u)
        for m in mismatch[:5]:
            print('MISMATCH', m)
        for i, pc in enumerate(per_cell):
            print(i, cells[i], dict(pc), 'left', len(queues[i]))
        print('second solver', cross)
    sys.exit(code)


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def cross_check(smt, limit, secs):
    """The same obligations given to cvc5."""
    out = {'solver': 'cvc5', 'checked': 0, 'agree': 0, 'unknown': 0,
           'disagree': 0}
    try:
        import cvc5
    except ImportError:
        return out
    t0 = time.time()
    for text, want in smt[:limit]:
        if time.time() - t0 > secs:
            break
        try:
            tm = cvc5.TermManager()
            s = cvc5.Solver(tm)
            s.setOption('tlimit-per', '3000')
            s.setLogic('ALL')
            ip = cvc5.InputParser(s)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,
                              text.replace('(check-sat)', ''), 'q')
            sm = ip.getSymbolManager()
            while True:
                c = ip.nextCommand()
                if c.isNull():
                    break
                c.invoke(s, sm)
            r = s.checkSat()
        except Exception as e:
            out['unknown'] += 1
            out['error'] = str(e)[:200]
            continue
        out['checked'] += 1
        got = 'sat' if r.isSat() else 'unsat' if r.isUnsat() else 'unknown'
        if got == 'unknown':
            out['unknown'] += 1
        elif got == want:
            out['agree'] += 1
        else:
            out['disagree'] += 1
    return out


if __name__ == '__main__':
    main()
