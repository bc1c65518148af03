"""Runs the cases of one property in a pool of forked workers and reports."""
import importlib
import json
import multiprocessing as mp
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PYPY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))  # development: stop at the first violation


class Replayer:
    """client of one real-runtime process"""

    def __init__(self, timeout=60):
        self.p = None
        self.timeout = timeout
        self.count = 0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        self.p = subprocess.Popen([PYPY, '-B', os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE if 0 else subprocess.DEVNULL, env=env)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, prop, case, inputs, choices):
        if self.p is None:
            self.start()
        self.count += 1
        req = json.dumps({'prop': prop, 'case': case, 'inputs': inputs, 'choices': choices}) + '\n'
        try:
            self.p.stdin.write(req.encode())
            self.p.stdin.flush()
            end = time.time() + self.timeout
            while b'\n' not in self.buf:
                left = end - time.time()
                if left <= 0:
                    self.stop()
                    return {'status': 'exception', 'exc': 'timeout', 'obs': [], 'reached': [], 'checks': 0,
                            'failures': [{'label': 'hang', 'detail': 'the real code did not finish in %d s' % self.timeout}]}
                r, _, _ = select.select([self.p.stdout], [], [], left)
                if r:
                    d = os.read(self.p.stdout.fileno(), 1 << 16)
                    if not d:
                        raise OSError('worker died')
                    self.buf += d
            line, self.buf = self.buf.split(b'\n', 1)
            return json.loads(line)
        except OSError as err:
            self.stop()
            return {'status': 'broken', 'exc': str(err), 'failures': [], 'obs': [], 'reached': [], 'checks': 0}


def load_cases(prop):
    """symbolic world: load skcurve, then the harness module through the same loader"""
    sys.dont_write_bytecode = True
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    from symexec import loader
    sk, finder = loader.load(REPO)
    from harness import api
    importlib.import_module('props.' + prop.lower())
    return api.REG.of('props.' + prop.lower()), finder


def _child(conn, prop, cases, tier, seed, limit):
    import z3
    from harness.symctx import CaseRun
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    z3.set_param('memory_max_size', 3500)
    import warnings
    warnings.simplefilter('ignore')
    rep = Replayer()
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            fn, params, opts = cases[msg]
            run = CaseRun(prop, msg, fn, params, opts, rep, tier, seed, time.time() + limit)
            try:
                res = run.execute()
            except MemoryError:
                res = None
            conn.send(res)
    finally:
        rep.stop()


def run_cases(prop, cases, names, tier, seed, limit, total, jobs):
    t_end = time.time() + total
    todo = list(names)
    ctx = mp.get_context('fork')
    workers = []
    results = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_child, args=(b, prop, cases, tier, seed, limit), daemon=True)
        p.start()
        b.close()
        return {'p': p, 'c': a, 'case': None, 't': 0}

    def lost(name, why):
        results.append({'case': name, 'lost': why, 'params': {}, 'stats': {}, 'funcs': [], 'violations': [],
                        'unconfirmed': [], 'notes': [why], 'truncated': why, 'labels': {}, 'reached': {},
                        'traces': 0, 'divergences': [], 'samples': [], 'excs': [], 'infeasible': 0, 'wall': 0})

    for _ in range(min(jobs, len(todo))):
        workers.append(spawn())
    while True:
        now = time.time()
        for w in workers:
            if w['case'] is None and todo and now < t_end:
                w['case'] = todo.pop(0)
                w['t'] = now
                w['c'].send(w['case'])
        busy = [w for w in workers if w['case'] is not None]
        if not busy:
            break
        for c in mp.connection.wait([w['c'] for w in busy], timeout=1.0):
            w = next(x for x in busy if x['c'] is c)
            try:
                r = c.recv()
                if r is None:
                    lost(w['case'], 'out of memory')
                else:
                    results.append(r)
                    if FAILFAST and r['violations']:
                        del todo[:]
                w['case'] = None
            except (EOFError, OSError):
                lost(w['case'], 'worker process ended')
                workers.remove(w)
                w['p'].kill()
                workers.append(spawn())
        now = time.time()
        for w in list(workers):
            if w['case'] is not None and now - w['t'] > limit + 45:
                lost(w['case'], 'case time limit')
                w['p'].kill()
                workers.remove(w)
                workers.append(spawn())
    for n in todo:
        lost(n, 'total time limit')
    for w in workers:
        try:
            w['c'].send(None)
        except OSError:
            pass
    for w in workers:
        w['p'].join(3)
        if w['p'].is_alive():
            w['p'].kill()
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order[r['case']])
    return results
