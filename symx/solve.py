"""Parallel solver pool (z3 / cvc5 worker processes fed with SMT-LIB2)."""
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time
from fractions import Fraction

import numpy as np
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
NWORKERS = int(os.environ.get('VERIF_WORKERS', '7'))


def smt2(formulas, reverse=False):
    s = z3.Solver()
    if reverse:
        formulas = formulas[::-1]
    for f in formulas:
        s.add(f)
    # the final (check-sat) is issued by the worker
    return s.to_smt2().replace('(check-sat)', '')


def decode(v):
    if v[0] == 'bv':
        return v[1]
    if v[0] == 'b':
        return v[1]
    if v[0] == 'q':
        return Fraction(int(v[1]), int(v[2]))
    if v[0] == 'i':
        return int(v[1])
    if v[0] == 'fp':
        w = sum(v[1])
        ty = {16: np.float16, 32: np.float32, 64: np.float64}[w]
        if v[2] == 'nan':
            return ty(np.nan)
        return np.array(v[2], {16: np.uint16, 32: np.uint32, 64: np.uint64}[w]).view(ty)[()]
    raise ValueError(v)


class Result:
    def __init__(self, d, smt_file=None):
        self.status = d.get('result', 'unknown')
        self.time = d.get('time', 0.)
        self.reason = d.get('reason', '')
        m = d.get('model')
        self.model = {k: decode(v) for k, v in m.items()} if m is not None else None
        self.solver = d.get('solver', 'z3')

    def __repr__(self):
        return f'Result({self.status}, {self.time:.2f}s {self.reason})'


DEADLINE = None  # time after which no query is started, set in the quick tier


class _Worker(threading.Thread):
    def __init__(self, q):
        super().__init__(daemon=True)
        self.q = q
        self.p = None
        self.start()

    def spawn(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self):
        while True:
            job, cb = self.q.get()
            try:
                out = self.do(job)
            except Exception as e:
                out = dict(result='unknown', reason=f'pool: {e}')
            cb(out)

    def do(self, job):
        race = job.pop('_race', None)
        if race is not None and race['done']:
            return dict(result='cancelled')
        if DEADLINE is not None:
            left = DEADLINE - time.time()
            if left < 1:
                return dict(result='unknown', reason='the time is over')
            job['timeout'] = min(job['timeout'], max(2, left))
        if self.p is None or self.p.poll() is not None:
            self.spawn()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        with os.fdopen(fd, 'w') as f:
            f.write(job.pop('smt2'))
        job['file'] = path
        timer = threading.Timer(job['timeout'] * 1.3 + 20, lambda: self.p.kill())
        timer.start()
        if race is not None:
            race['running'].append(self)
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        finally:
            timer.cancel()
            os.unlink(path)
        if race is not None:
            race['running'].remove(self)
            if race['done']:
                # the winner may have killed this process
                if not line:
                    self.p = None
                return dict(result='cancelled')
            if line and json.loads(line).get('result') in ('sat', 'unsat'):
                race['done'] = True
                for w in list(race['running']):
                    if w is not self and w.p is not None:
                        w.p.kill()
        if not line:
            self.p = None
            return dict(result='unknown', reason='worker ended (time or memory)')
        return json.loads(line)


class Pool:
    def __init__(self, n=NWORKERS):
        self.q = queue.PriorityQueue() if False else queue.Queue()
        self.workers = []
        self.n = n
        self.id = 0
        self.lock = threading.Lock()
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, time=0., max_time=0.)

    def submit(self, text, timeout, solver='z3', params=None, tactic=None, race=None):
        with self.lock:
            self.id += 1
            if len(self.workers) < self.n:
                self.workers.append(_Worker(self.q))
        ev = threading.Event()
        box = {}

        def cb(out):
            box['out'] = out
            out['solver'] = solver
            if out.get('result') != 'cancelled':
                with self.lock:
                    s = self.stats
                    s['queries'] += 1
                    r = out.get('result', 'unknown')
                    s[r if r in s else 'unknown'] += 1
                    s['time'] += out.get('time', 0)
                    s['max_time'] = max(s['max_time'], out.get('time', 0))
            ev.set()
        job = dict(id=self.id, smt2=text, timeout=timeout, solver=solver, params=params or {})
        if tactic:
            job['tactic'] = tactic
        if race is not None:
            job['_race'] = race
        self.q.put((job, cb))

        def get():
            ev.wait()
            return Result(box['out'])
        return get

    def race(self, variants, timeout):
        """ several formulations of one query; the first answer wins. variants: list of (text, kw) """
        if len(variants) == 1:
            return self.submit(variants[0][0], timeout, **variants[0][1])
        race = dict(done=False, running=[])
        gets = [self.submit(t, timeout, race=race, **kw) for t, kw in variants]

        def get():
            rs = [g() for g in gets]
            for r in rs:
                if r.status in ('sat', 'unsat'):
                    return r
            return rs[0]
        return get


POOL = Pool()


def shutdown():
    for w in POOL.workers:
        if w.p is not None:
            try:
                w.p.kill()
            except Exception:
                pass


def check_sat(formulas, timeout=120, **kw):
    return POOL.submit(smt2(formulas), timeout, **kw)()
