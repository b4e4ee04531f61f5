"""Runner: executes the cases of a check in worker processes and folds what the monitors saw.

A check module (``checks/cNN.py``) provides

- ``ID``, ``LEVEL``, ``RULE``, ``ASSUME``: strings / list of strings for the evidence file,
- ``cases(rng, tier) -> list[dict]``: JSON-able cases (directed corpus first, then random),
- ``run(case, mon)``: drives the code under test for one case, with the oracle reporting to ``mon``,
- ``NEED`` (optional): dict of monitor counters that must be non-zero over the whole run,
- ``TIMEOUT`` (optional): per-case watchdog in seconds.

``mon.check(cond, what, **data)`` is one evaluation of an oracle.
"""
from __future__ import annotations

import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from collections import Counter
from pathlib import Path

from vlib import env

EVIDENCE = env.VERIF / 'evidence'
KNOWN = env.VERIF / 'KNOWN_FINDINGS.txt'


class Violation(Exception):
    def __init__(self, what, data=None, key=None):
        super().__init__(what)
        self.what, self.data, self.key = what, data or {}, key


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 40 else f'array{o.shape}:{o.dtype}'
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o if o == o and abs(o) != float('inf') else repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)[:200]


class Monitor:
    """Collects oracle evaluations and observed events for one case."""

    def __init__(self, case, tmp):
        self.case = case
        self.tmp = Path(tmp)
        self.counts = Counter()
        self.states = set()
        self.known = []
        self.known_keys = ()
        self.trivial = None

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def state(self, *key):
        """Record an observed distinct state / interleaving / history."""
        if len(self.states) < 2000:
            self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def check(self, cond, what, key=None, **data):
        """One oracle evaluation."""
        self.counts['oracle_evaluations'] += 1
        if not bool(cond):
            self.fail(what, key=key, **data)
        return bool(cond)

    def fail(self, what, key=None, **data):
        if key and key in self.known_keys:
            self.known.append((key, what))
            return
        raise Violation(what, jsonable(data), key)


def _worker(mod_name, inq, outq, known_keys):
    """Worker process: run cases received on ``inq``, and report on ``outq``."""
    import faulthandler

    faulthandler.enable(file=open(os.devnull, 'w'))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env.use_repo()
    sys.dont_write_bytecode = True
    # keep the terminal for the verdict lines only
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    mod = importlib.import_module(f'checks.{mod_name}')
    while True:
        item = inq.get()
        if item is None:
            return
        idx, case = item
        outq.put(('start', os.getpid(), idx, None))
        outq.put(('done', os.getpid(), idx, run_case(mod, case, known_keys)))


def run_case(mod, case, known_keys=()):
    """Run one case in this process and return a picklable result."""
    from vlib import hooks

    tmp = tempfile.mkdtemp(prefix='vf_')
    mon = Monitor(case, tmp)
    mon.known_keys = tuple(known_keys)
    res = dict(status='ok')
    cwd = os.getcwd()
    t0 = time.time()
    try:
        os.chdir(tmp)
        mod.run(case, mon)
    except Violation as ex:
        res = dict(status='violation', what=ex.what, data=ex.data, key=ex.key)
    except MemoryError:
        res = dict(status='inconclusive', what='MemoryError')
    except OSError as ex:
        if ex.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE):
            res = dict(status='inconclusive', what=repr(ex))
        else:
            res = _exc_result(ex)
    except Exception as ex:
        res = _exc_result(ex)
    finally:
        hooks.reset()
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res.update(
        counts=dict(mon.counts),
        states=list(mon.states),
        known=mon.known,
        trivial=mon.trivial,
        wall=time.time() - t0,
    )
    return res


def _exc_result(ex):
    chain = []
    e = ex
    while e is not None and len(chain) < 5:
        chain.append(f'{type(e).__name__}: {e}'[:300])
        e = e.__cause__ or e.__context__
    tb = traceback.format_exc().splitlines()[-40:]
    return dict(
        status='violation',
        what=f'unexpected exception on a valid input: {chain[0]}',
        data=dict(chain=chain, traceback=tb),
        key=None,
    )


def load_known(prop):
    """Keys of known findings of a property.  Lines: 'known: property=<id> key=<key> <text>'."""
    keys = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f'known: property={prop} '):
                rest = line.split(' ', 2)[2]
                key = rest.split(' ')[0].split('=', 1)[1]
                keys[key] = rest.split(' ', 1)[1] if ' ' in rest else ''
    return keys


def _cpu(pid):
    try:
        f = Path(f'/proc/{pid}/stat').read_text().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return None


class Pool:
    """Process pool with a watchdog; a worker that dies or hangs is replaced."""

    def __init__(self, mod_name, n, known_keys, timeout):
        self.mod_name, self.n, self.known_keys, self.timeout = mod_name, n, known_keys, timeout
        self.ctx = mp.get_context('spawn')
        self.workers = {}

    def _spawn(self):
        inq, outq = self.ctx.SimpleQueue(), self.ctx.Queue()
        p = self.ctx.Process(
            target=_worker, args=(self.mod_name, inq, outq, self.known_keys), daemon=True
        )
        p.start()
        w = dict(p=p, inq=inq, outq=outq, idx=None, t=None, cpu=None)
        self.workers[p.pid] = w
        return w

    def _kill(self, w):
        self.workers.pop(w['p'].pid, None)
        try:
            w['p'].kill()
            w['p'].join(10)
        except Exception:
            pass

    def run(self, cases, deadline, on_result):
        todo = list(range(len(cases)))[::-1]
        tries = Counter()
        for _ in range(min(self.n, len(cases))):
            self._spawn()
        pending = 0
        stop = False
        try:
            while True:
                for w in list(self.workers.values()):
                    if w['idx'] is None and todo and not stop:
                        if time.time() > deadline:
                            stop = True
                            break
                        idx = todo.pop()
                        w.update(idx=idx, t=time.time(), cpu=[], started=False)
                        w['inq'].put((idx, cases[idx]))
                        pending += 1
                if pending == 0 and (stop or not todo):
                    break
                time.sleep(0.01)
                for w in list(self.workers.values()):
                    if w['idx'] is None:
                        continue
                    got = False
                    try:
                        while True:
                            kind, pid, idx, res = w['outq'].get_nowait()
                            if kind == 'start':
                                w['started'], w['t'] = True, time.time()
                            else:
                                got = True
                                w['idx'] = None
                                pending -= 1
                                if on_result(idx, res):
                                    stop = True
                                    todo.clear()
                    except queue.Empty:
                        pass
                    if got or w['idx'] is None:
                        continue
                    idx = w['idx']
                    if not w['p'].is_alive():
                        # give a result still in the pipe a chance
                        try:
                            while True:
                                kind, pid, i2, res = w['outq'].get(timeout=0.5)
                                if kind == 'done':
                                    got = True
                                    break
                        except queue.Empty:
                            pass
                        code = w['p'].exitcode
                        self._kill(w)
                        pending -= 1
                        if got:
                            stop = on_result(idx, res) or stop
                        else:
                            tries[idx] += 1
                            if tries[idx] < 2:
                                todo.append(idx)
                            else:
                                st = 'inconclusive' if code == -9 else 'violation'
                                stop = (
                                    on_result(
                                        idx,
                                        dict(
                                            status=st,
                                            what=f'process died twice (exit code {code})',
                                        ),
                                    )
                                    or stop
                                )
                        if todo and not stop:
                            self._spawn()
                        continue
                    now = time.time()
                    limit = self.timeout if w['started'] else self.timeout + 120
                    if now - w['t'] > limit - 20:
                        if not w['cpu'] or now - w['cpu'][-1][0] > 1:
                            w['cpu'].append((now, _cpu(w['p'].pid)))
                    if now - w['t'] > limit:
                        cpu = [c for _, c in w['cpu'] if c is not None]
                        idle = len(cpu) > 2 and cpu[-1] - cpu[0] < 0.5
                        self._kill(w)
                        pending -= 1
                        tries[idx] += 1
                        if tries[idx] < 2:
                            todo.append(idx)
                            self._spawn()
                        else:
                            st = 'violation' if idle else 'inconclusive'
                            what = 'deadlock: no progress and no CPU use' if idle else 'watchdog'
                            stop = on_result(idx, dict(status=st, what=what)) or stop
                            if todo and not stop:
                                self._spawn()
                if stop:
                    todo.clear()
        finally:
            for w in list(self.workers.values()):
                try:
                    w['inq'].put(None)
                except Exception:
                    pass
            for w in list(self.workers.values()):
                w['p'].join(0.5)
                self._kill(w)


def main(argv):
    import random

    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    tier = 'thorough' if tier == 'thorough' else 'quick'
    mod_name = prop.lower()
    env.use_repo()
    mod = importlib.import_module(f'checks.{mod_name}')
    known = load_known(prop)
    t0 = time.time()

    if '--replay' in argv:
        case = json.loads(Path(argv[argv.index('--replay') + 1]).read_text())
        case = case.get('case', case)
        cases = [case]
    else:
        rng = random.Random(f'{prop}-{seed}-{tier}')
        cases = mod.cases(rng, tier)
        cases = json.loads(json.dumps(cases))

    nproc = int(os.environ.get('VERIF_PROCS', getattr(mod, 'PROCS', 8)))
    timeout = getattr(mod, 'TIMEOUT', 240)
    budget = dict(quick=600, thorough=5400)[tier]
    budget = float(os.environ.get('VERIF_BUDGET', budget))
    counts, states = Counter(), set()
    bad, incon, known_seen = [], [], {}
    distinct, evaluated = set(), 0
    samples = []

    def on_result(idx, res):
        nonlocal evaluated
        evaluated += 1
        counts.update(res.get('counts', {}))
        states.update(res.get('states', []))
        for k, what in res.get('known', []):
            known_seen.setdefault(k, what)
        if res['status'] == 'ok':
            if res.get('trivial') is None:
                distinct.add(json.dumps(cases[idx], sort_keys=True))
            if len(samples) < 4 and (idx % 7 == 0 or idx < 2):
                samples.append(
                    dict(case=cases[idx], observed=res.get('counts', {}), wall_s=round(res['wall'], 3))
                )
        elif res['status'] == 'violation':
            bad.append((idx, res))
            return len(bad) >= (1 if os.environ.get("VERIF_FIRST") else 5)
        else:
            incon.append((idx, res))
            return len(incon) >= 5
        return False

    Pool(mod_name, nproc, list(known), timeout).run(cases, t0 + budget, on_result)

    need = getattr(mod, 'NEED', [])
    missing = [n for n in need if not counts.get(n)] if '--replay' not in argv else []
    wall = time.time() - t0
    EVIDENCE.mkdir(exist_ok=True)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evaluated,
            distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=samples or [dict(case=cases[0])],
            cases_generated=len(cases),
            oracle_evaluations=counts.get('oracle_evaluations', 0),
            monitor_events={k: v for k, v in sorted(counts.items()) if k != 'oracle_evaluations'},
            distinct_states_observed=len(states),
            inconclusive_cases=len(incon),
        ),
        assumptions=getattr(mod, 'ASSUME', []),
        wall_s=round(wall, 2),
        violations=len(bad),
    )
    (EVIDENCE / f'{prop}.json').write_text(json.dumps(jsonable(ev), indent=1))

    for k in sorted(known_seen):
        print(f'KNOWN-FINDING: property={prop} {known[k] or known_seen[k]}')
    rc = 0
    for n, (idx, res) in enumerate(sorted(bad, key=lambda b: b[0])[:5]):
        rp = EVIDENCE / f'replay_{prop}_{n}.json'
        rp.write_text(
            json.dumps(
                jsonable(
                    dict(
                        property=prop,
                        what=res['what'],
                        data=res.get('data'),
                        case=cases[idx],
                        replay=f'{env.PYTHON} -B /verif/run_check.py {prop} --replay {rp}',
                    )
                ),
                indent=1,
            )
        )
        print(f'VIOLATION property={prop} replay={rp}')
        print(f'  {res["what"]} :: {json.dumps(jsonable(res.get("data", {})))[:1500]}')
        rc = 1
    if rc == 0 and (missing or incon):
        print(f'INCONCLUSIVE property={prop} missing={missing} incon={[r["what"] for _, r in incon]}')
        rc = 3
    if rc == 0:
        print(
            f'HELD property={prop} tier={tier} seed={seed} executions={evaluated}/{len(cases)} '
            f'oracle_evaluations={counts.get("oracle_evaluations", 0)} '
            f'states={len(states)} wall={wall:.1f}s'
        )
    return rc
