"""Explorer core: exhaustive, parallel execution of finite families of cases on the real code.

A check is a list of Family objects.  A family is a *finite list* of JSON-able items (the bounded space: inputs,
operation sequences, schedules, ...) and a function `run(item, rec)` that executes the real implementation on that
item and compares every observation with the reference model.  The explorer executes all items of all families --
nothing is sampled -- and merges the counters.
"""
import ctypes
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
import traceback

import numpy as np

NPROC = max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 240.0     # seconds a single item may take (they take milliseconds to a few seconds)
MAX_FAILS = 25


class Violation(Exception):
    """Raised by a case as soon as the implementation contradicts the property"""


class Family:
    def __init__(self, name, items, run, warm=None, note=""):
        self.name, self.items, self.run, self.warm, self.note = name, list(items), run, warm, note


class Recorder:
    """Counters of one worker"""

    def __init__(self):
        self.states = 0          # distinct states counted by construction
        self.state_keys = set()  # distinct states counted by key
        self.transitions = 0     # calls of the real implementation (steps)
        self.traces = 0          # complete traces / cases whose observations were compared with the model
        self.comparisons = 0     # individual observations compared
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.known = []
        self.maxerr = 0.0        # largest (error / tolerance) seen
        self.maxerr_at = ""
        self.seconds = {}        # worker seconds spent per family

    # -- counting
    def st(self, n=1):
        self.states += n

    def key(self, k):
        self.state_keys.add(hash(k))

    def tr(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(o)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -- judging
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, tol, msg):
        """|got - want| <= tol everywhere, same shape, finite"""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{msg() if callable(msg) else msg}: shape {got.shape}, expected {want.shape}")
        self.comparisons += got.size
        if got.size == 0:
            return
        err = np.abs(got - want)
        tol = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
        bad = ~(err <= tol)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err / np.maximum(tol, 1e-300), np.inf))),
                                 err.shape)
            raise Violation(f"{msg() if callable(msg) else msg}: at index {tuple(int(k) for k in i)} got {got[i]!r}, "
                            f"expected {want[i]!r} (difference {err[i]:.3g}, allowed {tol[i]:.3g}; "
                            f"{int(bad.sum())} of {err.size} values differ)")
        with np.errstate(divide='ignore', invalid='ignore'):
            q = float(np.nanmax(np.where(tol > 0, err / tol, 0.0)))
        if q > self.maxerr:
            self.maxerr = q
            self.maxerr_at = str(msg() if callable(msg) else msg)[:200]

    def raises(self, types, f, msg):
        """f() must raise one of types"""
        self.comparisons += 1
        try:
            v = f()
        except types as e:
            return e
        except BaseException as e:
            raise Violation(f"{msg}: raised {type(e).__name__}({str(e)[:120]}) instead of "
                            f"{'/'.join(t.__name__ for t in (types if isinstance(types, tuple) else (types,)))}")
        raise Violation(f"{msg}: returned {short(v)} instead of raising an error")

    def merge(self, o):
        self.states += o.states
        self.state_keys |= o.state_keys
        self.transitions += o.transitions
        self.traces += o.traces
        self.comparisons += o.comparisons
        self.outcomes |= o.outcomes
        self.samples += o.samples
        self.fails += o.fails
        self.known += o.known
        for f, t in o.seconds.items():
            self.seconds[f] = self.seconds.get(f, 0.0) + t
        if o.maxerr > self.maxerr:
            self.maxerr, self.maxerr_at = o.maxerr, o.maxerr_at


def short(v, n=160):
    s = repr(v).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


class HarnessError(Exception):
    pass


def _execute(fam, item, rec):
    try:
        fam.run(item, rec)
        return None
    except Violation as e:
        return str(e)
    except (MemoryError, KeyboardInterrupt, SystemExit, HarnessError):
        raise
    except BaseException as e:
        tb = traceback.format_exc().strip().splitlines()
        return f"unexpected {type(e).__name__}: {str(e)[:300]} | " + " | ".join(t.strip() for t in tb[-6:])


def _worker(families, order, counter, current, started, stop, wid, conn):
    rec = Recorder()
    err = None
    try:
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(order):
                break
            f, k = order[i]
            started[wid] = time.monotonic()
            current[wid] = i
            msg = _execute(families[f], families[f].items[k], rec)
            current[wid] = -1
            rec.seconds[f] = rec.seconds.get(f, 0.0) + time.monotonic() - started[wid]
            if msg is not None:
                rec.fails.append((f, k, msg))
                if len(rec.fails) >= MAX_FAILS:
                    stop.value = 1
    except BaseException:
        err = traceback.format_exc()
    data = pickle.dumps((rec, err))
    conn.send_bytes(data)
    conn.close()


def pmap(fn, items):
    """[fn(i) for i in items], forked over the cores (fn may be a closure); exceptions are re-raised"""
    items = list(items)
    n = min(NPROC, max(1, len(items)))
    ctx = mp.get_context("fork")
    conns, procs = [], []

    def work(w, conn):
        try:
            for k in range(w, len(items), n):
                conn.send_bytes(pickle.dumps(("ok", fn(items[k])), protocol=5))
        except BaseException as e:
            conn.send_bytes(pickle.dumps(("err", f"{type(e).__name__}: {e}")))
        conn.close()
    for w in range(n):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=work, args=(w, s), daemon=True)
        p.start()
        s.close()
        conns.append(r)
        procs.append(p)
    res = [None] * len(items)
    todo = {conns[w]: list(range(w, len(items), n)) for w in range(n)}
    err = None
    while todo:
        for c in mp.connection.wait(list(todo)):
            try:
                kind, v = pickle.loads(c.recv_bytes())
            except EOFError:
                kind, v = "err", "worker died"
            if kind == "ok":
                res[todo[c].pop(0)] = v
            else:
                err = v
            if kind != "ok" or not todo[c]:
                del todo[c]
    for p in procs:
        p.join()
    if err:
        raise RuntimeError(err)
    return res


def explore(families, deadline, log=print):
    """Run every item of every family.  Returns (Recorder, per-family info, error or None)"""
    for f, fam in enumerate(families):
        if fam.warm is not None:
            try:
                fam.warm()
            except (MemoryError, KeyboardInterrupt, SystemExit, HarnessError):
                raise
            except BaseException as e:
                # the implementation failed on inputs it has to handle
                rec = Recorder()
                tb = traceback.format_exc().strip().splitlines()
                rec.fails.append((f, 0, f"while preparing the family: {type(e).__name__}: {str(e)[:300]} | "
                                  + " | ".join(t.strip() for t in tb[-6:])))
                return rec, 0, sum(len(x.items) for x in families), None
    order = [(f, k) for f, fam in enumerate(families) for k in range(len(fam.items))]
    # expensive families were listed first by the checks; keep order (dynamic scheduling balances the load)
    ctx = mp.get_context("fork")
    counter = ctx.Value(ctypes.c_long, 0)
    stop = ctx.Value(ctypes.c_int, 0)
    n = min(NPROC, max(1, len(order)))
    current = ctx.Array(ctypes.c_long, [-1] * n, lock=False)
    started = ctx.Array(ctypes.c_double, [0.0] * n, lock=False)
    procs, conns = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(families, order, counter, current, started, stop, w, s), daemon=True)
        p.start()
        s.close()
        procs.append(p)
        conns.append(r)
    total = Recorder()
    error = None
    pending = set(range(n))
    while pending:
        ready = mp.connection.wait([conns[w] for w in pending], timeout=1.0)
        for c in ready:
            w = conns.index(c)
            try:
                rec, err = pickle.loads(c.recv_bytes())
                total.merge(rec)
                if err:
                    error = (error or "") + err
                    stop.value = 1
            except EOFError:
                procs[w].join(5)
                i = current[w]
                if i >= 0:
                    f, k = order[i]
                    total.fails.append((f, k, f"the interpreter died (exit code {procs[w].exitcode}) while executing this case"))
                else:
                    error = (error or "") + f"worker {w} died (exit code {procs[w].exitcode}) outside of any case\n"
                stop.value = 1
            pending.discard(w)
        now = time.monotonic()
        for w in list(pending):
            i = current[w]
            if i >= 0 and now - started[w] > CASE_TIMEOUT:
                f, k = order[i]
                total.fails.append((f, k, f"did not terminate within {CASE_TIMEOUT:.0f} s"))
                stop.value = 1
                procs[w].kill()
                pending.discard(w)
        if now > deadline:
            if not total.fails:
                error = (error or "") + "time budget exhausted before the space was covered\n"
            for w in list(pending):
                procs[w].kill()
            break
    for p in procs:
        p.join(1)
        if p.is_alive():
            p.kill()
    done = min(counter.value, len(order))
    return total, done, len(order), error
