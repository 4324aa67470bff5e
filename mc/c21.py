"""C21: results depend on the arguments only.  Call histories explored in fresh forks of a process that has made no call."""
import functools
import os
import pickle
import numpy as np
from . import core
from .core import Family, Recorder, Violation, HarnessError, pmap
from .common import *
from .calls import alphabet, freeze, differ, scribble, arrays_in

ASSUMPTIONS = ["results are compared bit for bit up to 2e-15 of the largest value (1e-13 where FFTs or BLAS are involved)",
               "objects whose workspace is documented to be reused are covered by C08 and C17"]
FLOOR = 2e-15


def forked(fn):
    """fn() in a fresh fork; its (picklable) value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:
                import traceback
                out = ("error", f"{type(e).__name__}: {e} | " + " | ".join(traceback.format_exc().strip().splitlines()[-5:]))
            data = pickle.dumps(out, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died during the history")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise Violation("unexpected " + val)
    return val


def preload():
    """Compile numba's wrapper of Wigner3jCalculator once, before forking (1.6 s, not cached on disk).  Compiled class methods keep
    no state outside of their object, so this is not a step of a history; if it is not a compiled class it is left alone."""
    try:
        from numba.experimental.jitclass.base import JitClassType
        if isinstance(sf().Wigner3jCalculator, JitClassType):
            sf().Wigner3jCalculator(1, 1).calculate(1, 1, 0, 0)
    except Exception:
        pass


def families(tier):
    thorough = tier != "quick"
    C = alphabet()
    byname = {c.name: c for c in C}
    names = [c.name for c in C]
    groups = {}
    for c in C:
        groups.setdefault(c.group, []).append(c.name)
    light = [c.name for c in C if c.light]

    def perturb(args, which=None):
        """overwrite the contents of array arguments (all, or one) with other valid contents, in place; False if there is none"""
        done = False
        for k, a in enumerate(args):
            if which in (None, k) and isinstance(a, np.ndarray) and a.size > 1 and a.flags.writeable:
                v = a.view(np.ndarray)
                if type(a).__name__ in ("Modes", "Grid"):
                    v *= 2
                else:
                    flat = v.reshape(-1) if v.ndim == 1 else v
                    flat[...] = flat[::-1].copy()
                done = True
        return done

    @functools.lru_cache(None)
    def refs():
        # compile everything once, in child processes, so that the numba cache on disk is filled
        pmap(lambda n: (byname[n].run(), None)[1], names)
        preload()

        def one(n):
            def fresh():
                args = byname[n].args()
                r = freeze(byname[n].run(args))
                return r

            def fresh2(which):
                args = byname[n].args()
                if not perturb(args, which):
                    return None
                return freeze(byname[n].run(args))
            arrays = [k for k, a in enumerate(byname[n].args()) if isinstance(a, np.ndarray)]
            return n, forked(fresh), {w: forked(lambda: fresh2(w)) for w in ([None] if arrays else []) + (arrays if len(arrays) > 1 else [])}
        out = pmap(one, names)
        return {n: r for n, r, s in out}, {n: s for n, r, s in out}

    def warm():
        refs()

    def tolof(n):
        return max(FLOOR, byname[n].tol)

    def do(n, rec, hist):
        c = byname[n]
        args = c.args()
        before = freeze(args)
        r = c.run(args)
        rec.tr()
        rec.comparisons += 2
        d = differ(freeze(r), refs()[0][n], tolof(n))
        if d:
            raise Violation(f"{n}: after {hist()}: {d}")
        d = differ(freeze(args), before)
        if d:
            raise Violation(f"{n} modified its arguments: {d}")
        return r

    def unaltered(r, n, rec, hist):
        rec.comparisons += 1
        d = differ(freeze(r), refs()[0][n], tolof(n))
        if d:
            raise Violation(f"the result already returned by {n} was altered by a later call, {hist()}: {d}")

    def run_pairs(item, rec):
        x = item

        def body():
            rr = Recorder()
            rx = do(x, rr, lambda: "nothing")
            scribble(rx)
            for y in names:
                h = lambda: f"[..., {x}, {y}]"
                rx = do(x, rr, h)
                ry = do(y, rr, h)
                unaltered(rx, x, rr, h)
                scribble(ry)
                rx2 = do(x, rr, h)      # x after y whose result was overwritten
                unaltered(rx, x, rr, h)
                scribble(rx)
                unaltered(rx2, x, rr, lambda: f"overwriting another result of {x}")
                ry2 = do(y, rr, h)
                scribble(rx2)
                scribble(ry2)
                rr.st(2); rr.trace(2)
            return rr
        rec.merge(forked(body))

    def run_triples(item, rec):
        x, pool = item
        P = groups[pool] if pool in groups else light

        def body():
            rr = Recorder()
            for y in P:
                for z in P:
                    h = lambda: f"[..., {x}, {y}, {z}]"
                    rx = do(x, rr, h)
                    ry = do(y, rr, h)
                    rz = do(z, rr, h)
                    for n, r in ((x, rx), (y, ry), (z, rz)):
                        unaltered(r, n, rr, h)
                    for r in (ry, rx, rz):
                        scribble(r)
                    rr.st(); rr.trace()
            return rr
        rec.merge(forked(body))

    def run_mutate(item, rec):
        """the same argument objects with new contents"""
        n = item
        if not any(w is not None for w in refs()[1][n].values()):
            rec.st()
            return

        def body(which, want):
            rr = Recorder()
            c = byname[n]
            args = c.args()
            r1 = c.run(args)
            f1 = freeze(r1)
            aliased = any(np.shares_memory(a, b) for a in arrays_in(r1) for b in arrays_in(list(args)))
            rr.check(differ(f1, refs()[0][n], tolof(n)) is None, f"{n}: first call")
            perturb(args, which)
            r2 = c.run(args)
            rr.tr(2); rr.st(); rr.trace()
            d = differ(freeze(r2), want, tolof(n))
            if d:
                raise Violation(f"{n}: called again with the same argument objects, {'all' if which is None else f'the one at position {which}'} holding new values: {d}")
            if not aliased:
                d = differ(freeze(r1), f1)
                rr.comparisons += 1
                if d:
                    raise Violation(f"{n}: earlier result altered by a later call: {d}")
            return rr
        for which, want in refs()[1][n].items():
            if want is not None:
                rec.merge(forked(lambda: body(which, want)))

    def run_fresh(item, rec):
        """each call as the first, and repeated many times with the results overwritten"""
        n = item

        def body():
            rr = Recorder()
            kept = []
            for k in range(12):
                r = do(n, rr, lambda: f"{k} calls of itself")
                kept.append(r)
                if k % 3 == 2:
                    scribble(kept.pop(0))
                for q_ in kept:
                    unaltered(q_, n, rr, lambda: f"{k} calls of itself")
                rr.st(); rr.trace()
            return rr
        rec.merge(forked(body))

    trip = [[x, g] for g, P in groups.items() if len(P) > 1 for x in P] + [[x, "light"] for x in light]
    fams = [
        Family("repeated", names, run_fresh, warm, note=f"{len(names)} calls, each 12 times in a fresh process"),
        Family("same_objects", names, run_mutate, note="same argument objects with new contents"),
        Family("triples", trip, run_triples, note=f"all triples within each of {len(groups)} groups of argument variants, and over {len(light)} calls of different functions"),
        Family("pairs", names, run_pairs, note=f"all ordered pairs of {len(names)} calls, each first call in a fresh process"),
    ]
    return fams
