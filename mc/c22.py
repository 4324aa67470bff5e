"""C22: concurrent calls do not disturb one another.  Every schedule within a preemption bound, on real threads."""
import functools
import numpy as np
from . import core, sched
from .core import Family, Recorder, Violation, pmap
from .common import *
from .calls import alphabet, freeze, differ
from .c21 import forked, preload, FLOOR

ASSUMPTIONS = ["scheduling points are the byte-code instructions of /repo's own frames that can touch memory shared between threads; numpy, spinsfast and compiled kernels (which hold the GIL; kernels compiled with nogil=True "
               "are run as Python code so that they are interleaved too) are executed between two points",
               "sf.error_on_bad_indices and the ell_max tables are documented process-wide settings and are not switched here; objects with a documented reusable workspace are not shared between threads",
               "at most 1 preemption (2 in the families `twice` and `three`)"]


def interpret_nogil_kernels():
    """Replace every kernel compiled with nogil=True by its Python source (in this process)"""
    import sys
    from numba.core.dispatcher import Dispatcher
    n = 0
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "spherical_functions" and mod is not None:
            for k, v in list(vars(mod).items()):
                if isinstance(v, Dispatcher) and v.targetoptions.get("nogil"):
                    setattr(mod, k, v.py_func)
                    n += 1
    return n


def families(tier):
    thorough = tier != "quick"
    C = [c for c in alphabet() if c.group != "error_on_bad_indices"]
    byname = {c.name: c for c in C}
    names = [c.name for c in C]
    groups, builders = {}, {}
    for c in C:
        groups.setdefault(c.group, []).append(c.name)
        builders.setdefault(id(c.args), []).append(c.name)
    light = [c.name for c in C if c.light]
    first = [P[0] for P in groups.values()]

    @functools.lru_cache(None)
    def refs():
        pmap(lambda n: (byname[n].run(), None)[1], names)       # compile everything; fills the cache on disk
        preload()
        return dict(zip(names, pmap(lambda n: forked(lambda: freeze(byname[n].run())), names)))

    @functools.lru_cache(None)
    def prepared():
        """once per worker: everything loaded and called"""
        k = interpret_nogil_kernels()
        for c in C:
            c.run()
        return k

    def tolof(n):
        return max(FLOOR, byname[n].tol, 1e-13 if prepared() else 0)

    def judge(ns, args, before, outs, rec, tol, what):
        for i, n in enumerate(ns):
            kind, v = outs[i]
            if kind == "exception":
                raise Violation(f"{what()}: thread {i}, {n}: raised {type(v).__name__}: {str(v)[:200]}")
            rec.comparisons += 2
            d = differ(freeze(v), refs()[n], tol[i])
            if d:
                raise Violation(f"{what()}: thread {i}, {n}: {d}")
            d = differ(freeze(args[i]), before[i])
            if d:
                raise Violation(f"{what()}: the arguments of {n} are left modified: {d}")

    def schedule(ns, program, shared, lines, rec, tol):
        """program: list of (thread, point or None)"""
        if shared:
            a = byname[ns[0]].args()
            args = [a] * len(ns)
        else:
            args = [byname[n].args() for n in ns]
        before = [freeze(a) for a in args]
        what = lambda: f"schedule {program} ({'lines' if lines else 'instructions'}) of {list(ns)}{' on shared arguments' if shared else ''}"
        try:
            outs, blocked = sched.execute([lambda n=n, a=a: byname[n].run(a) for n, a in zip(ns, args)], program, lines)
        except sched.Deadlock as e:
            raise Violation(f"{what()}: {e}")
        rec.tr(len(program)); rec.st(); rec.trace()
        if blocked:
            rec.outcome("blocked, resumed")
        judge(ns, args, before, outs, rec, tol, what)
        rec.outcome(outs[0][0])

    @functools.lru_cache(None)
    def points(n, lines):
        a = byname[n].args()
        return sched.count(lambda: byname[n].run(a), lines)[0]

    @functools.lru_cache(None)
    def partner(x):
        """another call of the group, preferably with a result of the same form but other values (so that mixed-up data shows)"""
        P = [y for y in groups[byname[x].group] if y != x]
        i = names.index(x)

        def rank(y):
            a, b = refs()[x], refs()[y]
            same_form = a[:-1] == b[:-1] if a[0] == b[0] == "array" else len(a) == len(b)
            return (b[0] == "tuple", differ(a, b, 1e-6) is None, not same_form, (names.index(y) - i) % len(names))
        return min(P, key=rank) if P else x

    def run_once(item, rec):
        """x preempted once, at every point, by each of the calls of a pool (same group, light calls, ...)"""
        x, pool, shared, lines = item
        prepared()
        tx = tolof(x)
        P = {"group": lambda: groups[byname[x].group], "light": lambda: light, "args": lambda: builders[id(byname[x].args)], "self": lambda: [x], "partner": lambda: [partner(x)], "all": lambda: names}[pool]()
        n = points(x, lines)
        for y in P:
            t = (tx, tolof(y))
            for k in range(n):
                schedule((x, y), [(0, k), (1, None), (0, None)], shared, lines, rec, t)
            if n == 0:
                schedule((x, y), [(0, None), (1, None)], shared, lines, rec, t)

    def run_twice(item, rec):
        """x runs to point i, y to point j, x to its end, y to its end"""
        x, y, shared, lines, part, parts = item
        prepared()
        if y == "partner":
            y = partner(x)
        t = (tolof(x), tolof(y))
        for i in range(part, points(x, lines), parts):
            for j in range(points(y, lines)):
                schedule((x, y), [(0, i), (1, j), (0, None), (1, None)], shared, lines, rec, t)

    def run_back(item, rec):
        """x to point i, y to its end, x to point i2 > i, y' (another call in a third thread) to its end, x to its end"""
        x, y, z, shared, lines, part, parts = item
        prepared()
        y, z = (partner(x) if n == 'partner' else n for n in (y, z))
        t = (tolof(x), tolof(y), tolof(z))
        n = points(x, lines)
        for i in range(part, n, parts):
            for j in range(i + 1, n):
                schedule((x, y, z), [(0, i), (1, None), (0, j), (2, None), (0, None)], shared, lines, rec, t)

    def run_cold(item, rec):
        """the first calls ever made in the process: every schedule in a fresh process"""
        x, lo, parts = item
        y = partner(x)
        n = forked(lambda: points(x, False))
        t = (max(FLOOR, byname[x].tol),) * 2
        for k in range(lo, n, parts):
            def body():
                rr = Recorder()
                schedule((x, y), [(0, k), (1, None), (0, None)], False, False, rr, t)
                return rr
            rec.merge(forked(body))
        rec.st()

    def warm():
        refs()

    sharing = [x for x in names if len(builders[id(byname[x].args)]) > 1 and (thorough or not x.endswith((": s=1, L=2, (2,)", ": truncator", ": nearly")))]
    PARTS = 8
    small = [x for x in first if not x.startswith("HCalculator") and x.split(":")[0] not in ("Modes.Lz", "Modes.Lplus", "Modes.Lminus", "Modes.Rplus", "Modes.Rminus", "Modes.eth", "Modes.ethbar", "Modes.Lsquared", "Modes.Rsquared", "Modes.np.conj")]
    fams = [
        Family("twice", [[x, "partner", False, True, k, PARTS] for x in (first if thorough else small) for k in range(PARTS)], run_twice, warm, "two preemptions at all pairs of source lines, two calls of the same function with different arguments"),
        Family("shared arguments", [[x, "args", True, not thorough] for x in sharing], run_once, warm, "every call of a Modes or Grid method preempted at every point by every such call on the same object"),
        Family("shared with itself", [[x, "self", True, False] for x in names], run_once, warm, "every call preempted at every instruction by itself on the same argument objects"),
        Family("same function", [[x, "partner", False, False] for x in names], run_once, warm, "every call preempted at every instruction by another call of the same function with other arguments"),
        Family("argument variants", [[x, "group", False, not thorough] for x in names], run_once, warm, "every call preempted at every point by every call of the same group of argument variants"),
        Family("different functions", [[x, "light", False, not thorough] for x in light], run_once, warm, f"all ordered pairs of {len(light)} calls of different functions, preempted at every point"),
        Family("first calls", [[x, lo, 4] for x in (first if thorough else light) for lo in range(4)], run_cold, warm, "both calls are the first ones in the process: every preemption point, each schedule in a fresh process"),
    ]
    if thorough:
        fams += [
            Family("twice, shared", [[x, x, True, True, k, PARTS] for x in first for k in range(PARTS)], run_twice, warm, "two preemptions at all pairs of source lines, same argument objects"),
            Family("twice, instructions", [[x, "partner", False, False, k, PARTS] for x in small if x.split(":")[0] in ("Wigner_D_element", "Wigner_D_matrices", "SWSH", "SWSH_grid", "LM_range", "LMpM_range", "LMpM_range_half_integer", "LM_deduce_ell_max", "theta_phi", "complex_powers", "multiply", "Modes", "Modes.grid", "Modes.evaluate", "Modes.times", "Grid.modes", "Grid.square") for k in range(PARTS)], run_twice, warm, "two preemptions at all pairs of instructions"),
            Family("three", [[x, "partner", "partner", False, True, k, PARTS] for x in first for k in range(PARTS)], run_back, warm, "three threads: x preempted at all pairs of lines by two other complete calls"),
            Family("any pair", [[x, "all", False, True] for x in names], run_once, warm, "all ordered pairs of the alphabet, preempted at every line"),
        ]
    return fams
