"""C25: the compiled program against the same program executed by the Python interpreter (NUMBA_DISABLE_JIT=1), call by call.

python -m mc.c25 BATCH OUT evaluates a batch of calls in the mode selected by the environment."""
import operator
import os
import pickle
import subprocess
import sys
import tempfile
import numpy as np
from .core import Family, HarnessError
from .common import *

ASSUMPTIONS = ["values are compared up to 1e-11 of the largest value of the result: compiled code may order or fuse floating-point operations differently",
               "both modes use numba's package; running with numba absent is not supported by the code",
               "quaternion_angles is not called at the poles, where one of its angles is undefined"]
TOL = 1e-11


def halves(lo, hi):
    return [t / 2 if t % 2 else t // 2 for t in range(lo, hi + 1)]


def build(thorough):
    """{batch: [(name, fn, args), ...]}; nothing is evaluated here"""
    S = sf()
    import quaternion as Q
    import spherical_functions.recursions as RE
    import spherical_functions.WignerD.WignerDRecursion as WR
    from .calls import alphabet
    B = {}
    rots = [q(c) for c in rotor_alphabet(0)]
    arr = Q.as_quat_array(np.array([Q.as_float_array(r) for r in rots]))
    L = 16 if thorough else 8

    def put(b, name, fn, *args):
        B.setdefault(b, []).append((name, fn, args))

    C = alphabet()
    for k, c in enumerate(C):
        put(f"calls {k % 2}", c.name, lambda c=c: c.run())
    # ---- indices and coefficients
    N = 9
    for a in range(N):
        for b in range(a, N):
            for f in ("LM_range", "LMpM_range", "LM_total_size", "LMpM_total_size"):
                put("indices", f"{f}({a},{b})", getattr(S, f), a, b)
            put("indices", f"LM_index, {a}..{b}", lambda a, b: [S.LM_index(l, m, a) for l in range(a, b + 1) for m in range(-l, l + 1)], a, b)
            put("indices", f"LMpM_index, {a}..{b}", lambda a, b: [S.LMpM_index(l, p, m, a) for l in range(a, min(b, a + 2) + 1) for p in range(-l, l + 1) for m in range(-l, l + 1)], a, b)
    for a in halves(0, 9):
        for b in halves(int(2 * a), 9):
            put("indices", f"LMpM_range_half_integer({a},{b})", S.LMpM_range_half_integer, a, b)
    for n in range(0, 90):
        for a in range(4):
            put("indices", f"LM_deduce_ell_max({n},{a})", S.LM_deduce_ell_max, n, a)
    for nt in range(1, 9):
        for nf in range(1, 9):
            put("indices", f"theta_phi({nt},{nf})", S.theta_phi, nt, nf)
    for l in halves(0, 24):
        ms = [l - k for k in range(int(2 * l) + 1)]
        put("coefficients", f"ladder_operator_coefficient({l}, .)", lambda l, ms: [S.ladder_operator_coefficient(l, m) for m in ms], l, ms)
        put("coefficients", f"Wigner_coefficient({l}, ., .)", lambda l, ms: [S.Wigner_coefficient(l, p, m) for p in ms for m in ms], l, ms)
    put("coefficients", "factorial", lambda: [S.factorial(n) for n in range(171)])
    put("coefficients", "binomial_coefficient", lambda: [S.binomial_coefficient(n, k) for n in range(65) for k in range(n + 1)])
    # ---- D
    for i, r in enumerate(rots):
        put(f"D {i % 2}", f"Wigner_D_matrices({r}, 0, {L})", S.Wigner_D_matrices, r, 0, L)
        put(f"D {i % 2}", f"Wigner_D_matrices({r}, 3, 5)", S.Wigner_D_matrices, r, 3, 5)
        for l in halves(0, 2 * L):
            put(f"D {i % 2}", f"Wigner_D_element({r}, {l})", S.Wigner_D_element, r, l)
        put(f"D {i % 2}", f"Wigner_D_element({r}, [.5,2.5,1.5])", S.Wigner_D_element, r, [.5, 2.5, 1.5])
    for l, p, m in [(0, 0, 0), (1, 0, -1), (2, 2, -1), (3, -3, 3), (2.5, .5, -1.5), (.5, -.5, .5), (5, 4, 0), (2, 3, 0), (2, 0, .5), (33, 0, 0), (-1, 0, 0), (32, 20, -11)]:
        put("D 0", f"Wigner_D_element(array, {l},{p},{m})", S.Wigner_D_element, arr, l, p, m)
        put("D 1", f"Wigner_D_element(0.1,0.2,0.3, {l},{p},{m})", S.Wigner_D_element, .1, .2, .3, l, p, m)

        def off(*a):
            S.error_on_bad_indices = False
            try:
                return S.Wigner_D_element(*a)
            finally:
                S.error_on_bad_indices = True
        put("D 1", f"Wigner_D_element(array, {l},{p},{m}), errors off", off, arr, l, p, m)
    # ---- SWSH
    lm = np.array([[l, m] for l in range(7) for m in range(-l, l + 1)])
    for s in range(-4, 5):
        for r in rots:
            put(f"SWSH {s % 2}", f"SWSH({r}, {s}, ell<=6)", S.SWSH, r, s, lm)
        put(f"SWSH {s % 2}", f"SWSH_grid(array, {s}, 6)", S.SWSH_grid, arr, s, 6)
        put(f"SWSH {s % 2}", f"SWSH_grid(array 2d, {s}, 3)", S.SWSH_grid, arr[:6].reshape(2, 3), s, 3)
        for l, m in [(0, 0), (1, -1), (3, 2), (8, -5), (2, 5)]:
            put(f"SWSH {s % 2}", f"SWSH(array, {s}, [{l},{m}])", S.SWSH, arr, s, [l, m])
    # ---- 3-j
    J = 8 if thorough else 4
    for j1 in range(J + 1):
        for j2 in range(J + 1):
            put("3-j", f"Wigner3j({j1},{j2}, . )", lambda j1, j2: [S.Wigner3j(j1, j2, j3, m1, m2, -m1 - m2) for j3 in range(J + 2) for m1 in range(-j1 - 1, j1 + 2) for m2 in range(-j2 - 1, j2 + 2)], j1, j2)
            put("3-j", f"clebsch_gordan({j1},{j2}, . )", lambda j1, j2: [S.clebsch_gordan(j1, m1, j2, m2, j3, m1 + m2) for j3 in range(J + 2) for m1 in range(-j1 - 1, j1 + 2) for m2 in range(-j2 - 1, j2 + 2)], j1, j2)

    def calc(n, d):
        c = S.Wigner3jCalculator(n + d, n + d)
        return [np.array(c.calculate(j2, j3, m2, m3), copy=True) for j2 in range(n + 1) for j3 in range(n + 1) for m2 in range(-j2, j2 + 1) for m3 in range(-j3, j3 + 1)]
    for n in range(J + 1):
        for d in (0, 3):
            put("3-j", f"Wigner3jCalculator({n + d},{n + d}), all calls up to {n}", calc, n, d)
    for a in [(30, 40, 50, 10, -25, 15), (20, 20, 0, 7, -7, 0), (60, 30, 31, -60, 29, 31), (25, 25, 50, 1, 2, -3)]:
        put("3-j", f"Wigner3j{a}", S.Wigner3j, *a)
    # ---- recursions
    cb = np.array([1.0, -1.0, 0.0, 1 - 1e-16, -1 + 1e-16, 1e-200, .3, -.7, .999999, -.9999, .5, 1e-8, np.cos(1e-4)])
    for nm, H in (("wedge", RE.HCalculator), ("full", WR.HCalculator)):
        def hc(n, c, s, H=H):
            h = H(n)
            r = [np.array(h(*([c] if s is None else [c, s])), copy=True)]
            return r + [np.array(h(c[::-1] if np.ndim(c) else -c), copy=True)]
        for n in range(L + 1):
            put(f"H {nm}", f"{nm} HCalculator({n})", hc, n, cb, None)
            put(f"H {nm}", f"{nm} HCalculator({n}) with sin", hc, n, cb, np.sqrt(1 - cb ** 2))
            put(f"H {nm}", f"{nm} HCalculator({n}) 2d", hc, n, cb[:12].reshape(3, 4), None)
            put(f"H {nm}", f"{nm} HCalculator({n}) scalar", hc, n, .37, None)
    zs = np.exp(1j * np.array([0, .1, 1e-9, 3, -3, 1.6, -1.5, 2.2, .8, 5e-324]))
    zs = np.concatenate([zs, [1, -1, 1j, -1j]])
    for M in list(range(9)) + [15, 16, 40]:
        put("H wedge", f"complex_powers(z, {M})", RE.complex_powers, zs, M)
        put("H wedge", f"complex_powers(z 2d, {M})", RE.complex_powers, zs.reshape(2, 7), M)
        put("H wedge", f"complex_powers(scalar, {M})", RE.complex_powers, zs[3], M)
    for n in range(7):
        put("H wedge", f"WignerHsize, .range, .index ({n})", lambda n: [RE.WignerHsize(p, n) for p in range(n + 1)] + [RE.WignerHrange(p, n) for p in range(n + 1)]
            + [RE.WignerHindex(k, p, m, n) for k in range(n + 1) for p in range(-k, k + 1) for m in range(-k, k + 1)], n)
    for r in rots:
        if (r.w ** 2 + r.z ** 2) * (r.x ** 2 + r.y ** 2) == 0:
            continue        # the angles are not defined
        put("H wedge", f"quaternion_angles({r})", RE.quaternion_angles, Q.as_float_array(r))
    # ---- mode arrays
    for s in range(-3, 4):
        for lo in range(3):
            for hi in range(max(lo, 2), 5):
                n = (hi + 1) ** 2 - lo ** 2
                for nm in ("eth_NP", "ethbar_NP", "eth_GHP", "ethbar_GHP", "ethbar_inverse_NP"):
                    put("modes 0", f"{nm}(modes {lo}..{hi}, {s})", getattr(S, nm), generic(n, .3), s, lo)
    for s1 in range(-2, 3):
        for s2 in range(-2, 3):
            for l1, h1, l2, h2 in [(0, 2, 0, 2), (1, 3, 0, 1), (2, 2, 1, 3), (0, 0, 0, 4)]:
                n1, n2 = (h1 + 1) ** 2 - l1 ** 2, (h2 + 1) ** 2 - l2 ** 2
                put("modes 0", f"multiply({l1}..{h1}, {s1}; {l2}..{h2}, {s2})", S.multiply, generic(n1, .1), l1, h1, s1, generic(n2, .2), l2, h2, s2)

    def modes(s, h, lead=(), seed=.2):
        return S.Modes(ref_zero_low(generic_array(lead + ((h + 1) ** 2,), seed), s), s)
    un = {"conjugate": lambda o: o.conjugate(), "Lz": lambda o: o.Lz(), "Lplus": lambda o: o.Lplus(), "Lminus": lambda o: o.Lminus(), "Lsquared": lambda o: o.Lsquared(),
          "Rz": lambda o: o.Rz(), "Rplus": lambda o: o.Rplus(), "Rminus": lambda o: o.Rminus(), "Rsquared": lambda o: o.Rsquared(), "eth": lambda o: o.eth, "ethbar": lambda o: o.ethbar,
          "norm": lambda o: o.norm(), "grid": lambda o: o.grid(), "grid and back": lambda o: o.grid(11, 12).modes(o.ell_max), "evaluate": lambda o: o.evaluate(arr[:5]), "square": lambda o: o * o, "real": lambda o: o.real, "imag": lambda o: o.imag}
    for s in range(-2, 3):
        for h in range(max(abs(s), 1), 5):
            for lead in [(), (2,)]:
                for nm, fn in un.items():
                    put("modes 1", f"Modes({s}, ell<={h}, {lead}).{nm}", lambda s, h, lead, fn: fn(modes(s, h, lead)), s, h, lead, fn)
                for s2 in (0, s):
                    for op in (operator.add, operator.sub, operator.mul):
                        put("modes 1", f"{op.__name__}(Modes({s}, ell<={h}, {lead}), Modes({s2}, ell<=2))", lambda s, h, lead, s2, op: op(modes(s, h, lead), modes(s2, 2, (), .7)), s, h, lead, s2, op)
    return B


def flat(x):
    """values of a result, as a nested list of plain arrays; ('raises',) if it is an error"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "raises":
        return ("raises", x[1])
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, (int, float, complex, np.number)) for v in x):
            return np.array(x)
        return [flat(v) for v in x]
    if isinstance(x, np.ndarray):
        v = x.view(np.ndarray)
        if v.dtype == np.dtype(np.quaternion):
            import quaternion
            v = quaternion.as_float_array(v)
        meta = [v.copy()]
        for a in ("s", "ell_min", "ell_max", "n_theta", "n_phi"):
            if type(x) is not np.ndarray and hasattr(x, a):
                meta.append(np.array(getattr(x, a)))
        return meta if len(meta) > 1 else meta[0]
    if isinstance(x, np.quaternion):
        return np.array([x.w, x.x, x.y, x.z])
    return np.array(x)


def evaluate(batch):
    out = []
    for name, fn, args in batch:
        try:
            r = flat(fn(*args))
        except (ValueError, TypeError, IndexError, NotImplementedError) as e:
            r = ("raises", type(e).__name__)
        except Exception as e:
            r = ("raises", f"{type(e).__name__}: {str(e)[:200]}")
        out.append(r)
    return out


def differ(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
            return None
        d = lambda x: f"raises {x[1]}" if isinstance(x, tuple) else "returns a value"
        return f"compiled code {d(a)}, interpreted code {d(b)}"
    if isinstance(a, list) or isinstance(b, list):
        if type(a) is not type(b) or len(a) != len(b):
            return f"compiled code returns {len(a)} parts, interpreted code {len(b)}"
        for x, y in zip(a, b):
            e = differ(x, y)
            if e:
                return e
        return None
    if a.shape != b.shape:
        return f"compiled code returns shape {a.shape}, interpreted code {b.shape}"
    if a.dtype.kind in "OSU" or b.dtype.kind in "OSU":
        return None if a.dtype.kind == b.dtype.kind and a.tolist() == b.tolist() else f"compiled code returns {a!r}, interpreted code {b!r}"
    if a.size == 0:
        return None
    with np.errstate(all="ignore"):
        bad = ~((a == b) | (np.abs(a.astype(complex) - b.astype(complex)) <= TOL * np.max(np.abs(b)) + 1e-15) | ((a != a) & (b != b)))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        return f"compiled code returns {a[i]!r}, interpreted code {b[i]!r} at index {i} of shape {a.shape} ({int(bad.sum())} values differ)"
    return None


def size(x):
    return x.size if isinstance(x, np.ndarray) else 1 if isinstance(x, tuple) else sum(size(v) for v in x)


def families(tier):
    thorough = tier != "quick"
    B = build(thorough)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def run(b, rec):
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "out")
            env = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONPATH=os.pathsep.join([root] + [p for p in [os.environ.get("PYTHONPATH")] if p]))
            with open(os.path.join(d, "log"), "w") as log:
                p = subprocess.Popen([sys.executable, "-m", "mc.c25", tier, b, out], cwd=root, env=env, stdout=log, stderr=subprocess.STDOUT)
            try:
                mine = evaluate(B[b])
                rc = p.wait(timeout=700)
            except BaseException:
                p.kill()
                raise
            text = open(os.path.join(d, "log")).read()[-400:]
            if rc == 3:
                raise HarnessError(text)
            rec.check(rc == 0, lambda: f"the interpreted code cannot be imported or dies: {text}")
            with open(out, "rb") as f:
                where, jit, other = pickle.load(f)
        import numba
        if not jit or numba.config.DISABLE_JIT or where != os.path.realpath(sf().__file__):
            raise HarnessError(f"modes not as intended: {jit} {numba.config.DISABLE_JIT} {where}")
        for (name, _, _), x, y in zip(B[b], mine, other):
            rec.st(); rec.tr(2); rec.trace()
            rec.comparisons += size(x)
            rec.outcome(x[1] if isinstance(x, tuple) else "value")
            e = differ(x, y)
            if e:
                rec.fail(f"{name}: {e}")
    slow_first = sorted(B, key=lambda b: b[:1] not in "c3DH")
    return [Family("compiled = interpreted", slow_first, run, note=f"{sum(len(v) for v in B.values())} calls: the alphabet of C21 and all small arguments of every function, in batches")]


def child(tier, b, out):
    import warnings
    warnings.simplefilter("ignore")
    import spherical_functions
    import numba
    try:
        batch = build(tier != "quick")[b]
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(3)
    r = evaluate(batch)
    with open(out, "wb") as f:
        pickle.dump((os.path.realpath(spherical_functions.__file__), bool(numba.config.DISABLE_JIT), r), f)


if __name__ == "__main__":
    child(*sys.argv[1:])
