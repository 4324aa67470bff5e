"""Alphabet of calls of public functions shared by C21 (histories) and C22 (schedules).

Every call builds its own arguments; calls of one group use the same function with equal, nearly equal, differently typed,
differently sized and differently laid out arguments.
"""
import copy
import operator
import pickle
import numpy as np
from .common import *


class Call:
    def __init__(self, group, name, fn, args, tol=0.0, light=False):
        self.group, self.name, self.fn, self.args, self.tol, self.light = group, f"{group}: {name}", fn, args, tol, light

    def run(self, args=None):
        """result, or ('raises', type)"""
        a = self.args() if args is None else args
        try:
            return self.fn(*a)
        except (ValueError, TypeError, IndexError, NotImplementedError) as e:
            return ("raises", type(e).__name__)


def freeze(x):
    """a deep, comparable copy of a result"""
    if isinstance(x, np.ndarray):
        return ("array", type(x).__name__, getattr(x, "s", None) if type(x).__name__ in ("Modes", "Grid") else None,
                x.ell_max if type(x).__name__ == "Modes" else None, x.shape, x.dtype.str, np.array(x.view(np.ndarray), copy=True))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, (np.generic, np.quaternion)):
        return ("scalar", type(x).__name__, np.array(x, copy=True))
    return ("value", type(x).__name__, x)


def differ(a, b, tol=0.0):
    """None if the frozen results agree (bit for bit; up to tol relative to the largest value if tol > 0), else a description"""
    if len(a) != len(b) or a[:1] != b[:1]:
        return f"{shorten(a)} instead of {shorten(b)}"
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype:
                return f"{shorten(a)} instead of {shorten(b)}"
            if x.tobytes() == y.tobytes():
                continue
            if tol and np.issubdtype(x.dtype, np.inexact):
                m = float(np.max(np.abs(y), initial=0))
                if np.max(np.abs(x - y), initial=0) <= tol * (1 + m):
                    continue
            return f"values differ: {x.ravel()[:4]} instead of {y.ravel()[:4]} (shape {x.shape})"
        elif isinstance(x, tuple):
            d = differ(x, y, tol)
            if d:
                return d
        elif x != y and not (isinstance(x, float) and x != x and y != y):
            return f"{x!r} instead of {y!r}"
    return None


def shorten(a):
    s = repr(a)
    return s if len(s) < 200 else s[:200] + "..."


def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [a for v in x for a in arrays_in(v)]
    return []


def scribble(x):
    """overwrite a result with junk, as its owner may"""
    for a in arrays_in(x):
        if a.flags.writeable and a.size:
            v = a.view(np.ndarray)
            if v.dtype == np.dtype(np.quaternion):
                v[...] = np.quaternion(7, 7, 7, 7)
            elif v.dtype == bool:
                v[...] = ~v
            else:
                v[...] = 77
    if isinstance(x, list):
        x.clear()


def alphabet():
    S = sf()
    import spherical_functions.recursions as RE
    import spherical_functions.WignerD.WignerDRecursion as WR
    import quaternion as Q
    C = []

    def add(group, name, fn, args, tol=0.0, light=False):
        C.append(Call(group, name, fn, args, tol, light))
    R0 = (0.3, -0.5, 0.7, 0.4)
    n0 = np.array(R0) / np.linalg.norm(R0)

    def rot(d=0.0, sign=1):
        c = n0 + np.array([d, 0, -d, d / 2])
        return np.quaternion(*(sign * c / np.linalg.norm(c)))
    rots = {"R": rot, "R again": rot, "R+1e-15": lambda: rot(1e-15), "R+1e-12": lambda: rot(1e-12), "R+1e-8": lambda: rot(1e-8), "R+1e-5": lambda: rot(1e-5), "-R": lambda: rot(0, -1),
            "1": lambda: np.quaternion(1, 0, 0, 0), "y": lambda: np.quaternion(0, 0, 1, 0), "near pole": lambda: np.quaternion(*rotor(1.0, 1e-9, .4, 1.)), "other": lambda: np.quaternion(.5, .5, -.5, .5)}

    def rarr(n, seed=0.0, d=0.0):
        v = generic_array((n, 4), seed).real + d
        v /= np.linalg.norm(v, axis=1)[:, None]
        return Q.as_quat_array(np.ascontiguousarray(v))
    # ---- D
    g = "Wigner_D_element"
    f = S.Wigner_D_element
    for k, r in rots.items():
        add(g, f"({k}, 2)", f, lambda r=r: (r(), 2), light=k in ("R", "1"))
    add(g, "(R, 4)", f, lambda: (rot(), 4))
    add(g, "(R, 2.5)", f, lambda: (rot(), 2.5))
    add(g, "(R, [0,1,2])", f, lambda: (rot(), [0, 1, 2]))
    add(g, "(R, 2, 1, -1)", f, lambda: (rot(), 2, 1, -1))
    add(g, "(R, 2, -1, 1)", f, lambda: (rot(), 2, -1, 1))
    add(g, "(R, 2.0, 1.0, -1.0)", f, lambda: (rot(), 2.0, 1.0, -1.0))
    add(g, "(R, indices)", f, lambda: (rot(), np.array([[2, 1, -1], [3, 0, 2], [2, 1, -1]])))
    add(g, "(R, 5 indices)", f, lambda: (rot(), np.array([[2, 1, -1], [3, 0, 2], [1, 1, 1], [0, 0, 0], [4, -4, 4]])))
    add(g, "(array(3), 2, 1, 0)", f, lambda: (rarr(3), 2, 1, 0), light=True)
    add(g, "(array(3) other, 2, 1, 0)", f, lambda: (rarr(3, .5), 2, 1, 0))
    add(g, "(array(5), 2, 1, 0)", f, lambda: (rarr(5), 2, 1, 0))
    add(g, "(alpha, beta, gamma, 2, 1, 0)", f, lambda: (.1, .2, .3, 2, 1, 0))
    add(g, "(alpha, beta', gamma, 2, 1, 0)", f, lambda: (.1, .2 + 1e-9, .3, 2, 1, 0))
    add(g, "(Ra, Rb, 2, 1, 0)", f, lambda: (complex(n0[0], n0[3]), complex(n0[2], n0[1]), 2, 1, 0))
    add(g, "invalid (R, 2, 3, 0)", f, lambda: (rot(), 2, 3, 0))
    add(g, "invalid (R, 33)", f, lambda: (rot(), 33))

    def lenient(*a):
        S.error_on_bad_indices = False
        try:
            return S.Wigner_D_element(*a)
        finally:
            S.error_on_bad_indices = True
    add("error_on_bad_indices", "off, invalid and valid indices, on again", lenient, lambda: (rot(), np.array([[2, 3, 0], [2, 1, 0]])))
    g = "Wigner_D_matrices"
    f = S.Wigner_D_matrices
    for k in ("R", "R again", "R+1e-12", "R+1e-8", "-R", "1", "near pole"):
        add(g, f"({k}, 0, 4)", f, lambda r=rots[k]: (r(), 0, 4), light=k == "R")
    add(g, "(R, 2, 4)", f, lambda: (rot(), 2, 4))
    add(g, "(R, 0, 3)", f, lambda: (rot(), 0, 3))
    add(g, "(R, 0, 8)", f, lambda: (rot(), 0, 8))
    add(g, "invalid (R, 0, 33)", f, lambda: (rot(), 0, 33))
    # ---- SWSH
    g = "SWSH"
    f = S.SWSH
    idx = lambda: np.array([[2, 1], [3, -2], [1, 0], [2, 2]])
    for k in ("R", "R again", "R+1e-12", "R+1e-8", "-R", "1", "near pole"):
        add(g, f"({k}, -1, indices)", f, lambda r=rots[k]: (r(), -1, idx()), light=k == "R")
    add(g, "(R, 1, indices)", f, lambda: (rot(), 1, idx()))
    add(g, "(R, 0, indices)", f, lambda: (rot(), 0, idx()))
    add(g, "(R, -1, other indices)", f, lambda: (rot(), -1, idx()[::-1].copy()))
    add(g, "(array(3), -1, [2,1])", f, lambda: (rarr(3), -1, [2, 1]), light=True)
    add(g, "(array(3) other, -1, [2,1])", f, lambda: (rarr(3, .5), -1, [2, 1]))
    add(g, "(array(3), -1, [3,1])", f, lambda: (rarr(3), -1, [3, 1]))
    add(g, "invalid ell 33", f, lambda: (rot(), 0, np.array([[33, 0]])))
    g = "SWSH_grid"
    f = S.SWSH_grid
    add(g, "(array(3), -1, 3)", f, lambda: (rarr(3), -1, 3), light=True)
    add(g, "(array(3) other, -1, 3)", f, lambda: (rarr(3, .5), -1, 3))
    add(g, "(array(3) nearly, -1, 3)", f, lambda: (rarr(3, 0, 1e-11), -1, 3))
    add(g, "(array(3), 1, 3)", f, lambda: (rarr(3), 1, 3))
    add(g, "(array(3), -1, 2)", f, lambda: (rarr(3), -1, 2))
    add(g, "(array(5), -1, 3)", f, lambda: (rarr(5), -1, 3))
    add(g, "(array(2,3), -1, 3)", f, lambda: (rarr(6).reshape(2, 3), -1, 3))
    add(g, "(0-d, -1, 3)", f, lambda: (np.array(rot()), -1, 3))
    # ---- integers and indices
    g = "LM_range"
    for a in ((0, 2), (0, 3), (1, 3), (2, 2)):
        add(g, f"{a}", S.LM_range, lambda a=a: a, light=a == (0, 3))
    add(g, "(np.int64(0), np.int64(3))", S.LM_range, lambda: (np.int64(0), np.int64(3)))
    g = "LMpM_range"
    for a in ((0, 2), (1, 2), (2, 2)):
        add(g, f"{a}", S.LMpM_range, lambda a=a: a, light=a == (0, 2))
    add("LMpM_range_half_integer", "(0,2)", S.LMpM_range_half_integer, lambda: (0, 2))
    add("LMpM_range_half_integer", "(0.5,2)", S.LMpM_range_half_integer, lambda: (0.5, 2))
    add("LMpM_range_half_integer", "(0.5,1.5)", S.LMpM_range_half_integer, lambda: (0.5, 1.5))
    g = "theta_phi"
    for a in ((3, 5), (5, 3), (4, 4), (5, 5)):
        add(g, f"{a}", S.theta_phi, lambda a=a: a, light=a == (3, 5))
    add("index functions", "LM_index", lambda: [S.LM_index(l, m, 0) for l, m in LM(0, 3)], lambda: ())
    add("index functions", "LM_index, ell_min 2", lambda: [S.LM_index(l, m, 2) for l, m in LM(2, 4)], lambda: ())
    add("index functions", "LMpM_index", lambda: [S.LMpM_index(l, m, -m, 0) for l, m in LM(0, 3)], lambda: ())
    add("index functions", "sizes", lambda: [S.LM_total_size(0, 4), S.LM_total_size(2, 4), S.LMpM_total_size(0, 4), S.LMpM_total_size(1, 3)], lambda: ())
    for a in ((25,), (25, 0), (21, 2), (24, 1), (24,), (7, 0), (9, 0)):
        add("LM_deduce_ell_max", f"{a}", S.LM_deduce_ell_max, lambda a=a: a)
    add("coefficients", "factorial", lambda: [S.factorial(i) for i in range(12)], lambda: ())
    add("coefficients", "binomial", lambda: [S.binomial_coefficient(7, i) for i in range(8)], lambda: ())
    add("coefficients", "ladder", lambda: [S.ladder_operator_coefficient(3, i) for i in range(-3, 4)], lambda: ())
    add("coefficients", "ladder half", lambda: [S.ladder_operator_coefficient(2.5, i - .5) for i in range(-2, 4)], lambda: ())
    add("coefficients", "Wigner", lambda: [S.Wigner_coefficient(2, i, 1) for i in range(-2, 3)], lambda: ())
    # ---- 3-j
    g = "Wigner3j"
    for a in ((2, 3, 4, 1, -2, 1), (4, 3, 2, 1, -2, 1), (2, 3, 4, -1, 2, -1), (2, 3, 4, 1, -2, 0), (10, 8, 6, 2, -5, 3), (30, 40, 50, 10, -25, 15), (0, 0, 0, 0, 0, 0), (2, 2, 2, 0, 0, 0), (2, 2, 6, 0, 0, 0)):
        add(g, f"{a}", S.Wigner3j, lambda a=a: a, light=a == (2, 3, 4, 1, -2, 1))
    g = "clebsch_gordan"
    for a in ((2, 1, 3, -2, 4, -1), (3, -2, 2, 1, 4, -1), (2, 1, 3, -2, 4, 1)):
        add(g, f"{a}", S.clebsch_gordan, lambda a=a: a, light=a[0] == 3)

    def calc3(size, args):
        c = S.Wigner3jCalculator(*size)
        return [np.array(c.calculate(*a), copy=True) for a in args]
    g = "Wigner3jCalculator"
    add(g, "one call", calc3, lambda: ((4, 4), [(3, 4, 1, -2)]), light=True)
    add(g, "two calls", calc3, lambda: ((4, 4), [(3, 4, 1, -2), (2, 2, 0, 0)]))
    add(g, "larger", calc3, lambda: ((9, 9), [(3, 4, 1, -2), (9, 8, -3, 1)]))
    # ---- recursions
    z = lambda n, d=0.0: np.exp(1j * (np.arange(n) + .3 + d))
    g = "complex_powers"
    add(g, "(z(3), 5)", S.complex_powers, lambda: (z(3), 5), light=True)
    add(g, "(z(3), 5) nearly", S.complex_powers, lambda: (z(3, 1e-11), 5))
    add(g, "(z(3), 2)", S.complex_powers, lambda: (z(3), 2))
    add(g, "(z(5), 5)", S.complex_powers, lambda: (z(5), 5))
    add(g, "(z(3), 0)", S.complex_powers, lambda: (z(3), 0))
    add(g, "(z(2,3), 5)", S.complex_powers, lambda: (z(6).reshape(2, 3), 5))
    for nm, H in (("wedge", RE.HCalculator), ("full", WR.HCalculator)):
        g = f"HCalculator {nm}"

        def hc(N, *a, H=H):
            return np.array(H(N)(*a), copy=True)
        add(g, "(4)(cos)", hc, lambda: (4, np.cos(np.array([.1, .8, 2.]))), light=True)
        add(g, "(4)(cos nearly)", hc, lambda: (4, np.cos(np.array([.1, .8, 2.]) + 1e-11)))
        add(g, "(4)(cos, sin)", hc, lambda: (4, np.cos(np.array([.1, .8, 2.])), np.sin(np.array([.1, .8, 2.]))))
        add(g, "(6)(cos)", hc, lambda: (6, np.cos(np.array([.1, .8, 2.]))))
        add(g, "(4)(other cos)", hc, lambda: (4, np.cos(np.array([1.1, 2.8]))))
        add(g, "(4)(scalar)", hc, lambda: (4, .3))
        add(g, "(0)(cos)", hc, lambda: (0, np.cos(np.array([.1, .8]))))
        add(g, "invalid", hc, lambda: (4, np.array([.2, 1.5])))
    # ---- mode arrays
    for nm in ("eth_NP", "ethbar_NP", "eth_GHP", "ethbar_GHP", "ethbar_inverse_NP"):
        fn = getattr(S, nm)
        add(nm, "s=-1", fn, lambda: (generic(16, .3), -1), light=nm == "eth_NP")
        add(nm, "s=1", fn, lambda: (generic(16, .3), 1))
        add(nm, "ell_min=2", fn, lambda: (generic(12, .3), -1, 2))
        add(nm, "other", fn, lambda: (generic(9, .7), -1))
    add("conversions", "constant", S.constant_as_ell_0_mode, lambda: (2.5,))
    add("conversions", "constant back", S.constant_from_ell_0_mode, lambda: (generic(4, .2),))
    add("conversions", "vector", S.vector_as_ell_1_modes, lambda: (np.array([.1, .2, .3]),))
    add("conversions", "other vector", S.vector_as_ell_1_modes, lambda: (np.array([.1, -.2, .7]),))
    add("conversions", "vector back", S.vector_from_ell_1_modes, lambda: (generic(3, .2),))
    g = "multiply"
    add(g, "(2,2) s=-1,1", S.multiply, lambda: (generic(9, .1), 0, 2, -1, generic(9, .2), 0, 2, 1), light=True)
    add(g, "(2,2) s=1,-1", S.multiply, lambda: (generic(9, .1), 0, 2, 1, generic(9, .2), 0, 2, -1))
    add(g, "(2,1)", S.multiply, lambda: (generic(9, .1), 0, 2, 0, generic(4, .2), 0, 1, 1))
    add(g, "(1..2, 3)", S.multiply, lambda: (generic(8, .1), 1, 2, 0, generic(16, .2), 0, 3, 1))
    add(g, "(2,4) large", S.multiply, lambda: (generic(9, .1), 0, 2, 0, generic(25, .2), 0, 4, 0))
    # ---- Modes
    M = S.Modes

    def m(s, L, lead=(), seed=.2, **kw):
        return M(ref_zero_low(generic_array(lead + ((L + 1) ** 2,), seed), s), s, **kw)
    g = "Modes"
    add(g, "ctor s=-1 L=2", M, lambda: (np.where(np.arange(9) > 0, generic(9, .3), 0), -1), light=True)
    add(g, "ctor 2..3", M, lambda: (generic(12, .3), 1, 2, 3))
    add(g, "ctor invalid", M, lambda: (generic(10, .3), -1))
    for nm, a in {"s=-1": lambda: (m(-1, 3),), "s=-1 again": lambda: (m(-1, 3),), "s=-1 nearly": lambda: (m(-1, 3, (), .2 + 1e-12),), "s=0": lambda: (m(0, 3),), "s=1, L=2, (2,)": lambda: (m(1, 2, (2,)),), "truncator": lambda: (m(0, 2, multiplication_truncator=max),)}.items():
        for fn_name, fn in {"conjugate": lambda o: o.conjugate(), "np.conj": np.conj, "Lz": lambda o: o.Lz(), "Lplus": lambda o: o.Lplus(), "Lsquared": lambda o: o.Lsquared(), "eth": lambda o: o.eth, "ethbar": lambda o: o.ethbar, "norm": lambda o: o.norm(), "square": lambda o: o * o, "neg": lambda o: -o,
                            "times": lambda o: 2j * o, "minus": lambda o: o - o.copy(), "copy": lambda o: o.copy(), "pickle": lambda o: pickle.loads(pickle.dumps(o)), "real": lambda o: o.real, "grid": lambda o: o.grid(), "grid 9x10": lambda o: o.grid(9, 10), "truncate": lambda o: o.truncate_ell(1).copy()}.items():
            if nm in ("s=-1 again", "s=-1 nearly") and fn_name not in ("square", "grid", "conjugate", "eth"):
                continue
            add(f"Modes.{fn_name}", nm, fn, a, tol=1e-13 if fn_name in ("grid", "grid 9x10", "norm") else 0.0, light=nm == "s=-1" and fn_name in ("conjugate", "Lplus", "eth", "square", "minus", "grid", "np.conj", "pickle"))
    g = "Modes.evaluate"
    ev = lambda o, r: o.evaluate(r)
    for k, (a, r) in enumerate([(lambda: m(-1, 3), lambda: rarr(3)), (lambda: m(-1, 3), lambda: rarr(3, .5)), (lambda: m(-1, 3), lambda: rarr(3, 0, 1e-11)), (lambda: m(-1, 3, (), .2 + 1e-12), lambda: rarr(3)),
                                (lambda: m(1, 3), lambda: rarr(3)), (lambda: m(-1, 2), lambda: rarr(3)), (lambda: m(-1, 3), lambda: rarr(4).reshape(2, 2)), (lambda: m(1, 2, (2,)), lambda: rarr(3)), (lambda: m(-1, 3, (1, 2)), lambda: rarr(4))]):
        add(g, f"variant {k}", ev, lambda a=a, r=r: (a(), r()), tol=1e-13, light=k == 0)
    for nm, fn in {"Lminus": lambda o: o.Lminus(), "Rz": lambda o: o.Rz(), "Rplus": lambda o: o.Rplus(), "Rminus": lambda o: o.Rminus(), "Rsquared": lambda o: o.Rsquared()}.items():
        add(f"Modes.{nm}", "s=-1", fn, lambda: (m(-1, 3),))
        add(f"Modes.{nm}", "s=1, L=2, (2,)", fn, lambda: (m(1, 2, (2,)),))
    add("Modes.imag", "s=0", lambda o: o.imag, lambda: (m(0, 3),))
    add("Modes.array", "times (2,)", operator.mul, lambda: (m(1, 2, (2,)), np.array([2., 3j])))
    add("Modes.array", "times other (2,)", operator.mul, lambda: (m(1, 2, (2,)), np.array([2., 3.5j])))
    add("Modes.array", "over (2,)", operator.truediv, lambda: (m(1, 2, (2,)), np.array([2., 3j])))
    add("Modes.methods", "add", lambda a, b: a.add(b), lambda: (m(-1, 3), m(-1, 2, (), .7)))
    add("Modes.methods", "subtract", lambda a, b: a.subtract(b), lambda: (m(-1, 3), m(-1, 2, (), .7)))
    add("Modes.methods", "multiply, max", lambda a, b: a.multiply(b, max), lambda: (m(-1, 2), m(1, 1, (), .7)))
    add("Modes.methods", "multiply, min", lambda a, b: a.multiply(b, min), lambda: (m(-1, 2), m(1, 1, (), .7)))
    add("Modes.methods", "divide", lambda a, b: a.divide(b), lambda: (m(-1, 2, (2,)), np.array([2., 3j])))
    add("Modes.add", "s=-1, L=3+2", operator.add, lambda: (m(-1, 3), m(-1, 2, (), .7)), light=True)
    add("Modes.add", "mismatch", operator.add, lambda: (m(-1, 3), m(1, 2)))
    add("Modes.multiply", "L=2*1", operator.mul, lambda: (m(-1, 2), m(1, 1, (), .7)), light=True)
    add("Modes.multiply", "L=1*2", operator.mul, lambda: (m(1, 1), m(-1, 2, (), .7)))
    add("Modes.multiply", "(2,) L=2*1", operator.mul, lambda: (m(-1, 2, (2,)), m(1, 1, (), .7)))
    add("Modes.multiply", "truncated", operator.mul, lambda: (m(-1, 2, multiplication_truncator=min), m(1, 1, (), .7, multiplication_truncator=max)))
    # ---- Grid
    G = S.Grid

    def gr(s, n=(7, 7), lead=(), seed=.2):
        return G(generic_array(lead + n, seed), s)
    for nm, a in {"s=-1": lambda: (gr(-1),), "s=0 (2,)": lambda: (gr(0, (7, 8), (2,)),), "nearly": lambda: (gr(-1, (7, 7), (), .2 + 1e-12),)}.items():
        for fn_name, fn in {"modes": lambda o: o.modes(3), "modes 2": lambda o: o.modes(2), "conj": lambda o: o.conj(), "abs": abs, "square": lambda o: o * o, "power": lambda o: o ** 3, "recip": np.reciprocal, "pickle": lambda o: pickle.loads(pickle.dumps(o)), "minus": lambda o: o - o.copy()}.items():
            add(f"Grid.{fn_name}", nm, fn, a, tol=1e-13 if "modes" in fn_name else 0.0, light=nm == "s=-1" and fn_name in ("modes", "square", "conj"))
    add("Grid.array", "times (2,)", operator.mul, lambda: (gr(1, (7, 7), (2,)), np.array([2., 3j])))
    add("Grid.array", "times other (2,)", operator.mul, lambda: (gr(1, (7, 7), (2,)), np.array([2., 3.5j])))
    add("Grid.array", "over (2,)", operator.truediv, lambda: (gr(1, (7, 7), (2,)), np.array([2., 3j])))
    add("Grid.binary", "times", operator.mul, lambda: (gr(1), gr(-2, seed=.7)))
    add("Grid.binary", "over", operator.truediv, lambda: (gr(1), gr(-2, seed=.7)))
    add("Grid.binary", "plus", operator.add, lambda: (gr(1), gr(1, seed=.7)))
    add("Grid.real", "s=0", lambda o: o.real, lambda: (gr(0),))
    add("Grid.imag", "s=0", lambda o: o.imag, lambda: (gr(0),))
    add("Grid.sqrt", "s=2", np.sqrt, lambda: (gr(2),))
    add("quaternion_angles", "R", RE.quaternion_angles, lambda: (n0.copy(),))
    add("quaternion_angles", "other", RE.quaternion_angles, lambda: (np.array([.5, .5, -.5, .5]),))
    add("Grid.add", "mismatch", operator.add, lambda: (gr(0), gr(1)))
    return C
