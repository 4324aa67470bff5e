"""C14: derivative operators on Modes."""
import operator
import quaternion
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["R+ and R- are specified by their documented action on the harmonics (the documented Lie-derivative definition differs from it by an overall sign)",
               "weights below |s| are zero, as the constructor leaves them"]

# name -> (spin change, function(s, l, m) -> (new m, coefficient) acting on sYlm)
OPS = {
    "Lz": (0, lambda s, l, m: (m, m)),
    "Lplus": (0, lambda s, l, m: (m + 1, math.sqrt((l - m) * (l + m + 1)))),
    "Lminus": (0, lambda s, l, m: (m - 1, math.sqrt((l + m) * (l - m + 1)))),
    "Lsquared": (0, lambda s, l, m: (m, l * (l + 1))),
    "Rz": (0, lambda s, l, m: (m, -s)),
    "Rplus": (-1, lambda s, l, m: (m, math.sqrt((l + s) * (l - s + 1)))),
    "Rminus": (1, lambda s, l, m: (m, math.sqrt((l - s) * (l + s + 1)))),
    "Rsquared": (0, lambda s, l, m: (m, l * (l + 1))),
    "eth": (1, lambda s, l, m: (m, math.sqrt((l - s) * (l + s + 1)))),
    "ethbar": (-1, lambda s, l, m: (m, -math.sqrt((l + s) * (l - s + 1)))),
}


@functools.lru_cache(None)
def action(op, s, L):
    """(indices of the modes of the result, indices of the modes they come from, factors)"""
    ds, act = OPS[op]
    to, fro, fac = [], [], []
    for l, m in LM(abs(s), L):
        m2, c = act(s, l, m)
        if abs(m2) <= l and l >= abs(s + ds):
            to.append(l * l + l + m2), fro.append(l * l + l + m), fac.append(c)
    return np.array(to, dtype=int), np.array(fro, dtype=int), np.array(fac, dtype=float)


def apply(op, a, s, L):
    to, fro, fac = action(op, s, L)
    r = np.zeros_like(a)
    r[..., to] = fac * a[..., fro]
    return r, s + OPS[op][0]


def families(tier):
    S = sf()
    Modes = S.Modes
    thorough = tier != "quick"

    def do(op, o):
        r = getattr(o, op)
        return r if op in ("eth", "ethbar") else r()

    def judge(rec, r, want, s, L, what, scale=1.0):
        rec.st(); rec.tr(); rec.trace()
        rec.check(type(r) is Modes and (r.s, r.ell_min, r.ell_max) == (s, 0, L), lambda: f"{what()}: {type(r).__name__} with s={getattr(r, 's', None)}, ell_max={getattr(r, 'ell_max', None)}; expected s={s}, ell_max={L}")
        d = r.view(np.ndarray)
        rec.close(d, want, 1e-14 * scale * (1 + np.abs(want)), what)
        rec.check(not d[..., :min(s * s, d.shape[-1])].any(), lambda: f"{what()}: nonzero modes below |s|")

    def data(s, L, lead, seed=.4):
        return ref_zero_low(generic_array(lead + ((L + 1) ** 2,), seed + .13 * s), s)

    def run_action(item, rec):
        s, L = item
        for lead in ((), (2,), (2, 3), (1, 1), (0,)) if L <= 20 else ((), (2,)):
            a = data(s, L, lead)
            big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=complex)
            objs = {"contiguous": Modes(a.copy(), spin_weight=s), "F": Modes(np.asfortranarray(a), spin_weight=s)}
            big[..., ::2] = a
            objs["strided"] = Modes(big[..., ::2], spin_weight=s)
            ro = Modes(a.copy(), spin_weight=s)
            ro.flags.writeable = False
            objs["read-only"] = ro
            if lead:
                objs["reversed"] = Modes(a[::-1].copy(), spin_weight=s)[::-1]
            for k, o in objs.items():
                for op in OPS:
                    want, s2 = apply(op, a, s, L)
                    r = do(op, o)
                    judge(rec, r, want, s2, L, lambda: f"{op} of {k} Modes(s={s}, L={L}, {lead})")
                    rec.check(not np.shares_memory(r, o), lambda: f"{op}: result shares memory with the operand")
                rec.check((o.s, o.ell_max) == (s, L) and np.array_equal(o.view(np.ndarray), a), lambda: f"operators changed their operand Modes(s={s}, L={L}, {lead}, {k})")
        if L <= 4:
            # one basis mode at a time, special values
            for i in range(s * s, (L + 1) ** 2):
                for v in (1, -1j):
                    a = np.zeros((L + 1) ** 2, dtype=complex)
                    a[i] = v
                    for op in OPS:
                        want, s2 = apply(op, a, s, L)
                        judge(rec, do(op, Modes(a.copy(), s)), want, s2, L, lambda: f"{op} of the basis mode {i} (s={s}, L={L})")

    def run_sizes(item, rec):
        lead, s = tuple(item[0]), item[1]
        L = 3
        a = data(s, L, lead)
        o = Modes(a.copy(), spin_weight=s)
        for op in OPS:
            want, s2 = apply(op, a, s, L)
            judge(rec, do(op, o), want, s2, L, lambda: f"{op} of Modes(s={s}, L={L}, {lead})")
        rec.check((o.s, o.ell_max) == (s, L) and np.array_equal(o.view(np.ndarray), a), lambda: f"operators changed their operand Modes(s={s}, L={L}, {lead})")

    def run_words(item, rec):
        s, L, first = item
        depth = 3 if not thorough else 4
        for lead in ((),) if not thorough else ((), (2,)):
            a = data(s, L, lead)
            o = Modes(a.copy(), spin_weight=s)

            def go(word, x, b, t, scale):
                for op in OPS:
                    if not word and op != first:
                        continue
                    want, t2 = apply(op, b, t, L)
                    r = do(op, x)
                    w = word + (op,)
                    sc = scale * (L + 1) ** 2
                    judge(rec, r, want, t2, L, lambda: f"{' then '.join(w)} on Modes(s={s}, L={L})", 10 * sc)
                    if len(w) < depth:
                        go(w, r, want, t2, sc)
            go((), o, a, s, 1.0)

    def run_algebra(item, rec):
        """commutation relations and Casimir identities on the real objects (no formulas)"""
        s, L = item
        a = data(s, L, (2,))
        f = Modes(a.copy(), spin_weight=s)
        tol = 1e-13 * (L + 1) ** 4

        def comm(A, B, expected, what):
            x, y = do(A, do(B, f)), do(B, do(A, f))
            rec.st(); rec.tr(4); rec.trace()
            rec.check(x.s == y.s, lambda: f"[{A},{B}]: spins {x.s}, {y.s}")
            c = (x - y)
            e = expected()
            rec.check(c.s == e.s and c.ell_max == e.ell_max, lambda: f"{what}: s = {c.s} and {e.s}")
            rec.close(c.ndarray, e.ndarray, tol, lambda: f"{what} on s={s}, L={L}")
        comm("Lz", "Lplus", lambda: f.Lplus(), "[Lz,L+] = L+")
        comm("Lz", "Lminus", lambda: -f.Lminus(), "[Lz,L-] = -L-")
        comm("Lplus", "Lminus", lambda: 2 * f.Lz(), "[L+,L-] = 2 Lz")
        comm("Rz", "Rplus", lambda: f.Rplus(), "[Rz,R+] = R+")
        comm("Rz", "Rminus", lambda: -f.Rminus(), "[Rz,R-] = -R-")
        comm("Rplus", "Rminus", lambda: 2 * f.Rz(), "[R+,R-] = 2 Rz")
        for A in ("Lz", "Lplus", "Lminus", "Lsquared"):
            for B in ("Rz", "Rplus", "Rminus", "Rsquared", "eth", "ethbar"):
                comm(A, B, lambda: 0 * do(A, do(B, f)), f"[{A},{B}] = 0")
        comm("ethbar", "eth", lambda: 2 * s * f, "[ethbar,eth] = 2 s")
        cas = 0.5 * (f.Lminus().Lplus() + f.Lplus().Lminus()) + f.Lz().Lz()
        rec.close(cas.ndarray, f.Lsquared().ndarray, tol, f"L^2 from its components, s={s}, L={L}")
        cas = 0.5 * (f.Rminus().Rplus() + f.Rplus().Rminus()) + f.Rz().Rz()
        rec.close(cas.ndarray, f.Rsquared().ndarray, tol, f"R^2 from its components, s={s}, L={L}")
        rec.close(f.Lsquared().ndarray, f.Rsquared().ndarray, tol, f"L^2 = R^2, s={s}, L={L}")
        rec.close(f.eth.ndarray, f.Rminus().ndarray, tol, "eth = R-")
        rec.close(f.ethbar.ndarray, -f.Rplus().ndarray, tol, "ethbar = -R+")
        # conj(eth f) = ethbar conj(f)
        x, y = f.eth.bar, f.bar.ethbar
        rec.check(x.s == y.s, f"conj(eth f).s={x.s}, ethbar(conj f).s={y.s}")
        rec.close(x.ndarray, y.ndarray, tol, f"conj(eth f) = ethbar conj(f), s={s}, L={L}")
        # Leibniz rule for Lz, eth, ethbar
        g = Modes(data(1, 2, (2,), .9), spin_weight=1)
        if L <= 4:
            for A in ("Lz", "Lplus", "Lminus", "Rz", "eth", "ethbar", "Rplus", "Rminus"):
                lhs = do(A, f * g)
                rhs = do(A, f) * g + f * do(A, g)
                rec.tr(6); rec.trace()
                rec.check(lhs.s == rhs.s and lhs.ell_max == rhs.ell_max, f"{A}(fg): spins {lhs.s}, {rhs.s}")
                rec.close(lhs.ndarray, rhs.ndarray, tol * 40, f"{A}(f g) = {A}(f) g + f {A}(g), s={s}, L={L}")

    pts = [p for p in rotor_alphabet(0) if min(np.hypot(p[0], p[3]), np.hypot(p[1], p[2])) > .05][:8] + [(.5, .5, .5, .5), (.5, -.5, .5, -.5)]

    def run_pointwise(item, rec):
        """the modes returned represent the Lie derivative (definition in the documentation) of the function"""
        s, L = item
        a = data(s, L, ())
        f = Modes(a.copy(), spin_weight=s)
        h = 1e-3

        def val(w, spin, rot):
            return (SWSH_all([quaternion.as_float_array(R) for R in rot], [spin], L)[spin] @ w.astype(CLD)).astype(complex)

        def deriv(g, side):
            # 4th order central difference of -0.5j d/dt
            out = 0
            for k, c in ((1, 8), (2, -1)):
                for sg in (1, -1):
                    E = np.exp(sg * k * h * g)
                    out = out + sg * c * val(a, s, [E * R if side == "L" else R * E for R in rot])
            return -0.5j * out / (12 * h)
        rot = [np.quaternion(*p) for p in pts]
        x, y, z = quaternion.x, quaternion.y, quaternion.z
        lx, ly, lz, rz = deriv(x, "L"), deriv(y, "L"), deriv(z, "L"), deriv(z, "R")
        for op, want in (("Lz", lz), ("Lplus", lx + 1j * ly), ("Lminus", lx - 1j * ly), ("Rz", rz)):
            r = do(op, f)
            rec.st(); rec.tr(); rec.trace()
            rec.close(val(r.ndarray, r.s, rot), want, 3e-9 * (L + 1) ** 7, lambda: f"{op} of f(s={s}, L={L}) is the Lie derivative at {len(pts)} rotors")
        # eth: -(sin t)^s (d_t + i/sin t d_phi) (sin t)^-s f
        th, ph = .9, 2.1

        def ft(t, p):
            return val(a, s, [np.quaternion(*theta_phi_rotor(t, p))])[0]

        def d4(g):
            return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
        for th, ph in ((.9, 2.1), (2.3, -1.2), (1.5, 0.0)):
            ft0, dt, dp = ft(th, ph), d4(lambda e: ft(th + e, ph)), d4(lambda e: ft(th, ph + e))
            cot, sn = math.cos(th) / math.sin(th), math.sin(th)
            R = [np.quaternion(*theta_phi_rotor(th, ph))]
            for op, want, ss in (("eth", -(dt + 1j / sn * dp - s * cot * ft0), s + 1), ("ethbar", -(dt - 1j / sn * dp + s * cot * ft0), s - 1)):
                r = do(op, f)
                rec.st(); rec.tr(); rec.trace()
                rec.close(val(r.ndarray, ss, R)[0], want, 3e-9 * (L + 1) ** 7, lambda: f"{op} of f(s={s}, L={L}) at theta, phi = {th}, {ph}")

    sp = range(-8, 9)
    Ls = list(range(0, 9)) + ([12, 20] if not thorough else [10, 12, 16, 20, 31, 32, 33, 34, 36, 40, 48, 64])
    top = [] if thorough else [[s, L] for s in (-9, -2, 0, 1, 16) for L in (31, 32, 33, 34, 40)]
    return [
        Family("actions", [[s, L] for s in sp for L in Ls] + top, run_action, note="spins -8..8, ell_max 0..8, 12, 20, and some spins for ell_max 31..40 (past the end of every table); shapes and layouts; every basis mode to ell_max 4"),
        Family("sizes", [[list(l), s] for l in [(n,) for n in SIZES] + DEEP for s in (-1, 0, 2)], run_sizes, note="leading dimensions next to powers of two and round numbers, up to 5 dimensions"),
        Family("words", [[s, L, op] for s in range(-3, 4) for L in (2, 3) for op in OPS], run_words, note="all operator words of length <= 3 (4)"),
        Family("algebra", [[s, L] for s in range(-6, 7) for L in (0, 1, 2, 3, 4, 7)], run_algebra, note="commutators, Casimirs, Leibniz rule, conjugation"),
        Family("pointwise", [[s, L] for s in range(-3, 4) for L in (2, 3, 4)], run_pointwise, note="Lie derivatives and eth by finite differences of the function"),
    ]
