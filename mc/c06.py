"""C06: SWSH (both forms), SWSH_grid and Modes.evaluate agree for all shapes, sizes, layouts and orders."""
import numpy as np
from .core import Family
from .common import *
from .c03 import qarr, layout, many_rotors, SHAPES, SIZES, LAYOUTS, REG
from .c05 import swsh_tol

ASSUMPTIONS = ["index arrays hold platform integers"]
TRI = [(0, 0, 0), (0, 2, 1), (-2, 2, 2), (2, 3, -3), (-1, 1, 0), (1, 4, -4), (-2, 5, 0), (3, 3, 3), (-3, 8, 5), (4, 2, 1), (0, 1, 3)]


def ref_values(cs, s, lmax):
    cs = np.array(cs, dtype=float).reshape(-1, 4)
    if len(cs) == 0:
        z = np.zeros((0, (lmax + 1) ** 2))
        return z.astype(complex), z
    r = SWSH_all(cs, [s], lmax)[s].astype(complex)
    return r, 2 * swsh_tol(cs, r, SWSH_all(cs, [s], lmax, absolute=True)[s], lmax)


def make(shape, lay):
    n = int(np.prod(shape, dtype=int))
    cs = many_rotors(max(n, 1))[:n]
    base = qarr(cs).reshape(shape) if n else np.zeros(shape, dtype=np.quaternion)
    if lay == "broadcast" and len(shape) >= 1 and n:
        arr = np.broadcast_to(qarr(many_rotors(shape[-1])[:shape[-1]]), shape)
        cs = quaternion.as_float_array(np.array(arr)).reshape(-1, 4)
    else:
        arr = layout(base, lay)
    return arr, cs, n


def families(tier):
    S = sf()
    thorough = tier != "quick"

    def run_shapes(item, rec):
        shape, lay = item
        shape = tuple(shape)
        arr, cs, n = make(shape, lay)
        keep = np.array(arr, copy=True)
        by_s = {}
        for s, l, m in (TRI if n <= 1025 else TRI[1:5]):
            if (s, l) not in by_s:
                by_s[s, l] = ref_values(cs, s, l)
            ref, tol = by_s[s, l]
            k = l * l + l + m
            for pair in ((l, m), [l, m], np.array([l, m])):
                got = S.SWSH(arr, s, pair)
                rec.st(); rec.tr(); rec.trace()
                rec.check(isinstance(got, np.ndarray) and got.dtype == complex, lambda: f"SWSH(Rs{shape}): result type {type(got)}")
                if abs(m) <= l:
                    rec.close(got, ref[:, k].reshape(shape), tol[:, k].reshape(shape), lambda: f"SWSH(Rs{shape} [{lay}], {s}, {pair})")
                else:
                    rec.check(got.shape == shape and np.all(got == 0), lambda: f"SWSH(Rs{shape} [{lay}], {s}, {pair}) not zero")
        for s, L in ((0, 0), (-2, 3), (1, 2), (3, 2), (-1, 5)) if n <= 1025 else ((-2, 2),):
            ref, tol = ref_values(cs, s, L)
            got = S.SWSH_grid(arr, s, L)
            rec.st(); rec.tr(); rec.trace()
            rec.close(got, ref.reshape(shape + (-1,)) if n else np.zeros(shape + ((L + 1) ** 2,)), tol.reshape(shape + (-1,)) if n else 0,
                      lambda: f"SWSH_grid(Rs{shape} [{lay}], {s}, {L})")
            rec.check(not np.shares_memory(got, arr), "SWSH_grid shares memory with its input")
        rec.check(same(quaternion.as_float_array(keep), quaternion.as_float_array(np.array(arr))), f"rotor array {shape} [{lay}] was modified")

    mshapes = [(), (1,), (3,), (2, 2), (0,), (1, 3, 2)]
    rshapes = [(), (1,), (4,), (2, 3), (0,), (2, 1, 2)]

    def run_evaluate(item, rec):
        s, L = item
        N = (L + 1) ** 2
        for ms in mshapes:
            f = ref_zero_low(generic_array(ms + (N,), 2.5), s)
            for vi, mk in enumerate([lambda: S.Modes(f.copy(), spin_weight=s), lambda: S.Modes(np.asfortranarray(f.copy()) if f.ndim > 1 else f.copy(), s, 0, L),
                                     lambda: S.Modes(f[..., s * s:].copy(), spin_weight=s, ell_min=abs(s)),
                                     lambda: S.Modes(f.copy(), spin_weight=s).copy()]):
                if abs(s) > L and vi == 2:
                    continue
                M = mk()
                keep = np.array(M.view(np.ndarray), copy=True)
                for rs in rshapes:
                    arr, cs, n = make(rs, "C" if vi == 0 else LAYOUTS[vi])
                    got = M.evaluate(arr)
                    rec.st(); rec.tr(); rec.trace()
                    ref, tol = ref_values(cs, s, L)
                    want = np.tensordot(f, ref, axes=([-1], [-1])).reshape(ms + rs)
                    t = (1e-13 + np.tensordot(abs(f), tol + 20 * EPS * abs(ref), axes=([-1], [-1]))).reshape(ms + rs)
                    rec.close(np.asarray(got), want, t, lambda: f"Modes(s={s}, ell_max={L}, shape {ms}).evaluate(rotors{rs})")
                rec.check(same(keep, M.view(np.ndarray)) and M.s == s and M.ell_max == L, "Modes object changed by evaluate")

    REF = {}

    def warm():
        for s in (-2, 0, 1, 3):
            REF[s] = ref_values(REG, s, LMAX)

    def rows_case(rec, r, s, rows, arr, what):
        keep = np.array(arr, copy=True)
        got = S.SWSH(q(REG[r]), s, arr)
        rec.st(); rec.tr(); rec.trace()
        rec.check(isinstance(got, np.ndarray) and got.dtype == complex, f"{what}: result type")
        ref, tol = REF[s]
        want = np.array([ref[r, l * l + l + m] if abs(m) <= l else 0 for l, m in rows])
        t = np.array([tol[r, l * l + l + m] if abs(m) <= l else 0 for l, m in rows])
        rec.close(got, want, t, lambda: f"SWSH(R={REG[r]}, s={s}, {rows[:8]}) [{what}]")
        rec.check(same(keep, np.array(arr)), f"{what}: indices modified")

    small = [(l, m) for l in range(4) for m in range(-l, l + 1)]

    def run_pairs(item, rec):
        r, s, i = item
        for j in range(len(small)):
            rows_case(rec, r, s, [small[i], small[j]], np.array([small[i], small[j]]), "pair")
            for k in range(len(small)):
                if r < 2 and s in (-2, 1):
                    rows = [small[i], small[j], small[k]]
                    rows_case(rec, r, s, rows, np.array(rows), "triple")

    def run_kinds(item, rec):
        r, s, kind = item
        base = LM(0, 6)
        for rows in (base, base[::-1], base[::3] + base[1::3] + base[2::3], base[5:6], base[:1] * 3 + base[7:9], base[20:]):
            a = np.array(rows)
            if kind == "list":
                arr = [list(map(int, x)) for x in rows]
            elif kind == "tuples":
                arr = tuple(tuple(map(int, x)) for x in rows)
            elif kind == "wide":
                arr = np.full((len(rows), 6), 99)
                arr[:, 1:3] = a
                arr = arr[:, 1:3]
            elif kind == "npints":
                arr = [[np.int64(x), np.int64(y)] for x, y in rows]
            else:
                arr = layout(a, kind)
            rows_case(rec, r, s, rows, arr, kind)

    def run_sizes(item, rec):
        r, s, n = item
        base = LM(0, 12)
        rows = [base[(7 * i + i // 5) % len(base)] for i in range(n)]
        rows_case(rec, r, s, rows, np.array(rows), f"{n} rows")

    kinds = ["C", "F", "T", "rev", "stride2", "list", "tuples", "wide", "npints", "lastaxis_rev"]
    return [
        Family("rotor_arrays", [[[n], "C"] for n in reversed(SIZES)] + [[[2, n // 2], "T"] for n in SIZES[-9:]] + [[list(s), l] for s in SHAPES for l in LAYOUTS],
               run_shapes, warm, note="shapes x layouts x sizes: SWSH(Rs, s, (ell,m)) and SWSH_grid"),
        Family("evaluate", [[s, L] for L in range(0, 8 if not thorough else 17) for s in range(-min(L + 2, 5), min(L + 2, 5) + 1)], run_evaluate,
               note="Modes.evaluate: spins x ell_max x shapes of modes x shapes of rotors x constructions"),
        Family("evaluate_large", [[s, L] for L in (16, 24, 31, 32) for s in (-2, 0, 1)] if not thorough else [[s, L] for L in (24, 31, 32) for s in range(-6, 7)], run_evaluate,
               note="ell_max up to 32"),
        Family("index_pairs_triples", [[r, s, i] for i in range(len(small)) for s in (-2, 0, 1, 3) for r in range(len(REG))], run_pairs,
               note="all ordered pairs (and triples) of (ell,m), ell<=3"),
        Family("index_kinds", [[r, s, k] for k in kinds for s in (-2, 0, 1, 3) for r in range(len(REG))], run_kinds, note="layout/container of the index array"),
        Family("index_sizes", [[r, s, n] for n in SIZES for s in (-2, 1) for r in (0, 2)], run_sizes, note="number of indices around powers of two"),
    ]
