"""C04: invalid requests raise ValueError, or give exactly zero when asked to."""
import numpy as np
from .core import Family
from .common import *
from .c03 import qarr

ASSUMPTIONS = ["indices are integers or half-integers (other numbers are not claimed)"]
ROT = [(0.5, -0.1, 0.7, math.sqrt(1 - .25 - .01 - .49)), rotor(0.4, math.sqrt(1 - .16), .7, -2.1), rotor(1.0, 0.0, 1.0, 0.0),
       rotor(0.0, 1.0, 0.0, -2.0), (1., 0., 0., 0.), rotor(S2, S2, .3, 2.0), rotor(1.0, 1e-9, .4, 2.)]


def valid(t, a, b):
    return 0 <= t <= TWO_LMAX and abs(a) <= t and abs(b) <= t and (t - a) % 2 == 0 and (t - b) % 2 == 0


def num(t):
    return t // 2 if t % 2 == 0 else t / 2


def families(tier):
    S = sf()
    thorough = tier != "quick"
    ctx = {}

    class flag:
        """set sf.error_on_bad_indices for the duration of a block"""
        def __init__(self, v):
            self.v = v

        def __enter__(self):
            S.error_on_bad_indices = self.v

        def __exit__(self, *a):
            S.error_on_bad_indices = True

    def values(r):
        if r not in ctx:
            ref = D_all([ROT[r]]).astype(complex)
            tol = 2 * D_tol([ROT[r]], ref, D_all([ROT[r]], absolute=True), ell_of(tuple(range(TWO_LMAX + 1))))
            off = np.concatenate([[0], np.cumsum([(t + 1) ** 2 for t in range(TWO_LMAX + 1)])])
            ctx[r] = (ref[0], tol[0], off)
        return ctx[r]

    def expect(r, t, a, b):
        ref, tol, off = values(r)
        k = off[t] + (t + a) // 2 * (t + 1) + (t + b) // 2
        return ref[k], tol[k]

    def forms(r, t, a, b):
        c = ROT[r]
        R = q(c)
        Ra, Rb = ab(c)
        l, mp, m = num(t), num(a), num(b)
        al, be, ga = (float(x) for x in quaternion.as_euler_angles(R))
        f = [("(R,ell,mp,m)", lambda: S.Wigner_D_element(R, l, mp, m)),
             ("(Ra,Rb,ell,mp,m)", lambda: S.Wigner_D_element(Ra, Rb, l, mp, m)),
             ("(alpha,beta,gamma,ell,mp,m)", lambda: S.Wigner_D_element(al, be, ga, l, mp, m)),
             ("(R,[[ell,mp,m]])", lambda: S.Wigner_D_element(R, np.array([[l, mp, m]]))),
             ("(Ra,Rb,[[ell,mp,m]])", lambda: S.Wigner_D_element(Ra, Rb, np.array([[l, mp, m]]))),
             ("(a,b,c,[[ell,mp,m]])", lambda: S.Wigner_D_element(al, be, ga, [[l, mp, m]])),
             ("(Rs,ell,mp,m)", lambda: S.Wigner_D_element(qarr([c, ROT[0], c]), l, mp, m)),
             ("(floats)", lambda: S.Wigner_D_element(R, float(l), float(mp), float(m))),
             ("(numpy)", lambda: S.Wigner_D_element(R, np.float64(l), np.float64(mp), np.float64(m)))]
        return f

    def run_box(item, rec):
        r, t, a = item
        top = 14 if t < 20 else 70
        bs = range(-14, 15) if t < 20 else [-70, -67, -66, -65, -64, -63, -62, -33, -32, -1, 0, 1, 2, 31, 32, 62, 63, 64, 65, 66, 67, 70]
        for b in bs:
            v = valid(t, a, b)
            rec.st()
            for name, f in forms(r, t, a, b):
                what = f"D with 2ell={t}, 2mp={a}, 2m={b}, R={ROT[r]}, form {name}"
                S.error_on_bad_indices = True
                rec.tr(2); rec.trace()
                if v:
                    x, tol = expect(r, t, a, b)
                    got = f()
                    if "alpha" in name or "a,b,c" in name:
                        rec.check(np.isfinite(got).all(), what)
                    else:
                        got = np.ravel(got)[0]
                        rec.close(got, x, tol, what)
                    with flag(False):
                        got2 = f()
                    rec.check(abs(np.ravel(f())[0] - np.ravel(got2)[0]) <= 2 * tol, what + ": valid element changed when error_on_bad_indices is False")
                    rec.outcome("value")
                else:
                    rec.raises(ValueError, f, what)
                    with flag(False):
                        got = f()
                    rec.check(np.all(np.asarray(got) == 0), lambda: what + f", error_on_bad_indices=False: got {got!r}")
                    rec.check(np.ndim(got) == (0 if "[[" not in name and "Rs" not in name else 1), what + ": shape")
                    rec.outcome("error/zero")

    pool_bad = [(2, 4, 0), (2, 0, -4), (-2, 0, 0), (66, 0, 0), (3, 2, 1), (2, 1, 0), (0, 0, 2), (65, 1, 1), (4, -6, 8), (66, 66, 66), (-1, 1, 1), (-2, -2, 2), (200, 0, 0), (-200, 0, 0),
                (4, 2, 3), (1, 0, 1), (1, 0, 0), (64, 66, 0), (64, 0, -66), (64, 63, 0), (63, 64, 1), (6, 8, -8)]
    pool_good = [(2, 0, -2), (0, 0, 0), (3, 1, -3), (4, -4, 2), (64, 0, 2), (1, -1, 1), (5, 5, 5)]

    def rows_case(rec, r, rows, what):
        arr = np.array(rows) / 2
        keep = arr.copy()
        R = q(ROT[r])
        good = [valid(*p) for p in rows]
        rec.st(); rec.tr(2); rec.trace()
        if not all(good):
            rec.raises(ValueError, lambda: S.Wigner_D_element(R, arr), what)
        with flag(False):
            got = S.Wigner_D_element(R, arr)
        rec.check(np.shape(got) == (len(rows),), what + ": shape")
        for k, p in enumerate(rows):
            if good[k]:
                x, tol = expect(r, *p)
                rec.close(got[k], x, tol, lambda: what + f": valid row {k} {p}")
            else:
                rec.check(got[k] == 0, lambda: what + f": invalid row {k} {p} gave {got[k]}")
        rec.check(same(arr, keep), what + ": index array modified")

    def run_mixed(item, rec):
        r, shift = item
        n = 5 if not thorough else 7
        for mask in range(2 ** n):
            for bi in range(len(pool_bad)):
                rows = [pool_bad[(bi + 3 * k) % len(pool_bad)] if mask >> k & 1 else pool_good[(k + shift) % len(pool_good)] for k in range(n)]
                rows_case(rec, r, rows, f"rows {rows} R={ROT[r]}")

    def run_positions(item, rec):
        r, n = item
        ks = range(n) if n <= 40 else sorted({0, 1, n // 2, n - 2, n - 1} | {k + d for k in (7, 15, 31, 63, 127, 255, 511, 1023) for d in (0, 1) if k + d < n})
        for k in ks:
            for bad in pool_bad[:6] if n <= 40 else pool_bad[:2]:
                rows = [pool_good[(3 * j + j // 7) % len(pool_good)] for j in range(n)]
                rows[k] = bad
                rows_case(rec, r, rows, f"{n} rows, row {k} = {bad}, R={ROT[r]}")

    # ---- histories of the flag, with calls in between
    calls = [("valid", (2, 0, -2)), ("invalid", (2, 4, 0)), ("above", (66, 0, 0)), ("mixed", (3, 2, 1))]

    def run_flags(item, rec):
        try:
            state = True
            S.error_on_bad_indices = True
            hist = []
            for op in item:
                hist.append(op)
                if op in (0, 1, 2, 3, 4, 5):
                    state = bool(op % 2)
                    S.error_on_bad_indices = [False, True, 0, 1, np.False_, np.True_][op]
                for name, p in calls:
                    l, mp, m = (v / 2 for v in p)
                    for kind in range(3):
                        R = q(ROT[0])
                        f = [lambda: S.Wigner_D_element(R, l, mp, m), lambda: S.Wigner_D_element(R, [[l, mp, m]])[0],
                             lambda: S.Wigner_D_element(qarr([ROT[0], ROT[1]]), l, mp, m)[0]][kind]
                        rec.st(); rec.tr()
                        if name == "valid":
                            x, tol = expect(0, *p)
                            rec.close(f(), x, tol, f"history {hist}: valid element")
                        elif state:
                            rec.raises(ValueError, f, f"history {hist}: {name} with errors enabled")
                        else:
                            rec.check(f() == 0, f"history {hist}: {name} with errors disabled")
            rec.trace()
        finally:
            S.error_on_bad_indices = True

    def run_ranges(item, rec):
        lmin = item
        R = q(ROT[0])
        for lmax in list(range(-2, 40)) + [64, 100]:
            if 0 <= lmin <= lmax <= LMAX or lmin > lmax:
                continue
            for fl in (True, False):
                rec.st(); rec.tr(); rec.trace()
                with flag(fl):
                    rec.raises(ValueError, lambda: S.Wigner_D_matrices(R, lmin, lmax), f"Wigner_D_matrices(R, {lmin}, {lmax}), flag {fl}")
        for h in (lmin + .5, lmin + .25):
            rec.raises(ValueError, lambda: S.Wigner_D_matrices(R, h, 5), f"Wigner_D_matrices(R, {h}, 5)")
            rec.raises(ValueError, lambda: S.Wigner_D_matrices(R, 0, h), f"Wigner_D_matrices(R, 0, {h})")

    badells = [-20, -2, -1, -.5, -1.5, 32.5, 33, 33.5, 34, 64, 100, 1000]
    goodells = [0, .5, 1, 2, 3.5, 32]

    def run_ells(item, rec):
        bad = item
        R = q(ROT[1])
        Ra, Rb = ab(ROT[1])
        cases = [bad, float(bad), np.float64(bad), [bad]]
        for n in (2, 3, 4):
            for k in range(n):
                for s in range(len(goodells)):
                    v = [goodells[(s + 2 * j) % len(goodells)] for j in range(n)]
                    v[k] = bad
                    cases += [v, np.array(v)]
        for c in cases:
            for rot in ((R,), (Ra, Rb), (.1, .2, .3)):
                for fl in (True, False):
                    rec.st(); rec.tr(); rec.trace()
                    with flag(fl):
                        rec.raises(ValueError, lambda: S.Wigner_D_element(*rot, c), f"Wigner_D_element({len(rot)} args, ells={c!r}), flag {fl}")

    # ---- SWSH
    def run_swsh(item, rec):
        r, s = item
        R = q(ROT[r])
        Rs = qarr([ROT[r], ROT[0], ROT[3], ROT[2], ROT[1], ROT[6]])
        L = 9
        pairs = [(l, m) for l in range(0, L) for m in range(-L - 2, L + 3)]
        ref = SWSH_all([ROT[r]], [s], L)[s][0].astype(complex)
        cond = SWSH_all([ROT[r]], [s], L, absolute=True)[s][0].astype(float)
        got = S.SWSH(R, s, np.array(pairs))
        rec.st(len(pairs)); rec.tr(); rec.trace()
        for (l, m), g in zip(pairs, got):
            if abs(m) > l or abs(s) > l:
                rec.check(g == 0, lambda: f"SWSH(R={ROT[r]}, s={s}, ({l},{m})) = {g}, expected exactly 0")
            else:
                k = l * l + l + m
                rec.close(g, ref[k], 2e-13 + 3e-14 * cond[k], lambda: f"SWSH(R={ROT[r]}, s={s}, ({l},{m})) next to invalid indices")
        for (l, m) in pairs:
            if abs(m) > l or abs(s) > l:
                rec.tr(); rec.trace()
                g = S.SWSH(Rs, s, (l, m))
                rec.check(np.all(g == 0) and g.shape == (6,), lambda: f"SWSH(Rs, s={s}, ({l},{m})) = {g}, expected zeros")
        for lmax in range(0, min(abs(s) + 2, LMAX) + 1):
            rec.tr(); rec.trace()
            g = S.SWSH_grid(Rs.reshape(2, 3), s, lmax)
            rec.check(np.all(g[..., :min(s * s, (lmax + 1) ** 2)] == 0), lambda: f"SWSH_grid(s={s}, {lmax}) is not zero below |s|")
        for l in (33, 34, 40, 64, 100):
            rec.raises(ValueError, lambda: S.SWSH(R, s, [[l, 0]]), f"SWSH(R,{s},[[{l},0]])")
            rec.raises(ValueError, lambda: S.SWSH(Rs, s, (l, 0)), f"SWSH(Rs,{s},({l},0))")
            rec.raises(ValueError, lambda: S.SWSH_grid(Rs, s, l), f"SWSH_grid(Rs,{s},{l})")
            for n in range(1, 5):
                for k in range(n + 1):
                    rows = [[2, 1], [5, -3], [32, 7], [0, 0]][:n]
                    rows.insert(k, [l, 1])
                    rec.tr(); rec.trace()
                    rec.raises(ValueError, lambda: S.SWSH(R, s, np.array(rows)), f"SWSH(R,{s},{rows})")
            rec.tr(3); rec.trace(3)

    rots = range(2, 4) if not thorough else range(len(ROT))
    tlow = range(-4, 13)
    thigh = [61, 62, 63, 64, 65, 66, 67, 68]
    ahigh = [-66, -65, -64, -63, -2, -1, 0, 1, 62, 63, 64, 65, 66]
    box = [[r, t, a] for r in ([0, 1] + list(rots) if thorough else [0, 2, 3]) for t in tlow for a in range(-14, 15)] + [[0, t, a] for t in thigh for a in ahigh]
    return [
        Family("box", box, run_box, note="all (2ell,2mp,2m) in [-4,12]x[-14,14]^2 and around ell=32, nine call forms, both flag settings"),
        Family("mixed_rows", [[r, s] for r in range(4) for s in range(7 if thorough else 2)], run_mixed, note="all 2^n placements of invalid rows among n valid ones"),
        Family("positions", [[r, n] for r in (0, 3) for n in list(range(1, 21)) + [32, 33, 64, 65, 128, 129, 256, 257, 600, 1100]], run_positions, note="one invalid row at every position"),
        Family("flag_histories", [list(h) for n in (1, 2, 3, 4) for h in itertools.product(range(7 if n < 4 else 3), repeat=n)], run_flags,
               note="all histories of flag assignments (values False/True/0/1/np) and calls"),
        Family("ranges", list(range(-5, 40)), run_ranges, note="all invalid (ell_min, ell_max) of Wigner_D_matrices"),
        Family("ell_values", badells, run_ells, note="invalid ell alone and in every position of lists"),
        Family("swsh", [[r, s] for s in range(-34, 35) for r in range(len(ROT))], run_swsh, note="all (s, ell, m) incl. |m|>ell, |s|>ell; ell>32"),
    ]
