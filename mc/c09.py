"""C09: index, size and range functions are mutually consistent and in the documented order."""
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["0 <= ell_min <= ell_max (and the empty range ell_max = ell_min-1 for sizes)"]


def families(tier):
    S = sf()
    thorough = tier != "quick"
    import spherical_functions.recursions.wignerH as WH
    import spherical_functions.WignerD.WignerDRecursion as WR
    LB = 64 if not thorough else 128
    full = [(l, m) for l in range(LB + 1) for m in range(-l, l + 1)]

    def run_lm(item, rec):
        lmin = item
        for lmax in range(lmin, LB + 1):
            want = np.array(full[lmin ** 2:(lmax + 1) ** 2])
            for a, b in ((lmin, lmax), (np.int64(lmin), np.int64(lmax)), (np.int32(lmin), np.int32(lmax))):
                got = S.LM_range(a, b)
                rec.st(); rec.tr(2); rec.trace()
                rec.check(np.issubdtype(got.dtype, np.integer) and got.shape == want.shape and np.array_equal(got, want), lambda: f"LM_range({a},{b})")
                rec.check(S.LM_total_size(a, b) == len(want), lambda: f"LM_total_size({a},{b}) = {S.LM_total_size(a, b)}, expected {len(want)}")
            d = S.LM_deduce_ell_max(len(want), lmin)
            rec.check(d == lmax and isinstance(d, (int, np.integer)), lambda: f"LM_deduce_ell_max({len(want)},{lmin}) = {d}")
            if lmin == 0:
                rec.check(S.LM_deduce_ell_max(len(want)) == lmax, "LM_deduce_ell_max default")
        for i, (l, m) in enumerate(full[lmin ** 2:]):
            rec.tr()
            k = S.LM_index(l, m, lmin)
            rec.check(k == i, lambda: f"LM_index({l},{m},{lmin}) = {k}, expected {i}")
        rec.check(S.LM_total_size(lmin, lmin - 1) == 0, "empty size")
        got = S.LM_range(lmin, lmin - 1) if lmin > 0 else np.zeros((0, 2))
        rec.check(got.shape == (0, 2), "empty LM_range")

    def run_deduce(item, rec):
        lmin, a, b = item
        valid = {S_: L for L in range(lmin, 2000) for S_ in [(L + 1) ** 2 - lmin ** 2]}
        for size in range(max(a, 1), b):
            rec.st(); rec.tr(); rec.trace()
            if size in valid:
                d = S.LM_deduce_ell_max(size, lmin)
                rec.check(d == valid[size], lambda: f"LM_deduce_ell_max({size},{lmin}) = {d}, expected {valid[size]}")
            else:
                rec.raises(ValueError, lambda: S.LM_deduce_ell_max(size, lmin), f"LM_deduce_ell_max({size},{lmin})")

    def run_deduce_big(item, rec):
        L = item
        for lmin in sorted({0, 1, 2, 3, 10, 64, 100, L // 2, L - 1, L}):
            if lmin <= L:
                size = (L + 1) ** 2 - lmin ** 2
                rec.st(); rec.tr(); rec.trace()
                d = S.LM_deduce_ell_max(size, lmin)
                rec.check(d == L, lambda: f"LM_deduce_ell_max({size},{lmin}) = {d}, expected {L}")
                for delta in (-2, -1, 1, 2):
                    if math.isqrt(size + delta + lmin ** 2) ** 2 != size + delta + lmin ** 2 and size + delta > 0:
                        rec.raises(ValueError, lambda: S.LM_deduce_ell_max(size + delta, lmin), f"LM_deduce_ell_max({size + delta},{lmin})")
                rec.check(S.LM_total_size(lmin, L) == size, lambda: f"LM_total_size({lmin},{L})")
                for m in (-L, -1, 0, 1, L):
                    if abs(m) <= L:
                        rec.check(S.LM_index(L, m, lmin) == L * L - lmin * lmin + L + m, lambda: f"LM_index({L},{m},{lmin})")

    def run_lmpm_big(item, rec):
        L = item
        tot = lambda n: n * (2 * n - 1) * (2 * n + 1) // 3 if n > 0 else 0      # sum of (2l+1)^2 for l < n
        for lmin in sorted({0, 1, 2, 33, 100, L // 2, L - 1, L}):
            if lmin > L:
                continue
            rec.st(); rec.tr(); rec.trace()
            size = tot(L + 1) - tot(lmin)
            rec.check(S.LMpM_total_size(lmin, L) == size, lambda: f"LMpM_total_size({lmin},{L}) = {S.LMpM_total_size(lmin, L)}, expected {size}")
            for a in sorted({-L, -L + 1, -1, 0, 1, L - 1, L}):
                for b in sorted({-L, -1, 0, 1, L}):
                    want = tot(L) - tot(lmin) + (L + a) * (2 * L + 1) + L + b
                    rec.tr()
                    k = S.LMpM_index(L, a, b, lmin)
                    rec.check(k == want, lambda: f"LMpM_index({L},{a},{b},{lmin}) = {k}, expected {want}")

    LM3 = LMAX if not thorough else 48
    off3 = np.concatenate([[0], np.cumsum([(2 * l + 1) ** 2 for l in range(200)])])
    full3 = np.array([(l, a, b) for l in range(LM3 + 1) for a in range(-l, l + 1) for b in range(-l, l + 1)])

    def run_lmpm(item, rec):
        lmin = item
        for lmax in range(lmin, LM3 + 1):
            want = full3[off3[lmin]:off3[lmax + 1]]
            got = S.LMpM_range(lmin, lmax)
            rec.st(); rec.tr(2); rec.trace()
            rec.check(got.shape == want.shape and np.array_equal(got, want), lambda: f"LMpM_range({lmin},{lmax})")
            rec.check(S.LMpM_total_size(lmin, lmax) == len(want), lambda: f"LMpM_total_size({lmin},{lmax})")
        for l in range(lmin, LM3 + 1):
            for a in range(-l, l + 1):
                base = int(off3[l] - off3[lmin] + (l + a) * (2 * l + 1) + l)
                for b in range(-l, l + 1):
                    k = S.LMpM_index(l, a, b, lmin)
                    if k != base + b:
                        rec.fail(f"LMpM_index({l},{a},{b},{lmin}) = {k}, expected {base + b}")
                rec.tr(2 * l + 1)
                rec.comparisons += 2 * l + 1
        for lmax in (64, 100, 150):
            rec.check(S.LMpM_total_size(lmin, lmax) == off3[lmax + 1] - off3[lmin], lambda: f"LMpM_total_size({lmin},{lmax})")
        for h in (.5, 1.5, 7.5):
            rec.raises(ValueError, lambda: S.LMpM_range(h, 9), f"LMpM_range({h},9)")
            rec.raises(ValueError, lambda: S.LMpM_range(0, h), f"LMpM_range(0,{h})")

    LH = 32 if not thorough else 64
    fullh = np.array([(t, a, b) for t in range(LH + 1) for a in range(-t, t + 1, 2) for b in range(-t, t + 1, 2)]) / 2
    offh = np.concatenate([[0], np.cumsum([(t + 1) ** 2 for t in range(LH + 1)])])

    def run_half(item, rec):
        t0 = item
        for t1 in range(t0, LH + 1):
            want = fullh[offh[t0]:offh[t1 + 1]]
            forms = [(t0 / 2, t1 / 2)]
            if t0 % 2 == 0 and t1 % 2 == 0:
                forms.append((t0 // 2, t1 // 2))
            for a, b in forms:
                got = S.LMpM_range_half_integer(a, b)
                rec.st(); rec.tr(); rec.trace()
                rec.check(got.shape == want.shape and np.array_equal(got, want), lambda: f"LMpM_range_half_integer({a!r},{b!r}): shape {got.shape}, expected {want.shape}")

    def run_theta_phi(item, rec):
        nt = item
        for nph in (list(range(1, 26)) if nt > 25 else range(1, 401 if nt in (1, 2, 7) or thorough else 130)):
            got = S.theta_phi(nt, nph)
            rec.st(); rec.tr(); rec.trace()
            th = np.array([math.pi * i / (nt - 1) if nt > 1 else 0.0 for i in range(nt)])
            ph = np.array([2 * math.pi * j / nph for j in range(nph)])
            want = np.stack(np.broadcast_arrays(th[:, None], ph[None, :]), axis=-1)
            rec.close(got, want, 4e-15, lambda: f"theta_phi({nt},{nph})")
            if nt > 1:
                rec.check(got[-1, 0, 0] <= math.pi and got[0, 0, 0] == 0, "end points")

    NW = 20 if not thorough else 40

    def run_wedge(item, rec):
        n = item
        start = sum(sum(k + 1 - abs(mp) for mp in range(-k, k + 1)) for k in range(n))
        i = start
        for mp in range(-n, n + 1):
            for m in range(abs(mp), n + 1):
                rec.st(); rec.tr()
                k = WH.wedge_index(n, mp, m)
                rec.check(k == i, lambda: f"wedge_index({n},{mp},{m}) = {k}, expected {i}")
                i += 1
        rec.check(WH.wedge_size(n) == i, lambda: f"wedge_size({n}) = {WH.wedge_size(n)}, expected {i}")
        for mp in range(-n, n + 1):
            for m in range(-n, n + 1):
                a = tuple(int(v) for v in WH.wedgeify_index(n, mp, m))
                rec.tr(); rec.trace()
                rec.check(a in {(n, mp, m), (n, m, mp), (n, -mp, -m), (n, -m, -mp)} and a[2] >= abs(a[1]), lambda: f"wedgeify_index({n},{mp},{m}) = {a}")
        for mod in (WH, WR):
            if all(hasattr(mod, f) for f in ("nm_index", "nabsm_index", "nmpm_index")):
                i = n * n
                for m in range(-n, n + 1):
                    rec.check(mod.nm_index(n, m) == i, lambda: f"nm_index({n},{m})")
                    i += 1
                i = n * (n + 1) // 2
                for m in range(n + 1):
                    rec.check(mod.nabsm_index(n, m) == i, lambda: f"nabsm_index({n},{m})")
                    i += 1
                i = int(off3[n])
                for a in range(-n, n + 1):
                    for b in range(-n, n + 1):
                        rec.check(mod.nmpm_index(n, a, b) == i, lambda: f"nmpm_index({n},{a},{b})")
                        i += 1
                rec.tr((2 * n + 1) * (2 * n + 2) + n + 1)
    top = 20000 if not thorough else 200000
    return [
        Family("LMpM", list(range(LM3 + 1)), run_lmpm, note=f"all ell_min<=ell_max<={LM3}, all indices"),
        Family("LM", list(range(LB + 1)), run_lm, note=f"all ell_min<=ell_max<={LB}, all indices"),
        Family("half", list(range(LH + 1)), run_half, note=f"all twoell_min<=twoell_max<={LH}"),
        Family("deduce", [[l, a, a + 2000] for l in (0, 1, 2, 3, 4, 7, 16, 33) for a in range(0, top, 2000)], run_deduce, note=f"all sizes 1..{top}"),
        Family("deduce_big", [66, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 10 ** 4, 10 ** 5 - 1, 10 ** 5, 10 ** 6, 2 ** 20 - 1, 2 ** 20, 10 ** 7], run_deduce_big, note="huge ell_max"),
        Family("LMpM_big", [33, 40, 63, 64, 65, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 10 ** 4, 10 ** 5], run_lmpm_big, note="LMpM_index and LMpM_total_size for huge ell"),
        Family("theta_phi", list(range(1, 26)) + list(range(26, 401)), run_theta_phi, note="all n_theta <= 25 with all n_phi <= 129 (400 for some), all n_theta <= 400 with all n_phi <= 25"),
        Family("wedge", list(range(NW + 1)), run_wedge, note=f"all n<={NW}"),
    ]
