"""C20: products of mode arrays, and truncation."""
import numpy as np
from .core import Family, pmap
from .common import *

ASSUMPTIONS = ["accuracy demanded is 1e-12 times the sum of the absolute values of the terms"]


def pad(f, lmin):
    """modes from ell=0"""
    return np.concatenate([np.zeros(f.shape[:-1] + (lmin ** 2,), dtype=complex), f], axis=-1)


def families(tier):
    S = sf()
    thorough = tier != "quick"

    def ref(f, lf0, lf, sf_, g, lg0, lg, sg, L):
        return ref_multiply(pad(f, lf0), lf, sf_, pad(g, lg0), lg, sg, L)

    def close(rec, got, want, scale, msg):
        rec.close(got, want, 1e-12 * scale, msg)

    def call(rec, f, lf0, lf, s1, g, lg0, lg, s2, what=""):
        kf, kg = f.copy(), g.copy()
        out = S.multiply(f, lf0, lf, s1, g, lg0, lg, s2)
        rec.st(); rec.tr(); rec.trace()
        msg = lambda: f"multiply(f{f.shape} {lf0}..{lf} s={s1}, g{g.shape} {lg0}..{lg} s={s2}) {what}"
        rec.check(isinstance(out, tuple) and len(out) == 4, msg)
        fg, a, b, s = out
        rec.check((a, b, s) == (0, lf + lg, s1 + s2), lambda: msg() + f": reported ell_min, ell_max, s = {a, b, s}")
        want = ref(f, lf0, lf, s1, g, lg0, lg, s2, lf + lg)
        close(rec, fg, want, 1 + lf + lg, msg)
        rec.check(same(f, kf) and same(g, kg), lambda: msg() + ": a factor was modified")
        rec.check(not np.shares_memory(fg, f) and not np.shares_memory(fg, g), "result shares memory with a factor")
        return fg

    def run_basis(item, rec):
        """all pairs of basis modes in one call, f: (Nf,1,Nf), g: (Ng,Ng)"""
        s1, s2, lf, lg = item
        f = np.eye((lf + 1) ** 2, dtype=complex)[:, None, :].copy()
        g = np.eye((lg + 1) ** 2, dtype=complex)
        fg, a, b, s = S.multiply(f, 0, lf, s1, g, 0, lg, s2)
        L = lf + lg
        i, j, k, v = product_arrays(lf, s1, lg, s2, L)
        want = np.zeros(((lf + 1) ** 2, (lg + 1) ** 2, (L + 1) ** 2), dtype=complex)
        np.add.at(want, (i, j, k), v)
        rec.st(want.shape[0] * want.shape[1]); rec.tr(); rec.trace()
        rec.check((a, b, s) == (0, L, s1 + s2), f"multiply: reported {a, b, s}")
        close(rec, fg, want, 1 + L, lambda: f"multiply of all pairs of basis modes, s={s1},{s2}, ell_max={lf},{lg}")

    def run_ranges(item, rec):
        s1, s2 = item
        top = 3 if not thorough else 5
        rng = [(a, b) for b in range(top + 1) for a in range(b + 1)]
        for (lf0, lf) in rng:
            for (lg0, lg) in rng:
                f = generic(len(LM(lf0, lf)), .1 * s1 + lf)
                g = generic(len(LM(lg0, lg)), 2 + .1 * s2 + lg)
                call(rec, f, lf0, lf, s1, g, lg0, lg, s2)

    def run_large(item, rec):
        s1, s2, lf, lg = item
        f = generic((lf + 1) ** 2, .1 * s1 + lf)
        g = generic((lg + 1) ** 2, 2 + .1 * s2 + lg)
        call(rec, f, 0, lf, s1, g, 0, lg, s2)
        # garbage below |s| is ignored
        call(rec, f[1:], 1, lf, s1, g, 0, lg, s2)

    def run_wide(item, rec):
        """large ell_max, ell_min and spins: the values of the product at rotors"""
        s1, s2, lf0, lf, lg0, lg = item
        f = generic_array((2, len(LM(lf0, lf))), .1 * s1 + lf)
        g = generic_array((len(LM(lg0, lg)),), 2 + .1 * s2 + lg)
        kf, kg = f.copy(), g.copy()
        L = lf + lg
        pts = rotor_alphabet(0)[::4]
        Y = SWSH_all(pts, sorted({s1, s2, s1 + s2}), L)
        val = lambda w, s: (w.astype(CLD) @ Y[s][:, :w.shape[-1]].T).astype(complex)
        vf, vg = val(pad(f, lf0), s1), val(pad(g, lg0), s2)
        for swap in (0, 1):
            fg, a, b, s = S.multiply(g, lg0, lg, s2, f, lf0, lf, s1) if swap else S.multiply(f, lf0, lf, s1, g, lg0, lg, s2)
            rec.st(); rec.tr(); rec.trace()
            msg = f"multiply(f {lf0}..{lf} s={s1}, g {lg0}..{lg} s={s2}){' swapped' if swap else ''}"
            rec.check((a, b, s, fg.shape) == (0, L, s1 + s2, (2, (L + 1) ** 2)), lambda: f"{msg}: {a, b, s}, shape {fg.shape}")
            rec.check(not fg[..., :min(s * s, fg.shape[-1])].any(), lambda: f"{msg}: nonzero weights below |s|")
            rec.close(val(fg, s), vf * vg, 1e-12 * (1 + lf) * (1 + lg) * (1 + L), lambda: f"values of {msg}")
        rec.check(same(f, kf) and same(g, kg), lambda: msg + ": a factor was modified")

    shapes = [((), ()), ((2,), ()), ((), (3,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (4,)), ((3, 2), ()), ((3, 2), (3, 2)), ((2, 1), (2, 3)), ((1, 1), (2, 2)), ((0,), ()), ((0,), (0,)), ((5,), (1,)), ((40,), (40,)), ((130,), ())]
    big = [(x, y) for n in (17, 33, 64, 65, 100, 128, 129, 256, 257, 513, 1000, 1024, 1025, 2049, 4097) for x, y in (((n,), (n,)), ((n,), ()), ((), (n,)))]
    big += [((3, 17), (3, 17)), ((17, 3), (3,)), ((2, 64), (2, 1)), ((65, 1), (1, 3)), ((2, 1, 2), (3, 1))]
    nsmall = len(shapes)
    shapes += big
    layouts = ["C", "F", "slice"]

    def lay(a, k):
        if k == "F":
            return np.asfortranarray(a)
        if k == "slice":
            b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 99 + 0j)
            b[..., ::2] = a
            return b[..., ::2]
        return a

    def run_shapes(item, rec):
        si, s1, s2, lk = item
        sh1, sh2 = shapes[si]
        for (lf0, lf), (lg0, lg) in itertools.product([(0, 1), (1, 2), (0, 0)], [(0, 2), (2, 2), (1, 1)]) if si < nsmall else [((1, 2), (0, 1))]:
            f = lay(generic_array(sh1 + (len(LM(lf0, lf)),), .4), lk)
            g = lay(generic_array(sh2 + (len(LM(lg0, lg)),), 1.4), lk)
            call(rec, f, lf0, lf, s1, g, lg0, lg, s2, lk)
            call(rec, f, lf0, lf, s1, g, lg0, lg, s2, lk + " again")

    # --- truncation with Modes
    TR = {"none": None, "sum": sum, "max": max, "min": min, "0": lambda t: 0, "2": lambda t: 2, "first": lambda t: t[0], "second": lambda t: t[1], "sum+1": lambda t: sum(t) + 1, "diff": lambda t: abs(t[0] - t[1]), "7": lambda t: 7}

    def run_trunc(item, rec):
        s1, s2, lf, lg = item
        f = ref_zero_low(generic((lf + 1) ** 2, .3 + s1), s1)
        g = ref_zero_low(generic((lg + 1) ** 2, .8 + s2), s2)
        want_full = ref_multiply(f, lf, s1, g, lg, s2, lf + lg)

        def expect(L):
            n = (L + 1) ** 2
            w = np.zeros(n, dtype=complex)
            k = min(n, len(want_full))
            w[:k] = want_full[:k]
            return w

        def judge(res, L, what):
            rec.st(); rec.tr(); rec.trace()
            rec.check(type(res) is S.Modes and res.s == s1 + s2 and res.ell_max == L and res.ell_min == 0, lambda: f"{what}: s={res.s}, ell_max={res.ell_max}, expected s={s1 + s2}, ell_max={L}")
            close(rec, res.view(np.ndarray), expect(L), 1 + lf + lg, what)
        for n1, t1 in TR.items():
            for n2, t2 in TR.items():
                F = S.Modes(f.copy(), spin_weight=s1, **({} if t1 is None else dict(multiplication_truncator=t1)))
                G = S.Modes(g.copy(), spin_weight=s2, **({} if t2 is None else dict(multiplication_truncator=t2)))
                L = max((t1 or sum)((lf, lg)), (t2 or sum)((lf, lg)))
                what = f"Modes(s={s1},L={lf},truncator {n1}) * Modes(s={s2},L={lg},truncator {n2})"
                judge(F * G, L, what)
                judge(np.multiply(F, G), L, "np.multiply: " + what)
                judge(F.multiply(G), L, "method: " + what)
                for n3 in ("sum", "min", "2", "sum+1"):
                    judge(F.multiply(G, truncator=TR[n3]), TR[n3]((lf, lg)), f"{what} with explicit truncator {n3}")
                rec.check(same(F.view(np.ndarray), f) and same(G.view(np.ndarray), g) and (F.s, F.ell_max, G.s, G.ell_max) == (s1, lf, s2, lg), f"{what}: operand modified")

    def warm():
        # compile the numba specialisations in parallel; they land in the on-disk cache
        def one(k):
            sh1, sh2 = shapes[k % len(shapes)] if k < 3 * len(shapes) else ((4, 1), (4,))
            kind = layouts[k // len(shapes)] if k < 3 * len(shapes) else "C"
            f = lay(generic_array(sh1 + (4,), .4), kind)
            g = lay(generic_array(sh2 + (4,), .4), kind)
            S.multiply(f, 0, 1, 0, g, 0, 1, 0)
        seen, todo = set(), []
        for k in range(3 * len(shapes)):
            sh1, sh2 = shapes[k % len(shapes)]
            kind = layouts[k // len(shapes)]
            f, g = lay(generic_array(sh1 + (4,), .4), kind), lay(generic_array(sh2 + (4,), .4), kind)
            key = tuple((a.ndim, a.flags.c_contiguous, a.flags.f_contiguous) for a in (f, g))
            if key not in seen:
                seen.add(key)
                todo.append(k)
        todo.append(3 * len(shapes))
        pmap(one, todo)
        for k in todo:
            one(k)
    sp = range(-4, 5)
    Lb = [(2, 2), (3, 1)] if not thorough else [(a, b) for a in range(5) for b in range(5)]
    large = [(s1, s2, lf, lg) for s1 in (-2, 0, 1) for s2 in (-1, 0, 2) for lf, lg in ((8, 8), (12, 3), (5, 11))]
    if thorough:
        large += [(s1, s2, 16, 16) for s1 in (-2, 0) for s2 in (2, 1)] + [(-2, -3, 10, 12)]
    wide = [(0, 0, 0, 33, 5, 33), (-2, -2, 2, 40, 0, 20), (1, -2, 7, 16, 9, 30), (-9, 8, 3, 20, 8, 20), (12, 12, 0, 16, 12, 15), (-5, 7, 20, 24, 17, 18), (20, -20, 20, 22, 1, 24), (3, 3, 32, 33, 0, 3),
            (5, 0, 31, 31, 2, 4), (-1, 2, 0, 3, 30, 32), (6, -5, 0, 9, 0, 9), (-7, -6, 1, 9, 2, 8)]
    if thorough:
        wide += [(a, b, 4, x, 1, y) for a in (-17, -2, 0, 5) for b in (-5, 0, 2, 17) for x, y in ((32, 32), (45, 20), (18, 50))]
    fams = [
        Family("wide", [list(x) for x in wide], run_wide, note="ell_max to 40, spins to 20, large ell_min; by values at rotors"),
        Family("shapes", [[i, s1, s2, k] for k in layouts for i in range(len(shapes)) for s1, s2 in ((0, 0), (-1, 1), (1, -2)) if k == 'C' or i < nsmall], run_shapes, warm, note=f"{len(shapes)} pairs of leading shapes x layouts"),
        Family("large", [list(x) for x in large], run_large, note="ell_max to 12 (16)"),
        Family("basis_pairs", [[s1, s2, lf, lg] for lf, lg in Lb for s1 in sp for s2 in sp], run_basis, note="all pairs of basis modes, all spin pairs in -4..4"),
        Family("ranges", [[s1, s2] for s1 in sp for s2 in sp], run_ranges, note="all (ell_min, ell_max) of both factors up to 3 (5)"),
        Family("truncators", [[s1, s2, lf, lg] for s1, s2 in ((0, 0), (-1, 1), (1, 2), (-2, 0)) for lf, lg in ((2, 2), (1, 3), (3, 2), (2, 0))], run_trunc, note="all pairs of 11 truncators x explicit truncators x call forms"),
    ]
    return fams
