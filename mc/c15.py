"""C15: Modes <-> Grid."""
import numpy as np
from .core import Family, pmap
from .common import *

ASSUMPTIONS = ["spinsfast requires ell_max >= 1; the function's ell_max is at least |s|", "modes are recovered for 2 ell_max + 1 <= min(n_theta, n_phi)"]


def families(tier):
    S = sf()
    Modes, Grid = S.Modes, S.Grid
    thorough = tier != "quick"

    def data(s, L, lead=(), seed=.4):
        return ref_zero_low(generic_array(lead + ((L + 1) ** 2,), seed + .13 * s), s)

    def jg(rec, g, want, s, what):
        rec.st(); rec.tr(); rec.trace()
        rec.check(type(g) is Grid and g.s == s, lambda: f"{what()}: {type(g).__name__}, s={getattr(g, 's', None)}, expected s={s}")
        rec.check((g.n_theta, g.n_phi) == want.shape[-2:], lambda: f"{what()}: n_theta, n_phi = {g.n_theta, g.n_phi}")
        rec.close(g.view(np.ndarray), want, 2e-13 * (1 + float(np.max(np.abs(want), initial=0))), what)

    def jm(rec, m, want, s, L, what, tol=2e-13):
        rec.st(); rec.tr(); rec.trace()
        rec.check(type(m) is Modes and (m.s, m.ell_min, m.ell_max) == (s, 0, L), lambda: f"{what()}: {type(m).__name__}, s={getattr(m, 's', None)}, ell_max={getattr(m, 'ell_max', None)}; expected s={s}, ell_max={L}")
        d = m.view(np.ndarray)
        rec.close(d, want, tol * (1 + float(np.max(np.abs(want), initial=0))), what)
        rec.check(not d[..., :min(s * s, d.shape[-1])].any(), lambda: f"{what()}: nonzero modes below |s|")

    def pad(a, L):
        out = np.zeros(a.shape[:-1] + ((L + 1) ** 2,), dtype=complex)
        k = min(a.shape[-1], out.shape[-1])
        out[..., :k] = a[..., :k]
        return out

    LEADS = [(), (2,), (2, 3), (1,), (0,), (1, 1, 2), (65,)]

    def layouts(a, axes):
        yield "C", a.copy()
        yield "F", np.asfortranarray(a)
        big = np.full(a.shape[:-1] + (2 * a.shape[-1],), 9 + 9j)
        big[..., ::2] = a
        yield "strided", big[..., ::2]
        ro = a.copy()
        ro.flags.writeable = False
        yield "read-only", ro
        if a.ndim > axes:
            yield "reversed", np.ascontiguousarray(a[::-1])[::-1]
        if a.ndim > axes + 1:
            yield "transposed", np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)

    def run_grid(item, rec):
        s, L = item
        n0 = 2 * L + 1
        extra = range(4) if L <= 5 or thorough else (0, 1, 3)
        for lead in LEADS:
            if lead == (65,) and L > 3:
                continue
            a = data(s, L, lead)
            m = Modes(a.copy(), spin_weight=s)
            for i in extra:
                for j in extra if lead in ((), (2,)) else (0, 1, 3):
                    nt, nph = n0 + i, n0 + j
                    if lead not in ((), (2,)) and i > 1:
                        continue
                    want = ref_grid(a, s, L, nt, nph)
                    for nm, f in {"keywords": lambda: m.grid(n_theta=nt, n_phi=nph), "positional": lambda: m.grid(nt, nph)}.items():
                        jg(rec, f(), want, s, lambda: f"Modes(s={s}, L={L}, {lead}).grid({nt}, {nph}) {nm}")
                    if i == j:
                        jg(rec, m.grid(nt), want, s, lambda: f"Modes(s={s}, L={L}, {lead}).grid({nt})")
                        jg(rec, m.grid(n_theta=nt), want, s, lambda: f"Modes(s={s}, L={L}, {lead}).grid(n_theta={nt})")
                    if i == 0:
                        jg(rec, m.grid(n_phi=nph), want, s, lambda: f"Modes(s={s}, L={L}, {lead}).grid(n_phi={nph})")
                    # recover the modes from independently computed values
                    g = Grid(want.copy(), spin_weight=s)
                    for K in range(max(1, abs(s)), (min(nt, nph) - 1) // 2 + 1):
                        r = g.modes(K)
                        jm(rec, r, pad(a, K), s, K, lambda: f"Grid(s={s}, {lead}+({nt},{nph}), band limit {L}).modes({K})")
                    r = g.modes(ell_max=L)
                    jm(rec, r, a, s, L, lambda: f"Grid(s={s}, {lead}+({nt},{nph})).modes(ell_max={L})")
                    if nt == nph:
                        K = (nt - 1) // 2
                        jm(rec, g.modes(), pad(a, K), s, K, lambda: f"Grid(s={s}, {lead}+({nt},{nph})).modes()")
                    rec.check(g.s == s and same(g.view(np.ndarray), want), lambda: f"Grid.modes modified the grid (s={s}, {nt}x{nph})")
                    rec.check(not np.shares_memory(r, g), "Grid.modes shares memory")
            jg(rec, m.grid(), ref_grid(a, s, L, n0, n0), s, lambda: f"Modes(s={s}, L={L}, {lead}).grid()")
            rec.check((m.s, m.ell_max) == (s, L) and same(m.view(np.ndarray), a), lambda: f"Modes.grid modified the modes (s={s}, L={L})")

    def run_sizes(item, rec):
        lead, s = tuple(item[0]), item[1]
        L = 2
        a = data(s, L, lead)
        m = Modes(a.copy(), spin_weight=s)
        want = ref_grid(a, s, L, 6, 5)
        jg(rec, m.grid(6, 5), want, s, lambda: f"Modes(s={s}, L={L}, {lead}).grid(6, 5)")
        jm(rec, Grid(want.copy(), s).modes(L), a, s, L, lambda: f"Grid(s={s}, {lead}+(6, 5)).modes({L})")
        rec.check((m.s, m.ell_max) == (s, L) and same(m.view(np.ndarray), a), lambda: f"Modes.grid modified the modes (s={s}, {lead})")

    def run_layouts(item, rec):
        s, L = item
        for lead in LEADS:
            a = data(s, L, lead)
            nt, nph = 2 * L + 2, 2 * L + 3
            want = ref_grid(a, s, L, nt, nph)
            for k, x in layouts(a, 1):
                if k == "read-only":
                    continue        # the constructor writes zeros below |s| into the array it views
                m = Modes(x, spin_weight=s)
                jg(rec, m.grid(nt, nph), want, s, lambda: f"grid of {k} Modes(s={s}, L={L}, {lead})")
                rec.check(np.array_equal(m.ndarray, a), lambda: f"grid modified {k} Modes")
            for k, x in layouts(want, 2):
                g = Grid(x, spin_weight=s)
                jm(rec, g.modes(L), a, s, L, lambda: f"modes of {k} Grid(s={s}, L={L}, {lead})")
                rec.check(np.array_equal(g.ndarray, want), lambda: f"modes modified {k} Grid")
            # metadata
            m = Modes(a.copy(), spin_weight=s, multiplication_truncator=max)
            back = m.grid(nt, nph).modes(L)
            jm(rec, back, a, s, L, lambda: f"there and back (s={s}, L={L}, {lead})")
            if 2 * abs(s) <= L:
                rec.check((back * back).ell_max == L, "multiplication_truncator lost in Modes -> Grid -> Modes")
            k = Modes(a.copy(), spin_weight=s).grid(nt, nph, multiplication_truncator=max).modes(L)
            rec.check(2 * abs(s) > L or (k * k).ell_max == L, "keyword of Modes.grid not carried along")
            k = Modes(a.copy(), spin_weight=s).grid(nt, nph).modes(L, multiplication_truncator=max)
            rec.check(2 * abs(s) > L or (k * k).ell_max == L, "keyword of Grid.modes not carried along")
            # slices of a Modes / Grid
            if lead and lead[0] > 1:
                m = Modes(a.copy(), spin_weight=s)
                jg(rec, m[1:].grid(nt, nph), want[1:], s, lambda: f"grid of a slice (s={s}, L={L}, {lead})")
                jm(rec, m.grid(nt, nph)[0].modes(L), a[0], s, L, lambda: f"modes of a slice (s={s}, L={L}, {lead})")
            # truncated modes are a view of the larger array
            if L > max(1, abs(s)):
                m = Modes(a.copy(), spin_weight=s).truncate_ell(L - 1)
                jg(rec, m.grid(nt, nph), ref_grid(a[..., :L * L], s, L - 1, nt, nph), s, lambda: f"grid of truncated modes (s={s}, L={L}->{L - 1}, {lead})")
            # real-valued grids
            if s == 0:
                m = Modes(a.copy(), spin_weight=0)
                jm(rec, m.grid(nt, nph).real.modes(L), (a + ref_conjugate(a, L, 0)) / 2, 0, L, lambda: f"modes of grid.real (L={L}, {lead})")
                jm(rec, m.grid(nt, nph).imag.modes(L), (a - ref_conjugate(a, L, 0)) / 2j, 0, L, lambda: f"modes of grid.imag (L={L}, {lead})")

    def run_words(item, rec):
        """sequences over {to a grid of some size, back, conjugate, scale, differentiate}"""
        s, L, n1 = item
        a0 = data(s, L, (2,))
        depth = 4
        sizes = [(2 * L + 1, 2 * L + 1), (2 * L + 2, 2 * L + 4), (2 * L + 4, 2 * L + 3)]

        def go(word, o, a, t):
            if isinstance(o, Modes):
                moves = [(f"grid{n}", lambda n=n: o.grid(*n), lambda: (a, t)) for n in sizes] + \
                        [("conj", lambda: o.bar, lambda: (ref_conjugate(a, L, t), -t)), ("*2j", lambda: 2j * o, lambda: (2j * a, t)), ("[::-1]", lambda: o[::-1], lambda: (a[::-1], t))]
            else:
                moves = [("modes", lambda: o.modes(L), lambda: (a, t)), ("conj", lambda: np.conj(o), lambda: (ref_conjugate(a, L, t), -t)), ("*2j", lambda: o * 2j, lambda: (2j * a, t)),
                         ("+copy", lambda: o + o.copy(), lambda: (2 * a, t)), ("[::-1]", lambda: o[::-1], lambda: (a[::-1], t))]
            for k, (nm, f, g) in enumerate(moves):
                if not word and k != n1:
                    continue
                b, u = g()
                r = f()
                w = word + (nm,)
                if isinstance(r, Modes):
                    jm(rec, r, b, u, L, lambda: f"{w} on Modes(s={s}, L={L})", 1e-12)
                else:
                    jg(rec, r, ref_grid(b, u, L, r.n_theta, r.n_phi), u, lambda: f"{w} on Modes(s={s}, L={L})")
                if len(w) < depth:
                    go(w, r, b, u)
        go((), Modes(a0.copy(), spin_weight=s), a0, s)

    def run_products(item, rec):
        """product on the grid, transformed back, is the product of the Modes"""
        s1, s2 = item
        for L1, L2 in ((2, 2), (3, 1), (1, 3), (2, 4)):
            if L1 < max(1, abs(s1)) or L2 < max(1, abs(s2)):
                continue
            a, b = data(s1, L1, (), .3), data(s2, L2, (2,), .7)
            f, g = Modes(a.copy(), s1), Modes(b.copy(), s2)
            L = L1 + L2
            for nt, nph in ((2 * L + 1, 2 * L + 1), (2 * L + 2, 2 * L + 3)):
                p = (f.grid(nt, nph) * g.grid(nt, nph)).modes(L)
                rec.tr(3)
                jm(rec, p, ref_multiply(a, L1, s1, b, L2, s2, L), s1 + s2, L, lambda: f"grid product s={s1},{s2}, L={L1},{L2}, {nt}x{nph}", 1e-12)
                q = f * g
                rec.close(p.ndarray, q.ndarray, 1e-12 * (1 + np.abs(q.ndarray)), "product of Modes and of Grids")
                if s1 == s2:
                    K = max(L1, L2)
                    jm(rec, (f.grid(nt, nph) + g.grid(nt, nph)).modes(K), pad(a, K) + pad(b, K), s1, K, lambda: f"grid sum s={s1}", 1e-12)
                    jm(rec, (f.grid(nt, nph) - g.grid(nt, nph)).modes(K), pad(a, K) - pad(b, K), s1, K, lambda: f"grid difference s={s1}", 1e-12)

    sp = range(-4, 5)
    top = 8 if not thorough else 12
    big = [(s, L) for L in (40, 33, 32, 24, 17, 12) for s in (-9, -2, 0, 3, 12, 20, -31) if abs(s) <= L]
    if thorough:
        big = [(s, L) for L in (50, 47) for s in (-40, -9, -2, 0, 3, 12, 20)] + big

    def run_big(item, rec):
        s, L = item
        a = data(s, L, (2,))
        m = Modes(a.copy(), spin_weight=s)
        for nt, nph in ((2 * L + 1, 2 * L + 1), (2 * L + 2, 2 * L + 5), (2 * L + 6, 2 * L + 1)):
            want = ref_grid(a, s, L, nt, nph)
            jg(rec, m.grid(nt, nph), want, s, lambda: f"Modes(s={s}, L={L}).grid({nt}, {nph})")
            jm(rec, Grid(want.copy(), s).modes(L), a, s, L, lambda: f"Grid(s={s}, ({nt},{nph})).modes({L})", 1e-12)
    ok = [(s, L) for L in range(top, 0, -1) for s in sp if L >= abs(s)]
    return [
        Family("grid_and_modes", [list(x) for x in ok], run_grid, note="spins -4..4, ell_max 1..8 (12), n_theta x n_phi = (2L+1..2L+4)^2, every supported ell_max, 6 shapes"),
        Family("layouts", [[s, L] for s in sp for L in (1, 2, 3, 4) if L >= abs(s)], run_layouts, note="layouts, metadata, slices, truncations, real parts"),
        Family("sizes", [[list(l), s] for l in [(n,) for n in SIZES] + DEEP for s in (-2, 0, 1)], run_sizes, note="leading dimensions next to powers of two and round numbers, up to 5 dimensions"),
        Family("words", [[s, L, k] for s, L in ((0, 1), (-1, 1), (2, 2), (-2, 3)) for k in range(6)], run_words, note="all conversion sequences of length <= 4"),
        Family("products", [[a, b] for a in range(-3, 4) for b in range(-3, 4)], run_products, note="products and sums through the grid"),
        Family("large", [list(x) for x in big], run_big, note="ell_max 12, 17, 24, 32, 33, 40 (50), |s| <= 40"),
    ]
