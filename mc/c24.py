"""C24: rotations act consistently on matrices, harmonics, modes and grids.

States: a function given by its modes, rotated by the product P of the generators applied so far (P is tracked exactly as a
quaternion); transitions: rotate the modes once more with the D matrices of one generator.  In every state every observation
(values, grid, products, derivatives, norm, vector) must be that of the original function seen from the rotated frame.  No value
oracle is involved: the functions of the library are compared with one another."""
import numpy as np
from .core import Family
from .common import *
from .c02 import qmul
from .c05 import swsh_tol

ASSUMPTIONS = ["tolerances are absolute, 1e-12 to 1e-10 times the size of the quantities compared"]


def rotate(S, f, P, L):
    """modes (from ell=0) of R -> f(P R)"""
    d = S.Wigner_D_matrices(q(P), 0, L)
    out = np.zeros(f.shape, dtype=complex)
    o = 0
    for l in range(L + 1):
        n = 2 * l + 1
        out[..., l * l:l * l + n] = f[..., l * l:l * l + n] @ d[o:o + n * n].reshape(n, n)
        o += n * n
    return out


def matrix(P):
    w, x, y, z = P
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


INTS = tuple(range(0, TWO_LMAX + 1, 2))
GENS = [(S2, 0., 0., S2), (S2, S2, 0., 0.), rotor(0.8, 0.6, .7, -2.1), rotor(1e-9, 1.0, 2.9, 1.3), rotor(math.sqrt(1 - 1e-6), 1e-3, -.4, 3.0),
        (0., 0., 1., 0.), rotor(.3, math.sqrt(.91), -1.0, 2.0)]


def words(n_gens, depth):
    out = [()]
    for k in range(1, depth + 1):
        out += list(itertools.product(range(n_gens), repeat=k))
    return out


def product(w):
    P = (1., 0., 0., 0.)
    for g in w:
        P = qmul(P, GENS[g])
    P = np.array(P)
    return tuple(P / np.linalg.norm(P))


def families(tier):
    S = sf()
    thorough = tier != "quick"
    import spherical_functions.recursions as RC
    from spherical_functions.mode_conversions import vector_as_ell_1_modes, vector_from_ell_1_modes, constant_as_ell_0_mode
    from spherical_functions import mode_conversions as MCV
    from spherical_functions.multiplication import multiply
    samples = [rotor(0.8, 0.6, .2, .9), rotor(.6, .8, -1.7, 2.2), (1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), rotor(1e-7, 1.0, .3, .1),
               (.5, .5, .5, -.5), rotor(.96, .28, 2.0, -3.0)]
    sampq = np.array([q(c) for c in samples])

    def modes(a, s, L):
        return S.Modes(a.copy(), spin_weight=s, ell_min=0, ell_max=L)

    depth = 3 if thorough else 2
    W = words(len(GENS), depth)

    # ---- histories of rotations of one function
    def run_words(item, rec):
        s, L, lead = item
        f0 = ref_zero_low(generic_array(tuple(lead) + ((L + 1) ** 2,), 1.0 + s), s)
        state = {(): f0}
        scale = np.abs(f0).max() * (L + 1)
        M0 = modes(f0, s, L)
        norm0 = M0.norm()
        for w in W:
            if w:
                state[w] = rotate(S, state[w[:-1]], GENS[w[-1]], L)
                rec.tr()
            f, P = state[w], product(w)
            rec.key(w); rec.trace(4)
            tol = 1e-13 * scale * (10 + L) * (1 + len(w))
            what = lambda: f"s={s}, ell_max={L}, rotors {[GENS[g] for g in w]}"
            rec.close(f, rotate(S, f0, P, L), tol, lambda: "one rotation and several differ: " + what())
            M = modes(f, s, L)
            rec.close(M.norm(), norm0, tol * (L + 1), lambda: "norm changed by rotation: " + what())
            PR = np.array([q(tuple(np.array(qmul(P, c)) / np.linalg.norm(qmul(P, c)))) for c in samples])
            rec.close(M.evaluate(sampq), M0.evaluate(PR), tol * (L + 1), lambda: "values of the rotated modes: " + what())
            if L >= 1 and len(w) <= 2:
                nt, nph = 2 * L + 1, 2 * L + 2
                th = S.theta_phi(nt, nph).reshape(-1, 2)
                pts = [theta_phi_rotor(t, p) for t, p in th]
                PG = np.array([q(tuple(np.array(qmul(P, c)) / np.linalg.norm(qmul(P, c)))) for c in pts])
                g = M.grid(nt, nph)
                want = M0.evaluate(PG)
                rec.tr()
                rec.close(np.asarray(g), np.asarray(want).reshape(want.shape[:-1] + (nt, nph)), tol * (L + 1), lambda: "grid of the rotated modes: " + what())
            rec.outcome(np.round(f.ravel()[-1], 9).tobytes())
        rec.sample(f"s={s} L={L}")

    # ---- single harmonics: Y_lm(P R) = sum_m' D_mm'(P) Y_lm'(R), all spins, all ell up to 32
    def run_addition(item, rec):
        i, j = item
        P, R = GENS[i], samples[j]
        PR = np.array(qmul(P, R)); PR = tuple(PR / np.linalg.norm(PR))
        d = S.Wigner_D_matrices(q(P), 0, LMAX)
        dt = D_tol([P], D_all([P], twoells=INTS), D_all([P], absolute=True, twoells=INTS), ell_of(INTS))[0]
        spins = list(range(-LMAX, LMAX + 1)) if thorough else [-20, -8, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 11, 32]
        ref, cond = SWSH_all([R, PR], spins, LMAX), SWSH_all([R, PR], spins, LMAX, absolute=True)
        for s in spins:
            Y = S.SWSH_grid(np.array([q(R), q(PR)]), s, LMAX)
            yt = swsh_tol([R, PR], ref[s].astype(complex), cond[s], LMAX)
            o = 0
            rec.tr(LMAX + 1); rec.st(); rec.trace()
            for l in range(LMAX + 1):
                n = 2 * l + 1
                D, Dt = d[o:o + n * n].reshape(n, n), dt[o:o + n * n].reshape(n, n)
                o += n * n
                k = slice(l * l, l * l + n)
                tol = Dt @ abs(Y[0, k]) + abs(D) @ yt[0, k] + yt[1, k] + 16 * n * EPS * math.sqrt(n)
                rec.close(D @ Y[0, k], Y[1, k], tol, lambda: f"s={s}, ell={l}, Y(P R) with P={P}, R={R}")

    # ---- operations commute with rotations
    def run_ops(item, rec):
        s, L, i = item
        P = GENS[i] if i < len(GENS) else product(W[len(GENS) + 1 + i])
        f = ref_zero_low(generic_array(((L + 1) ** 2,), .3 + s), s)
        M, MR = modes(f, s, L), modes(rotate(S, f, P, L), s, L)
        scale = 1e-12 * (L + 1) ** 3 * 4

        def rot(x):
            return rotate(S, np.asarray(x), P, x.ell_max)
        for name, op in (("bar", lambda m: m.bar), ("conjugate()", lambda m: m.conjugate()), ("eth", lambda m: m.eth), ("ethbar", lambda m: m.ethbar), ("Lsquared", lambda m: m.Lsquared()),
                         ("Rsquared", lambda m: m.Rsquared()), ("Rz", lambda m: m.Rz()), ("Rplus", lambda m: m.Rplus()), ("Rminus", lambda m: m.Rminus()),
                         ("eth ethbar", lambda m: m.eth.ethbar), ("f fbar", lambda m: m * m.bar), ("f f", lambda m: m * m), ("2f - f", lambda m: 2 * m - m)):
            rec.st(); rec.tr(); rec.trace()
            a, b = op(M), op(MR)
            rec.check(a.s == b.s and a.ell_max == b.ell_max, lambda: f"{name}: metadata")
            rec.close(np.asarray(b), rot(a), scale * (L + 1), lambda: f"{name} does not commute with the rotation {P}, s={s}, ell_max={L}")
        if s == 0:
            for name, op in (("real", lambda m: m.real), ("imag", lambda m: m.imag)):
                rec.st(); rec.tr(); rec.trace()
                rec.close(np.asarray(op(MR)), rot(op(M)), scale, lambda: f"{name} does not commute with the rotation {P}, ell_max={L}")
        # left operators rotate like a vector
        Q = matrix(P)

        def Lvec(m):
            p, q_, z = np.asarray(m.Lplus()), np.asarray(m.Lminus()), np.asarray(m.Lz())
            return np.array([(p + q_) / 2, (p - q_) / 2j, z])
        rec.st(); rec.tr(3); rec.trace()
        a = rotate(S, Lvec(M), P, L)
        rec.close(Lvec(MR), np.einsum('ba,bn->an', Q, a), scale * (L + 1), lambda: f"(Lx, Ly, Lz) is not a vector under the rotation {P}, s={s}, ell_max={L}")
        # functions of bare arrays
        for name in ("eth_GHP", "ethbar_GHP", "eth_NP", "ethbar_NP"):
            fn = getattr(MCV, name)
            rec.st(); rec.tr(); rec.trace()
            rec.close(fn(np.asarray(MR), s), rotate(S, fn(np.asarray(M), s), P, L), scale * (L + 1), lambda: f"{name} does not commute with the rotation {P}, s={s}, ell_max={L}")

    def run_products(item, rec):
        s1, L1, s2, L2, i = item
        P = GENS[i]
        f = ref_zero_low(generic_array(((L1 + 1) ** 2,), .3 + s1), s1)
        g = ref_zero_low(generic_array(((L2 + 1) ** 2,), .9 + s2), s2)
        fr, gr = rotate(S, f, P, L1), rotate(S, g, P, L2)
        L = L1 + L2
        tol = 1e-12 * (L + 1) ** 2
        rec.st(); rec.tr(2); rec.trace(2)
        a = modes(f, s1, L1) * modes(g, s2, L2)
        b = modes(fr, s1, L1) * modes(gr, s2, L2)
        rec.close(np.asarray(b), rotate(S, np.asarray(a), P, a.ell_max), tol, lambda: f"Modes product does not commute with the rotation {P}; s={s1},{s2}, ell_max={L1},{L2}")
        pa = multiply(f, 0, L1, s1, g, 0, L2, s2)
        pb = multiply(fr, 0, L1, s1, gr, 0, L2, s2)
        rec.check(pa[1:] == pb[1:], "multiply: metadata")
        full = lambda p: np.concatenate([np.zeros(p[1] ** 2), p[0]]) if p[1] else p[0]
        rec.close(full(pb), rotate(S, full(pa), P, pa[2]), tol, lambda: f"multiply does not commute with the rotation {P}; s={s1},{s2}, ell_max={L1},{L2}")

    def run_vector(item, rec):
        P = product(W[item])
        Q = matrix(P)
        for k, v in enumerate([np.array([1., 0, 0]), np.array([0., 1, 0]), np.array([0., 0, 1]), np.array([.3, -1.2, 2.2]), np.array([1 + 2j, .3j, -1.0]), generic_array((4, 3), .2)]):
            rec.st(); rec.tr(); rec.trace()
            m = vector_as_ell_1_modes(v)
            full = np.zeros(m.shape[:-1] + (4,), dtype=complex); full[..., 1:] = m
            r = rotate(S, full, P, 1)
            # f(R) = v . n(R), n(P R) = Q n(R)
            rec.close(r[..., 1:], vector_as_ell_1_modes(v @ Q), 1e-13, lambda: f"rotated modes of the vector {v}, P={P}")
            rec.close(vector_from_ell_1_modes(r[..., 1:]), v @ Q, 1e-13, lambda: f"vector of the rotated modes, v={v}, P={P}")
            M = modes(full, 0, 1)
            n = np.array([matrix(c)[:, 2] for c in samples])
            rec.close(np.asarray(M.evaluate(sampq)), v @ n.T, 1e-13, lambda: f"v.n with v={v}")

    # ---- the H recursion, the complex angles and complex_powers give the same D
    def run_H(item, rec):
        n_max = item
        calc = RC.HCalculator(n_max)
        h = None
        lmp = S.LMpM_range(0, n_max)
        tolH = 1e-11 + 4 * EPS * 2.0 ** np.asarray(lmp)[:, 0]        # cancellation in the sums for D grows with ell
        cs = [c for c in rotor_alphabet(0) if min(math.hypot(c[0], c[3]), math.hypot(c[1], c[2])) > 1e-12]
        for c in cs:
            zb, zp, zm = RC.quaternion_angles(np.array(c))
            rec.st(); rec.tr(3); rec.trace()
            H = np.asarray(calc(np.float64(zb.real), np.float64(zb.imag))).reshape(-1)
            zpp, zmp = RC.complex_powers(np.array([zp]), 2 * n_max)[..., :].reshape(-1), RC.complex_powers(np.array([zm]), 2 * n_max).reshape(-1)
            d = S.Wigner_D_matrices(q(c), 0, n_max)
            power = lambda z, k: z[k] if k >= 0 else np.conj(z[-k])
            want = np.empty(len(d), dtype=complex)
            for k, (l, mp, m) in enumerate(lmp):
                l, mp, m = int(l), int(mp), int(m)
                e = (-1 if mp > 0 and mp % 2 else 1) * (-1 if m < 0 and m % 2 else 1)
                want[k] = e * hval(H, n_max, l, mp, m) * power(zpp, mp + m) * power(zmp, mp - m)
            rec.close(d, want, tolH, lambda: f"D from HCalculator({n_max}), quaternion_angles and complex_powers; R={c}")

    def hval(H, n_max, l, mp, m):
        # documented symmetries: H^{mp,m} = H^{m,mp} = H^{-mp,-m}; wedge order: n, then mp=-n..n, then m=|mp|..n
        if m < abs(mp):
            if mp >= abs(m):
                mp, m = m, mp
            elif -mp >= abs(m):
                mp, m = -m, -mp
            else:
                mp, m = -mp, -m
        return H[wedge[l, mp, m]]
    wedge = {}
    k = 0
    for n in range(0, 33):
        for mp in range(-n, n + 1):
            for m in range(abs(mp), n + 1):
                wedge[n, mp, m] = k
                k += 1

    SL = [(s, L) for L in (0, 1, 2, 3, 4, 6) for s in range(-3, 4) if abs(s) <= L]
    if thorough:
        SL += [(s, L) for L in (8, 12) for s in range(-4, 5)]
    fams = [Family("words", [[s, L, []] for s, L in SL] + [[s, 3, [2, 3]] for s in (-2, 0, 1)] + [[-2, 8, []]], run_words,
                   note=f"all words of length <= {depth} over {len(GENS)} generators"),
            Family("addition", [[i, j] for i in range(len(GENS)) for j in range(len(samples))], run_addition, note="addition theorem, all ell <= 32"),
            Family("operations", [[s, L, i] for s, L in SL for i in range(len(GENS) + (12 if thorough else 0))], run_ops, note="conjugation, derivatives and products commute with rotations"),
            Family("products", [[s1, L1, s2, L2, i] for s1, L1 in ((0, 1), (-2, 3), (1, 2), (2, 4), (0, 4)) for s2, L2 in ((0, 2), (-1, 3), (2, 3), (3, 3), (0, 5)) for i in (range(len(GENS)) if thorough else (1, 2, 3))], run_products,
                   note="products commute with rotations"),
            Family("vector", list(range(len(W))), run_vector, note="ell=1 modes rotate like the vector"),
            Family("H", [0, 1, 2, 3, 5, 8] + ([16, 24] if thorough else [12]), run_H, note="D assembled from HCalculator, quaternion_angles, complex_powers")]
    return fams
