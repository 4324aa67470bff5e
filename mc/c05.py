"""C05: spin-weighted spherical harmonics have the documented values."""
import numpy as np
from .core import Family
from .common import *
from .c03 import qarr

ASSUMPTIONS = ["values are compared at the rotors of the stated alphabet; the extended-precision D recursion is the oracle"]


def swsh_tol(cs, ref, cond, lmax):
    ell = ell_lm(lmax)
    c = np.array(cs, dtype=float).reshape(-1, 4)
    small = np.minimum(np.hypot(c[:, 0], c[:, 3]), np.hypot(c[:, 1], c[:, 2]))
    flush = np.where(small < 2e-15, 4e-13, 4e-15)[:, None]
    t = flush + (50 * ell + 60) * EPS * np.abs(np.asarray(ref, dtype=complex)) + (4 * ell + 20) * EPS * np.asarray(cond, dtype=float)
    return np.where(np.asarray(cond) == 0, 0.0, t)


def families(tier):
    S = sf()
    thorough = tier != "quick"
    A = rotor_alphabet(1 if not thorough else 2)
    spins = list(range(-34, 35))
    lm = np.array(LM(0, LMAX))

    def run_index_form(item, rec):
        cs = A[item[0]:item[1]]
        ref = SWSH_all(cs, spins, LMAX)
        cond = SWSH_all(cs, spins, LMAX, absolute=True)
        arr = qarr(cs)
        for s in spins:
            r = ref[s].astype(complex)
            tol = swsh_tol(cs, r, cond[s], LMAX)
            got = S.SWSH_grid(arr, s, LMAX)
            rec.tr(); rec.trace(); rec.st(len(cs))
            rec.close(got, r, tol, lambda: f"SWSH_grid(R={cs}, s={s}, 32)")
            for n, c in enumerate(cs):
                got = S.SWSH(q(c), s, lm)
                rec.tr(); rec.trace()
                rec.close(got, r[n], tol[n], lambda: f"SWSH(R={c}, s={s}, all (ell,m))")
        rec.sample(f"rotors {item}, all s in -34..34, all (ell,m), ell<=32")

    B = rotor_alphabet(0) if not thorough else rotor_alphabet(1)
    Barr = qarr(B)

    @functools.lru_cache(2)
    def DC(l):
        D, C = (next(M for t, M in enumerate(D_half_steps(B, 2 * l, absolute)) if t == 2 * l) for absolute in (False, True))
        return D, C

    def run_rotor_form(item, rec):
        s, l = item
        D, C = DC(l)
        k = math.sqrt((2 * l + 1) / (4 * math.pi))
        ref = ((-1) ** s * k * D[:, :, l - s]).astype(complex)
        cond = (k * C[:, :, l - s]).astype(float)
        tol = 1e-15 * 4 + (50 * l + 60) * EPS * abs(ref) + (4 * l + 20) * EPS * cond
        c = np.array(B)
        small = np.minimum(np.hypot(c[:, 0], c[:, 3]), np.hypot(c[:, 1], c[:, 2]))
        tol[small < 2e-15] += 4e-13
        for m in range(-l, l + 1):
            got = S.SWSH(Barr, s, (l, m))
            rec.st(len(B)); rec.tr(); rec.trace()
            rec.close(got, ref[:, l + m], tol[:, l + m], lambda: f"SWSH(Rs, s={s}, ({l},{m}))")

    # continuity / special points of the sphere, by angle: documented relation to (theta, phi)
    thetas = [0.0, 1e-300, 1e-16, 1e-15, 3e-15, 1e-8, 1e-3, .1, .5, 1., np.pi / 3, np.pi / 2 - 1e-9, np.pi / 2, np.pi / 2 + 1e-9, 2., 3., np.pi - 1e-8, np.pi - 1e-14, np.pi]
    phis = [0.0, 1e-12, .3, np.pi / 4, np.pi / 2, 2., np.pi, 4., 3 * np.pi / 2, 6., 2 * np.pi, -1., 9.]

    def run_angles(item, rec):
        t = thetas[item]
        cs = [theta_phi_rotor(t, p) for p in phis]
        arr = quaternion.from_spherical_coords(np.full(len(phis), t), np.array(phis))
        cs = [tuple(x) for x in quaternion.as_float_array(arr)]
        ss = range(-5, 6)
        L = 12 if not thorough else 32
        ref = SWSH_all(cs, ss, L)
        cond = SWSH_all(cs, ss, L, absolute=True)
        for s in ss:
            r = ref[s].astype(complex)
            tol = swsh_tol(cs, r, cond[s], L)
            rec.tr(); rec.trace(); rec.st(len(cs))
            rec.close(S.SWSH_grid(arr, s, L), r, tol, lambda: f"SWSH_grid at theta={t}, phi={phis}, s={s}")
    return [
        Family("index_form", [[i, min(i + 3, len(A))] for i in range(0, len(A), 3)], run_index_form,
               note=f"{len(A)} rotors x s in -34..34 x all 1089 (ell,m): SWSH(R, s, indices), SWSH_grid"),
        Family("rotor_form", [[s, l] for l in reversed(range(LMAX + 1)) for s in range(-l, l + 1)], run_rotor_form,
               note=f"all (s, ell, m), ell<=32, x array of {len(B)} rotors: SWSH(Rs, s, (ell, m))"),
        Family("angles", list(range(len(thetas))), run_angles, note="rotors from spherical coordinates"),
    ]
