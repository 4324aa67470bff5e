"""C01: every Wigner D element has the documented value."""
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["values are compared at the rotors of the stated alphabet (regimes of |R.a|/|R.b| x phases); extended-precision recursion is the oracle"]

ALL = tuple(range(TWO_LMAX + 1))
INT = tuple(range(0, TWO_LMAX + 1, 2))


def families(tier):
    S = sf()
    lev = 1 if tier == "quick" else 2
    A = rotor_alphabet(lev)
    idx = indices_all(ALL)
    ellA, ellI = ell_of(ALL), ell_of(INT)

    def run_matrix(item, rec):
        cs = A[item[0]:item[1]]
        ref = D_all(cs)
        cond = D_all(cs, absolute=True)
        tol = D_tol(cs, ref, cond, ellA)
        isint = (ellA % 1 == 0)
        for n, c in enumerate(cs):
            rec.st(); rec.tr(2); rec.trace(2)
            got = S.Wigner_D_element(q(c), idx)
            rec.close(got, ref[n].astype(complex), tol[n], lambda: f"Wigner_D_element(R={c}, all indices)")
            got = S.Wigner_D_matrices(q(c), 0, LMAX)
            rec.close(got, ref[n][isint].astype(complex), tol[n][isint], lambda: f"Wigner_D_matrices(R={c}, 0, 32)")
            rec.outcome((n, round(float(abs(got[10])), 6)))
        rec.sample(f"rotors {item}: all (ell,mp,m) with ell<=32 incl. half-integers, first rotor {cs[0]}")

    B = rotor_alphabet(0) if tier == "quick" else rotor_alphabet(1)
    cache = {}

    def warm():
        cache['B'] = np.array([q(c) for c in B])
        cache['ref'] = D_all(B).astype(complex)
        cache['tol'] = D_tol(B, cache['ref'], D_all(B, absolute=True), ellA)
    off = np.concatenate([[0], np.cumsum([(t + 1) ** 2 for t in ALL])])

    def run_array(item, rec):
        """array-of-rotors form, one (ell, mp) row"""
        t, tmp = item
        Rs = cache['B']
        for tm in range(-t, t + 1, 2):
            k = off[t] + (t + tmp) // 2 * (t + 1) + (t + tm) // 2
            got = S.Wigner_D_element(Rs, t / 2 if t % 2 else t // 2, tmp / 2 if t % 2 else tmp // 2,
                                     tm / 2 if t % 2 else tm // 2)
            rec.tr(); rec.trace(); rec.st(len(Rs))
            rec.close(got, cache['ref'][:, k], cache['tol'][:, k],
                      lambda: f"Wigner_D_element(Rs, {t / 2}, {tmp / 2}, {tm / 2})")

    C = [c for i, c in enumerate(rotor_alphabet(0)) if i % (6 if tier == "quick" else 2) == 0]

    def run_scalar(item, rec):
        n, t = item
        c = C[n]
        Ra, Rb = ab(c)
        R = q(c)
        ref = D_all([c], t, twoells=[t])[0].astype(complex)
        tol = D_tol([c], ref[None], D_all([c], t, True, [t]), t / 2)[0]
        rec.st(); rec.trace(2)
        g1, g2 = [], []
        for tmp in range(-t, t + 1, 2):
            for tm in range(-t, t + 1, 2):
                g1.append(S.Wigner_D_element(R, t / 2, tmp / 2, tm / 2))
                g2.append(S.Wigner_D_element(Ra, Rb, t / 2, tmp / 2, tm / 2))
        rec.tr(2 * len(g1))
        rec.close(np.array(g1), ref, tol, f"Wigner_D_element(R={c}, {t / 2}, mp, m)")
        rec.close(np.array(g2), ref, tol, f"Wigner_D_element(Ra, Rb, {t / 2}, mp, m), R={c}")

    # Euler angles: D^l_{m',m} = e^{-i m' alpha}... is left to the quaternion package: R = from_euler_angles
    angs = [0.0, 0.3, np.pi / 2, 2.0, np.pi, 4.0, -1.1, 2 * np.pi]
    eul = [(a, b, g) for a in angs for b in angs for g in (angs if tier != "quick" else angs[::2] + [4.0])]

    def run_euler(item, rec):
        a, b, g = item
        R = quaternion.from_euler_angles(a, b, g)
        c = tuple(quaternion.as_float_array(R))
        tw = (0, 1, 2, 3, 4, 9, 16, 33)
        ref = D_all([c], max(tw), twoells=tw)[0].astype(complex)
        # the documented convention: exp(alpha z/2) exp(beta y/2) exp(gamma z/2)
        cc = lambda x: (np.cos(x / 2), np.sin(x / 2))
        ca, sa = cc(a); cb, sb = cc(b); cg, sg = cc(g)
        want = np.quaternion(ca, 0, 0, sa) * np.quaternion(cb, 0, sb, 0) * np.quaternion(cg, 0, 0, sg)
        rec.check(abs(want - R) < 1e-14, "euler convention of the quaternion package changed")
        tol = D_tol([c], ref[None], D_all([c], max(tw), True, tw), ell_of(tw))[0] + 1e-13
        got = S.Wigner_D_element(a, b, g, indices_all(tw))
        rec.st(); rec.tr(); rec.trace()
        rec.close(got, ref, tol, lambda: f"Wigner_D_element(alpha,beta,gamma={item}, indices)")
        got = S.Wigner_D_element(a, b, g, 2, 1, -2)
        k = 1 + 4 + 9 + 16 + 3 * 5 + 0
        rec.tr(); rec.trace()
        rec.close(got, ref[k], tol[k], lambda: f"Wigner_D_element(alpha,beta,gamma={item}, 2, 1, -2)")

    n = 3
    return [
        Family("matrix_forms", [[i, min(i + n, len(A))] for i in range(0, len(A), n)], run_matrix,
               note=f"{len(A)} rotors x all 93665 (ell,mp,m), ell = 0, 1/2, ..., 32; Wigner_D_element(R, indices) and Wigner_D_matrices"),
        Family("rotor_array_form", [[t, tmp] for t in reversed(ALL) for tmp in range(-t, t + 1, 2)], run_array, warm,
               note=f"all 93665 (ell,mp,m) x array of {len(B)} rotors; Wigner_D_element(Rs, ell, mp, m)"),
        Family("scalar_forms", [[i, t] for t in reversed(ALL) for i in range(len(C))], run_scalar,
               note=f"{len(C)} rotors x all (ell,mp,m); forms (R, ell, mp, m) and (Ra, Rb, ell, mp, m)"),
        Family("euler_forms", [list(map(float, e)) for e in eul], run_euler,
               note="Euler-angle forms on a grid of angles including multiples of pi/2 and beyond"),
    ]
