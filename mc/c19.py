"""C19: eth_NP & co and conversions of constants and vectors."""
import numpy as np
from .core import Family
from .common import *
from .c03 import layout

ASSUMPTIONS = ["modes are one-dimensional complex arrays (as documented)"]


def fac_eth(l, s):
    return 0.0 if l < max(abs(s), abs(s + 1)) else math.sqrt((l - s) * (l + s + 1))


def fac_ethbar(l, s):
    return 0.0 if l < max(abs(s), abs(s - 1)) else -math.sqrt((l + s) * (l - s + 1))


def families(tier):
    S = sf()
    thorough = tier != "quick"
    SMAX, LTOP = (9, 12) if not thorough else (16, 34)

    def tol(w):
        return 8 * EPS * np.abs(w) + 1e-300

    def run_eth(item, rec):
        s, lmin = item
        for lmax in list(range(lmin, LTOP + 1)) + [x for x in (17, 25, 33, 40) if x > LTOP]:
            lm = LM(lmin, lmax)
            ells = np.array([l for l, m in lm])
            f = generic(len(lm), .3 * s)
            keep = f.copy()
            up = np.array([fac_eth(l, s) for l in ells])
            dn = np.array([fac_ethbar(l, s) for l in ells])
            for name, fac in (("eth_NP", up), ("ethbar_NP", dn), ("eth_GHP", up / math.sqrt(2)), ("ethbar_GHP", dn / math.sqrt(2))):
                fn = getattr(S, name)
                calls = [("positional", lambda: fn(f, s, lmin)), ("keyword", lambda: fn(f, spin_weight=s, ell_min=lmin))]
                if lmin == 0:
                    calls.append(("default", lambda: fn(f, s)))
                for how, c in calls:
                    got = c()
                    rec.st(); rec.tr(); rec.trace()
                    rec.close(got, fac * f, tol(fac * f), lambda: f"{name}(modes {lmin}..{lmax}, s={s}) [{how}]")
                    rec.check(not np.shares_memory(got, f), f"{name} returns its input")
                rec.check(same(f, keep), f"{name} modified its input")
            inv = S.ethbar_inverse_NP(f, s, lmin)
            rec.tr(); rec.trace()
            ok = ells >= max(abs(s), abs(s + 1))
            want = np.array([-math.sqrt((l + s + 1) * (l - s)) if o else 1 for l, o in zip(ells, ok)])
            rec.close(inv[ok], (f / want)[ok], tol((f / want)[ok]), lambda: f"ethbar_inverse_NP(modes {lmin}..{lmax}, s={s})")
            rec.check(inv.shape == f.shape and same(f, keep), "ethbar_inverse_NP shape / input modified")
            back = S.ethbar_NP(inv, s + 1, lmin)
            rec.close(back[ok], f[ok], 4 * tol(f[ok]), lambda: f"ethbar_NP(ethbar_inverse_NP(f)), s={s}, {lmin}..{lmax}")
            there = S.ethbar_NP(f, s, lmin)
            again = S.ethbar_inverse_NP(there, s - 1, lmin)
            ok2 = ells >= max(abs(s), abs(s - 1))
            rec.close(again[ok2], f[ok2], 4 * tol(f[ok2]), lambda: f"ethbar_inverse_NP(ethbar_NP(f)), s={s}, {lmin}..{lmax}")
            # Modes methods
            if lmax >= abs(s) and lmin <= abs(s):
                g = f.copy()
                g[ells < abs(s)] = 0
                M = S.Modes(g.copy(), spin_weight=s, ell_min=lmin, ell_max=lmax)
                i0 = lmin * lmin
                rec.tr(2); rec.trace(2)
                a, b = M.eth, M.ethbar
                rec.close(a.view(np.ndarray)[i0:], S.eth_NP(g, s, lmin), 1e-13, lambda: f"Modes.eth vs eth_NP, s={s}, {lmin}..{lmax}")
                rec.close(b.view(np.ndarray)[i0:], S.ethbar_NP(g, s, lmin), 1e-13, lambda: f"Modes.ethbar vs ethbar_NP, s={s}, {lmin}..{lmax}")
                rec.check(a.s == s + 1 and b.s == s - 1, "spin weight of eth / ethbar")

    def run_basis(item, rec):
        """every basis mode separately"""
        s, lmax = item
        lm = LM(0, lmax)
        for i, (l, m) in enumerate(lm):
            f = np.zeros(len(lm), dtype=complex)
            f[i] = 2 - 1j
            for name, fac in (("eth_NP", fac_eth(l, s)), ("ethbar_NP", fac_ethbar(l, s)), ("eth_GHP", fac_eth(l, s) / math.sqrt(2)), ("ethbar_GHP", fac_ethbar(l, s) / math.sqrt(2))):
                got = getattr(S, name)(f, s)
                w = np.zeros_like(f)
                w[i] = fac * f[i]
                rec.st(); rec.tr(); rec.trace()
                rec.close(got, w, tol(w), lambda: f"{name}(basis mode ({l},{m}), s={s})")

    def run_layout(item, rec):
        kind, s, lmin = item
        for lmax in (lmin, lmin + 1, 7, 20, 32):
            if lmax < lmin:
                continue
            lm = LM(lmin, lmax)
            ells = np.array([l for l, m in lm])
            base = generic(len(lm), .7)
            if kind == "complex64":
                f = base.astype(np.complex64)
                base = f.astype(complex)
                rel = 1e-6
            elif kind == "float":
                base = base.real.copy()
                f = base.copy()
                rel = 1e-14
            elif kind == "Modescolumn":
                big = np.stack([base, -base], axis=-1)
                f = big[:, 0]
                rel = 1e-14
            else:
                f = layout(base, kind)
                rel = 1e-14
            keep = np.array(f)
            for name, fac in (("eth_NP", fac_eth), ("ethbar_NP", fac_ethbar), ("eth_GHP", lambda l, s: fac_eth(l, s) / math.sqrt(2)), ("ethbar_GHP", lambda l, s: fac_ethbar(l, s) / math.sqrt(2))):
                w = np.array([fac(l, s) for l in ells]) * base
                got = getattr(S, name)(f, s, lmin)
                rec.st(); rec.tr(); rec.trace()
                rec.close(got, w, rel * np.abs(w) + 1e-300, lambda: f"{name}({kind} modes {lmin}..{lmax}, s={s})")
            rec.check(same(keep, np.array(f)), "input modified")

    V = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [.3, -.4, 1.2], [0, 0, 0], [1e-12, 5., -7.], [1e10, -1., 3.]]
    pts = [(t, p) for t in (0., .4, 1.3, math.pi / 2, 2.2, math.pi) for p in (0., .9, 2., 4.4)]
    Rp = [theta_phi_rotor(t, p) for t, p in pts]
    n = np.array([[math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)] for t, p in pts])
    Y = SWSH_all(Rp, [0], 1)[0].astype(complex)

    def run_vector(item, rec):
        shape, lay, cplx = item
        shape = tuple(shape)
        N = int(np.prod(shape, dtype=int))
        for start in range(len(V) if shape == () else 1):
            v = np.array([V[(start + i) % len(V)] for i in range(N)], dtype=float).reshape(shape + (3,))
            if cplx:
                v = v + 1j * np.array([V[(start + 3 + 2 * i) % len(V)] for i in range(N)]).reshape(shape + (3,))
            x = layout(v, lay)
            got = S.vector_as_ell_1_modes(x)
            rec.st(); rec.tr(2); rec.trace()
            scale = np.abs(v).max() + 1 if v.size else 1
            rec.check(got.shape == shape + (3,), lambda: f"vector_as_ell_1_modes: shape {got.shape}")
            rec.close(got @ Y[:, 1:].T, v @ n.T, 4e-15 * scale * 4, lambda: f"vector_as_ell_1_modes({v.tolist()}) does not represent v.n")
            back = S.vector_from_ell_1_modes(got)
            rec.close(back, v, 8 * EPS * scale, lambda: f"vector_from_ell_1_modes(vector_as_ell_1_modes(v)) for v={v.tolist()}")
            rec.check(same(np.array(x), v), "vector modified")
            modes = layout(generic_array(shape + (3,), start + .5), lay)
            w = S.vector_from_ell_1_modes(modes)
            rec.close(w @ n.T, np.array(modes) @ Y[:, 1:].T, 2e-14, "vector_from_ell_1_modes does not represent the function")
            rec.close(S.vector_as_ell_1_modes(w), np.array(modes), 2e-14, "vector_as_ell_1_modes(vector_from_ell_1_modes(modes))")

    def run_const(item, rec):
        c = item[0] + 1j * item[1] if item[1] is not None else item[0]
        for v in (c, np.array([c, 2 * c]), np.array([[c, -c], [c * 3, 0 * c]])):
            got = S.constant_as_ell_0_mode(v)
            rec.st(); rec.tr(2); rec.trace()
            rec.close(got * (1 / math.sqrt(4 * math.pi)), v, 30 * EPS * abs(c), lambda: f"constant_as_ell_0_mode({v!r})")
            rec.close(S.constant_from_ell_0_mode(v), v * (1 / math.sqrt(4 * math.pi)) if not isinstance(v, complex) else v / math.sqrt(4 * math.pi), 30 * EPS * abs(c), lambda: f"constant_from_ell_0_mode({v!r})")
            rec.close(S.constant_from_ell_0_mode(got), v, 30 * EPS * abs(c), lambda: f"round trip of {v!r}")

    def warm():
        f = generic(9)
        for a in (f, f.real.copy(), f.astype(np.complex64), f[::-1]):
            for name in ("eth_NP", "ethbar_NP", "eth_GHP", "ethbar_GHP", "ethbar_inverse_NP"):
                getattr(S, name)(a, 0, 0)
                getattr(S, name)(a, 0)
    return [
        Family("eth", [[s, l] for s in list(range(-SMAX, SMAX + 1)) + [-33, -20, 20, 33] for l in range(0, 8 if not thorough else 20)], run_eth, warm, note=f"|s|<={SMAX} and 20, 33, ell_min 0..7, ell_max<={LTOP}, 17, 25, 33, 40: all modes"),
        Family("eth_basis", [[s, L] for s in range(-6, 7) for L in (4, 7)], run_basis, note="every basis mode"),
        Family("eth_layouts", [[k, s, l] for k in ("C", "rev", "stride2", "readonly", "float", "complex64", "Modescolumn") for s in (-3, -1, 0, 2) for l in (0, 2)], run_layout, note="dtype / layout of the modes"),
        Family("vectors", [[list(sh), l, c] for sh in ((), (1,), (4,), (2, 3), (3, 1, 2)) for l in ("C", "F", "rev", "readonly") for c in (0, 1)], run_vector, note="vectors of all shapes, real and complex"),
        Family("constants", [[a, b] for a in (0., 1., -2.5, 1e-30, 1e30) for b in (None, 0., 1.5, -1e20)], run_const, note="real and complex constants and arrays"),
    ]
