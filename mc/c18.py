"""C18: complex_powers."""
import numpy as np
from .core import Family
from .common import *
from .c03 import layout

ASSUMPTIONS = ["|z| = 1 to rounding; the error allowed is that of a perturbation of the argument of z by a few ulp (times the power)"]


def families(tier):
    S = sf()
    thorough = tier != "quick"
    A = 720
    ang = [2 * math.pi * k / A for k in range(A)]
    zs = [complex(math.cos(a), math.sin(a)) for a in ang]
    exact = [1 + 0j, 1j, -1 + 0j, -1j, complex(1, -0.0), complex(-1, -0.0), complex(0.0, 1), complex(-0.0, 1), complex(-0.0, -1), complex(.6, .8), complex(-.8, .6), complex(-.6, -.8), complex(.8, -.6)]
    for d in (1e-300, 1e-16, 1e-12, 1e-8, 1e-4, 1e-2):
        c = math.sqrt(1 - d * d)
        exact += [complex(c, d), complex(c, -d), complex(-c, d), complex(-c, -d), complex(d, c), complex(-d, c), complex(d, -c), complex(-d, -c)]
    zs = exact + zs

    def ref(z, M):
        """exp(i m arg z) in extended precision: (len(z), M+1)"""
        z = np.asarray(z)
        th = np.arctan2(z.imag.astype(LD), z.real.astype(LD))
        m = np.arange(M + 1).astype(LD)
        x = th[:, None] * m[None, :]
        return (np.cos(x) + 1j * np.sin(x).astype(CLD)).astype(complex)

    def tol(M):
        return (np.arange(M + 1) * 6 + 4) * EPS + np.arange(M + 1) * 1e-16

    def run_powers(item, rec):
        lo, M = item
        z = np.array(zs[lo:lo + 64])
        keep = z.copy()
        got = S.complex_powers(z, M)
        rec.st(len(z)); rec.tr(); rec.trace()
        rec.close(got, ref(z, M), tol(M)[None, :], lambda: f"complex_powers(z[{lo}:{lo + 64}], {M})")
        rec.check(same(z, keep), "z modified")
        out = np.full((len(z), M + 1), np.nan * (1 + 1j))
        r = S.complex_powers(z, M, out)
        rec.tr(); rec.trace()
        rec.check(np.shares_memory(r, out) or out.size == 0, "the given array is not used for the result")
        rec.close(out, ref(z, M), tol(M)[None, :], lambda: f"complex_powers(z[{lo}:{lo + 64}], {M}, zpowers)")
        rec.close(r, out, 0, "returned array")

    def run_shapes(item, rec):
        shape, lay, M = item
        shape = tuple(shape)
        n = int(np.prod(shape, dtype=int))
        base = np.array([zs[(37 * i + 5) % len(zs)] for i in range(n)]).reshape(shape)
        z = layout(base, lay)
        want = ref(base.ravel(), M).reshape(shape + (M + 1,)) if n else np.zeros(shape + (M + 1,))
        rec.st(); rec.tr(); rec.trace()
        got = S.complex_powers(z, M)
        rec.close(got, want, tol(M), lambda: f"complex_powers(z{shape} [{lay}], {M})")
        rec.check(not np.shares_memory(got, z), "result shares memory with z")
        for fill in (0.0, np.nan, 5 - 3j, 1e300):
            out = np.full(shape + (M + 1,), fill, dtype=complex)
            r = S.complex_powers(z, M, out)
            rec.tr(); rec.trace()
            rec.close(out, want, tol(M), lambda: f"complex_powers(z{shape} [{lay}], {M}, zpowers filled with {fill})")
            rec.close(r, want, tol(M), lambda: f"complex_powers(z{shape} [{lay}], {M}, zpowers filled with {fill}) (return value)")
            # a second call into the same array
            z2 = layout(base.conj(), lay)
            S.complex_powers(z2, M, zpowers=out)
            rec.close(out, want.conj(), tol(M), lambda: f"second complex_powers(z{shape} [{lay}], {M}) into the same array")
        out = np.full(shape + (2 * (M + 1),), 7 - 7j)[..., ::2]
        r = S.complex_powers(z, M, out)
        rec.tr(); rec.trace()
        rec.close(out, want, tol(M), lambda: f"complex_powers(z{shape} [{lay}], {M}, strided zpowers)")
        rec.close(r, want, tol(M), lambda: f"complex_powers(z{shape} [{lay}], {M}, strided zpowers) (return value)")
        rec.check(same(np.array(z), base), "z modified")

    def run_scalar(item, rec):
        k, M = item
        z = zs[k]
        for v in (z, np.complex128(z), np.array(z), [z]):
            got = S.complex_powers(v, M)
            rec.st(); rec.tr(); rec.trace()
            want = ref([z], M)
            rec.close(got, want if isinstance(v, list) else want[0], tol(M), lambda: f"complex_powers({v!r}, {M})")
        if z.imag == 0:
            for v in ((int(z.real), float(z.real))):
                rec.close(S.complex_powers(v, M), ref([complex(z.real, 0)], M)[0], tol(M), lambda: f"complex_powers({v!r}, {M})")

    Ms = list(range(0, 65)) + [100, 127, 128, 129, 255, 256, 257, 1000] if not thorough else list(range(0, 300)) + [1000, 1024, 4096, 10000]
    shapes = [(), (1,), (0,), (3,), (2, 3), (3, 2, 2), (1, 1), (2, 0), (17,), (64,), (65,), (128,), (257,), (1025,)]
    return [
        Family("powers", [[lo, M] for M in reversed(Ms) for lo in range(0, len(zs), 64)], run_powers, note=f"{len(zs)} unit numbers (all quadrants, axes, next to the axes, signed zeros) x all M in {Ms[0]}..64 and larger"),
        Family("shapes", [[list(s), l, M] for s in shapes for l in ("C", "F", "T", "rev", "stride2", "readonly", "lastaxis_rev") for M in (0, 1, 2, 3, 8)], run_shapes, note="shapes x layouts x preallocated contents"),
        Family("scalars", [[k, M] for k in range(0, len(zs), 1 if thorough else 7) for M in (0, 1, 2, 5)] + [[k, M] for k in range(len(exact)) for M in (0, 1, 2, 3, 4, 9)], run_scalar, note="scalar inputs of all kinds"),
    ]
