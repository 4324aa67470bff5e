"""C08: a Wigner3jCalculator's answer depends only on the arguments of the last call."""
import numpy as np
from .core import Family
from .common import *
from . import threej

ASSUMPTIONS = ["calls stay within the size the calculator was made for (j2 <= j2_max, j3 <= j3_max)"]
TOL = 1e-12


@functools.lru_cache(1 << 16)
def row(j2, j3, m2, m3):
    return np.array([w3j(j1, j2, j3, -m2 - m3, m2, m3) for j1 in range(j2 + j3 + 1)])


def calls_upto(j2max, j3max, extra):
    return [(j2, j3, m2, m3) for j2 in range(j2max + 1) for j3 in range(j3max + 1)
            for m2 in range(-j2 - extra, j2 + extra + 1) for m3 in range(-j3 - extra, j3 + extra + 1)]


def families(tier):
    S = sf()
    thorough = tier != "quick"

    def verify(rec, f, size, call, what):
        j2, j3, m2, m3 = call
        rec.comparisons += len(f)
        if f.shape != (size,):
            rec.fail(f"{what}: array of shape {f.shape}, expected ({size},)")
        r = row(*call)
        n = len(r)
        j_min = max(abs(j2 - j3), abs(m2 + m3))
        if abs(m2) > j2 or abs(m3) > j3:
            j_min = n
        if not (np.abs(f[:n] - r) <= TOL).all() or f[n:].any() or f[:min(j_min, n)].any():
            rec.fail(f"{what}: calculate{call} gives {f.tolist()}, expected {r.tolist()} then zeros")

    def run_pairs(item, rec):
        dims, i, poison = item
        C = calls_upto(*dims, 1)
        calc = S.Wigner3jCalculator(*dims)
        size = sum(dims) + 1
        a = C[i]
        for b in C:
            f = calc.calculate(*a)
            verify(rec, f, size, a, f"size {dims}, after {b if b != C[0] else 'others'}")
            if poison:
                f[:] = np.nan
            f = calc.calculate(*b)
            verify(rec, f, size, b, f"size {dims}, after {a}")
            if poison:
                f[:] = 1e300
            rec.st(); rec.tr(2); rec.trace()

    def run_triples(item, rec):
        dims, i = item
        C = calls_upto(*dims, 0)
        calc = S.Wigner3jCalculator(*dims)
        size = sum(dims) + 1
        for b in C:
            for c in C:
                for x in (C[i], b, c):
                    f = calc.calculate(*x)
                verify(rec, f, size, c, f"size {dims}, after {C[i]}, {b}")
                rec.st(); rec.tr(3); rec.trace()

    def run_sizes(item, rec):
        """same call on calculators of all sizes, each after a call that fills the whole calculator"""
        j2, j3 = item
        dims = [(j2, j3), (j2 + 1, j3), (j2, j3 + 1), (j2 + 2, j3 + 3), (j2 + 7, j3), (j2, j3 + 11), (j2 + 20, j3 + 20), (64, 64), (200, 20), (255, 256)]
        if thorough:
            dims += [(j2 + a, j3 + b) for a in range(6) for b in range(6)]
        for d in dims:
            calc = S.Wigner3jCalculator(*d)
            size = sum(d) + 1
            rec.check(calc.size == size, "size")
            for m2 in range(-j2 - 1, j2 + 2):
                for m3 in range(-j3 - 1, j3 + 2):
                    for pre in ((d[0], d[1], 1 if d[0] else 0, 0), (d[0], d[1], -d[0], d[1]), (d[0], d[1], 0, 0)):
                        calc.calculate(*pre)[:] = 7.0
                        f = calc.calculate(j2, j3, m2, m3)
                        verify(rec, f, size, (j2, j3, m2, m3), f"calculator{d}, after {pre}")
                        rec.st(); rec.tr(2); rec.trace()

    def run_large(item, rec):
        a, b = item
        d = (max(a[0], b[0]), max(a[1], b[1]))
        for dd in (d, (d[0] + 5, d[1] + 1), (d[0] + 100, d[1] + 100)):
            calc = S.Wigner3jCalculator(*dd)
            for seq in ((a, b), (b, a), (a, a), (a, b, a)):
                for x in seq:
                    f = calc.calculate(*x)
                verify(rec, f, sum(dd) + 1, seq[-1], f"calculator{dd}, history {seq}")
                rec.st(); rec.tr(len(seq)); rec.trace()
    lg = [(40, 40, 0, 0), (40, 40, 3, -3), (40, 12, 12, -12), (64, 63, -20, 31), (100, 7, 50, 2), (3, 120, -1, 77), (128, 128, 128, -128), (1, 1, 0, 1), (0, 0, 0, 0), (20, 20, 20, 20), (5, 5, 6, 0),
          (30, 30, 1, 0), (90, 90, 45, -44), (2, 0, 1, 0), (17, 16, 1, 1), (150, 149, 0, 1), (250, 3, 0, 0)]

    def run_two(item, rec):
        """interleaved use of two calculators, and a held result of the other calculator"""
        i, j = item
        x, y = lg[i], lg[j]
        c1 = S.Wigner3jCalculator(x[0], x[1])
        c2 = S.Wigner3jCalculator(y[0], y[1])
        f1 = c1.calculate(*x)
        f2 = c2.calculate(*y)
        rec.st(); rec.tr(2); rec.trace()
        verify(rec, f1, x[0] + x[1] + 1, x, "held while another calculator works")
        verify(rec, f2, y[0] + y[1] + 1, y, "second calculator")
        kept = f1.copy()
        S.Wigner3j(2, 3, 4, 0, 1, -1)
        S.clebsch_gordan(2, 1, 3, 1, 4, 2)
        c3 = S.Wigner3jCalculator(x[0], x[1])
        c3.calculate(x[0], x[1], 0, 0)
        rec.check(same(kept, f1), "a held result changed by calls to other functions")

    scan = threej.make_scan(S.Wigner3j, S.clebsch_gordan)
    NR = 60 if not thorough else 100

    def run_recurrence(item, rec):
        j2, a, b, poison = item
        size = (NR + 3, NR) if poison else (j2, b - 1)
        threej.run(scan, rec, S, lambda rec, f, c: verify(rec, f, sum(size) + 1, tuple(c), f"calculator{size}"), size, j2, a, b, poison, False, None)

    def warm_rec():
        scan(S.Wigner3jCalculator(1, 1), 1, 1, 2, 0, False, np.zeros((1, 4), dtype=np.int64), np.zeros(1), np.zeros((1, 5), dtype=np.int64))

    n43 = len(calls_upto(3, 3, 1))
    fams = [
        Family("certified", [[j2, a, min(a + 10, NR + 1), p] for p in (0, 1) for a in range(0, NR + 1, 10) for j2 in range(NR, -1, -1)], run_recurrence, warm_rec,
               note=f"every call with j2, j3 <= {NR}, one after the other on one calculator (exact size; larger and overwritten with NaN by the caller after each call), certified by recurrence, normalisation and sign"),
        Family("sizes", [[a, b] for a in range(6) for b in range(6)], run_sizes, note="all calls with j<=5 on 10+ calculator sizes, after calls filling the calculator"),
        Family("call_pairs", [[d, i, p] for d in ([3, 3], [5, 1], [0, 4]) for p in (0, 1) for i in range(len(calls_upto(*d, 1)))], run_pairs, note="all ordered pairs of calls (valid and invalid m) on one calculator"),
        Family("call_triples", [[d, i] for d in ([2, 2], [1, 3]) for i in range(len(calls_upto(*d, 0)))] if not thorough else [[d, i] for d in ([2, 2], [1, 3], [3, 2]) for i in range(len(calls_upto(*d, 0)))],
               run_triples, note="all ordered triples of valid calls"),
        Family("large_pairs", [[a, b] for a in lg for b in lg], run_large, note="histories mixing large and small calls"),
        Family("two_calculators", [[i, j] for i in range(len(lg)) for j in range(len(lg))], run_two, note="interleaved calculators"),
    ]
    return fams
