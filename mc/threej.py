"""Certification of every 3-j array of a range by its own defining equations, fast enough for millions of them.

f(j), j = j_min..j_max, is determined up to a factor by the three-term recurrence (it is the eigenvector of a tridiagonal
matrix with known eigenvalue), the factor by the normalisation, and its sign by the last element.  Arrays whose relative
residual in any of these is above 2e-14 are handed back, to be compared with exact integer arithmetic."""
import math
import numpy as np

KEEP = 20


def make_scan(Wigner3j, clebsch_gordan):
    def scan(calc, j2, j3a, j3b, poison, scalars, out, sev, out2):
        n = 0
        n2 = 0
        bad2 = 0
        for j3 in range(j3a, j3b):
            for m2 in range(-j2, j2 + 1):
                for m3 in range(-j3, j3 + 1):
                    f = calc.calculate(j2, j3, m2, m3)
                    n += 1
                    m1 = -m2 - m3
                    lo = max(abs(j2 - j3), abs(m1))
                    hi = j2 + j3
                    s = 0.0
                    e = 0.0
                    for j in range(lo, hi + 1):
                        s += (2 * j + 1) * f[j] ** 2
                    e = abs(s - 1) / 8
                    d23 = float((j2 - j3) ** 2)
                    p23 = float((j2 + j3 + 1) ** 2)
                    b0 = (m2 + m3) * (j2 * (j2 + 1.0) - j3 * (j3 + 1.0))
                    a1 = 0.0
                    up = 0.0
                    for j in range(hi, max(lo, 1) - 1, -1):
                        fj = float(j)
                        a0 = math.sqrt((fj * fj - d23) * (p23 - fj * fj) * (fj * fj - m1 * m1)) if j > lo else 0.0
                        b = (2 * fj + 1) * (b0 - (m2 - m3) * fj * (fj + 1))
                        r = abs(fj * a1 * up + b * f[j] + (fj + 1) * a0 * (f[j - 1] if j > lo else 0.0))
                        sc = (fj * a1 + abs(b) + (fj + 1) * a0) / math.sqrt(2 * fj + 1)
                        if not r <= sc * e:
                            e = max(e, r / sc) if sc > 0 and r / sc == r / sc else 9.0
                        a1 = a0
                        up = f[j]
                    for j in range(len(f)):
                        if (j < lo or j > hi) and f[j] != 0:
                            e = 9.0
                    k = hi
                    while k > lo and f[k] == 0:
                        k -= 1
                    if (f[k] < 0) != ((j2 - j3 + m2 + m3) % 2 != 0):
                        e = 9.0
                    if not e <= 2e-14:
                        k = 0
                        for i in range(len(sev)):
                            if sev[i] < sev[k]:
                                k = i
                        if not e <= sev[k]:
                            sev[k] = e
                            out[k, 0] = j2
                            out[k, 1] = j3
                            out[k, 2] = m2
                            out[k, 3] = m3
                    if scalars:
                        for j in range(lo, hi + 1):
                            v = f[j]
                            o = v if (j + j2 + j3) % 2 == 0 else -v
                            c = math.sqrt(2.0 * j + 1) * v * (1 if (j2 - j3 - m1) % 2 == 0 else -1)
                            bad = not (abs(Wigner3j(j, j2, j3, m1, m2, m3) - v) <= 1e-12 and abs(Wigner3j(j2, j3, j, m2, m3, m1) - v) <= 1e-12
                                       and abs(Wigner3j(j2, j, j3, m2, m1, m3) - o) <= 1e-12 and abs(clebsch_gordan(j2, m2, j3, m3, j, -m1) - c) <= 1e-12 * math.sqrt(2.0 * j + 1))
                            n2 += 4
                            if bad:
                                if bad2 < len(out2):
                                    out2[bad2, 0] = j
                                    out2[bad2, 1] = j2
                                    out2[bad2, 2] = j3
                                    out2[bad2, 3] = m2
                                    out2[bad2, 4] = m3
                                bad2 += 1
                    if poison:
                        for j in range(len(f)):
                            f[j] = np.nan
        return n, n2, bad2
    try:
        import numba
        return numba.njit(scan)
    except Exception:
        return scan


def run(scan, rec, S, verify, size, j2, j3a, j3b, poison, scalars, exact):
    """verify(rec, f, call): exact comparison of one array"""
    calc = S.Wigner3jCalculator(*size)
    out, sev, out2 = np.zeros((KEEP, 4), dtype=np.int64), np.zeros(KEEP), np.zeros((KEEP, 5), dtype=np.int64)
    n, n2, bad2 = scan(calc, j2, j3a, j3b, poison, scalars, out, sev, out2)
    rec.st(n); rec.tr(n + n2); rec.trace(n + n2)
    rec.comparisons += n + n2
    for c, e in zip(out.tolist(), sev):
        if e > 0:
            verify(rec, np.array(S.Wigner3jCalculator(*size).calculate(*c)), c)
    for j, a, b, m2, m3 in out2[:bad2].tolist():
        exact(rec, j, a, b, -m2 - m3, m2, m3)
