"""C07: Wigner 3-j symbols and Clebsch-Gordan coefficients against exact integer arithmetic."""
import numpy as np
from .core import Family
from .common import *
from . import threej

ASSUMPTIONS = ["accuracy demanded is 1e-12 absolute (observed: 4e-14), exact zero where the selection rules say so"]
TOL = 1e-12


def families(tier):
    S = sf()
    thorough = tier != "quick"
    J = 9 if not thorough else 14

    def run_scalar(item, rec):
        j1, j2 = item
        for j3 in range(0, J + 1):
            tri = abs(j1 - j2) <= j3 <= j1 + j2
            for m1 in range(-j1 - 1, j1 + 2):
                for m2 in range(-j2 - 1, j2 + 2):
                    if tri:
                        m3s = range(-j3 - 1, j3 + 2) if J <= 9 or j1 + j2 <= 8 else (-m1 - m2, -m1 - m2 + 1)
                    else:
                        m3s = (-m1 - m2, 0)
                    for m3 in m3s:
                        want = w3j(j1, j2, j3, m1, m2, m3)
                        got = S.Wigner3j(j1, j2, j3, m1, m2, m3)
                        rec.st(); rec.tr(2); rec.trace()
                        selection = m1 + m2 + m3 == 0 and abs(m1) <= j1 and abs(m2) <= j2 and abs(m3) <= j3 and tri
                        if not selection:
                            rec.check(got == 0.0, lambda: f"Wigner3j{j1, j2, j3, m1, m2, m3} = {got!r}, expected exactly 0")
                        else:
                            rec.close(got, want, TOL, lambda: f"Wigner3j{j1, j2, j3, m1, m2, m3}")
                        got = S.clebsch_gordan(j1, m1, j2, m2, j3, -m3)
                        want = clebsch(j1, m1, j2, m2, j3, -m3)
                        if not selection:
                            rec.check(got == 0.0, lambda: f"clebsch_gordan{j1, m1, j2, m2, j3, -m3} = {got!r}, expected exactly 0")
                        else:
                            rec.close(got, want, 7 * TOL, lambda: f"clebsch_gordan{j1, m1, j2, m2, j3, -m3}")
                        rec.outcome(round(want, 9))

    J2 = 18 if not thorough else 24

    def run_medium(item, rec):
        """all valid (j1,j2,j3,m1,m2) with j up to J2 (the m sum rule holds); beyond J"""
        j1, j2 = item
        for j3 in range(abs(j1 - j2), min(j1 + j2, J2) + 1):
            if max(j1, j2, j3) <= J:
                continue
            k = math.sqrt(2 * j3 + 1)
            got, want, gcg, wcg = [], [], [], []
            for m1 in range(-j1, j1 + 1):
                for m2 in range(max(-j2, -j3 - m1), min(j2, j3 - m1) + 1):
                    m3 = -m1 - m2
                    got.append(S.Wigner3j(j1, j2, j3, m1, m2, m3))
                    w = w3j(j1, j2, j3, m1, m2, m3)
                    want.append(w)
                    gcg.append(S.clebsch_gordan(j1, m1, j2, m2, j3, -m3))
                    wcg.append((-1) ** ((j1 - j2 - m3) % 2) * k * w)
            rec.st(len(got)); rec.tr(2 * len(got)); rec.trace(len(got))
            rec.close(np.array(got), np.array(want), TOL, lambda: f"Wigner3j({j1},{j2},{j3}, all m)")
            rec.close(np.array(gcg), np.array(wcg), 7 * TOL, lambda: f"clebsch_gordan({j1},.,{j2},.,{j3},.)")

    def triples(j1, j2, j3):
        """m combinations at and next to every boundary"""
        out = set()
        for m1 in {0, 1, -1, 2, j1 // 2, -(j1 // 3), j1, -j1, j1 - 1, 1 - j1}:
            for m2 in {0, 1, -1, j2, -j2, j2 - 1, 1 - j2, j2 // 2, -(j2 // 3), -m1, -m1 + 1, j3 - m1, -j3 - m1}:
                if abs(m1) <= j1 and abs(m2) <= j2 and abs(m1 + m2) <= j3:
                    out.add((m1, m2))
        return sorted(out)
    big = [16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 181, 182, 200, 255, 256, 257, 300, 400, 512, 600, 724, 800]
    combos = []
    for i, a in enumerate(big):
        for b in [0, 1, 2, 5, 13, a // 2, a - 1, a]:
            for c in {abs(a - b), abs(a - b) + 1, a, (a + b + abs(a - b)) // 2, a + b - 1, a + b}:
                if abs(a - b) <= c <= a + b and c <= (450 if not thorough else 1200):
                    for p in {(a, b, c), (b, a, c), (c, b, a)}:
                        combos.append(p)
    combos = sorted(set(combos), key=lambda t: -sum(t))

    def run_large(item, rec):
        j1, j2, j3 = item
        k = math.sqrt(2 * j3 + 1)
        got, want, gcg, ms = [], [], [], triples(j1, j2, j3)
        if max(item) > 260 and not thorough:
            ms = ms[::5]
        for m1, m2 in ms:
            got.append(S.Wigner3j(j1, j2, j3, m1, m2, -m1 - m2))
            w = w3j(j1, j2, j3, m1, m2, -m1 - m2)
            want.append(w)
            rec.close(S.clebsch_gordan(j1, m1, j2, m2, j3, m1 + m2), (-1) ** ((j1 - j2 + m1 + m2) % 2) * k * w, k * TOL, lambda: f"clebsch_gordan({j1},{m1},{j2},{m2},{j3},{m1 + m2})")
        rec.st(len(got)); rec.tr(2 * len(got)); rec.trace(len(got))
        rec.close(np.array(got), np.array(want), TOL, lambda: f"Wigner3j({item}, m={ms})")

    def run_invalid(item, rec):
        j1, j2 = item
        js = [-2, -1, 0, 1, 2, 3, 7, 20, 50, 1000]
        for j3 in js:
            for m1 in (-51, -20, -2, -1, 0, 1, 2, 8, 51):
                for m2 in (-51, -20, -2, -1, 0, 1, 2, 8, 51):
                    for m3 in {-m1 - m2, 0, 1, -m1 - m2 + 1}:
                        ok = m1 + m2 + m3 == 0 and abs(m1) <= j1 and abs(m2) <= j2 and abs(m3) <= j3 and abs(j1 - j2) <= j3 <= j1 + j2
                        rec.st(); rec.tr(); rec.trace()
                        got = S.Wigner3j(j1, j2, j3, m1, m2, m3)
                        if ok:
                            if max(j1, j2, j3) <= 60:
                                rec.close(got, w3j(j1, j2, j3, m1, m2, m3), TOL, lambda: f"Wigner3j{j1, j2, j3, m1, m2, m3}")
                        else:
                            rec.check(got == 0.0, lambda: f"Wigner3j{j1, j2, j3, m1, m2, m3} = {got!r}, expected exactly 0")

    def run_huge(item, rec):
        """j beyond what other families reach, at the ends where the exact value is cheap"""
        j2, j3, m2, m3 = item
        for j1 in sorted({max(abs(j2 - j3), abs(m2 + m3)), max(abs(j2 - j3), abs(m2 + m3)) + 1, j2 + j3, j2 + j3 - 1}):
            if max(abs(j2 - j3), abs(m2 + m3)) <= j1 <= j2 + j3:
                rec.st(); rec.tr(); rec.trace()
                rec.close(S.Wigner3j(j1, j2, j3, -m2 - m3, m2, m3), w3j(j1, j2, j3, -m2 - m3, m2, m3), TOL, lambda: f"Wigner3j{j1, j2, j3, -m2 - m3, m2, m3}")
    huge = [(j2, j3, m2, m3) for j2, j3 in ([(700, 650), (1000, 999), (1500, 20)] if not thorough else [(700, 650), (1000, 999), (1500, 20), (2000, 2000), (5000, 40), (20000, 7)])
            for m2, m3 in [(0, 0), (1, -1), (j2, -j3), (j2 // 2, -j3 // 3), (-j2, j3), (2, 3), (j2, j3), (j2 - 1, -j3), (j2 // 3, j3 // 2), (-j2 // 7, j3 - 1)]]
    scan = threej.make_scan(S.Wigner3j, S.clebsch_gordan)
    NR = 24 if not thorough else 40

    def run_certified(item, rec):
        j2, a, b = item

        def verify(rec, f, c):
            r = np.array([w3j(j, c[0], c[1], -c[2] - c[3], c[2], c[3]) for j in range(len(f))])
            rec.close(f, r, TOL, lambda: f"Wigner3jCalculator.calculate{tuple(c)}")

        def exact(rec, j, j2, j3, m1, m2, m3):
            v = w3j(j, j2, j3, m1, m2, m3)
            o = v if (j + j2 + j3) % 2 == 0 else -v
            for args, w in (((j, j2, j3, m1, m2, m3), v), ((j2, j3, j, m2, m3, m1), v), ((j2, j, j3, m2, m1, m3), o)):
                rec.close(S.Wigner3j(*args), w, TOL, lambda: f"Wigner3j{args}")
            rec.close(S.clebsch_gordan(j2, m2, j3, m3, j, -m1), clebsch(j2, m2, j3, m3, j, -m1), math.sqrt(2 * j + 1) * TOL, lambda: f"clebsch_gordan{j2, m2, j3, m3, j, -m1}")
        threej.run(scan, rec, S, verify, (j2, b - 1), j2, a, b, 0, True, exact)

    def warm():
        scan(S.Wigner3jCalculator(1, 1), 1, 1, 2, 0, True, np.zeros((1, 4), dtype=np.int64), np.zeros(1), np.zeros((1, 5), dtype=np.int64))
    return [
        Family("certified", [[j2, a, min(a + 3, NR + 1)] for a in range(0, NR + 1, 3) for j2 in range(NR, -1, -1)], run_certified, warm, note=f"all symbols with two of the j <= {NR}: arrays certified by recurrence, normalisation and sign, single symbols in three orders and Clebsch-Gordan coefficients compared with them"),
        Family("huge", [list(h) for h in huge], run_huge, note="j up to 1500 (thorough 20000)"),
        Family("large", [list(c) for c in combos], run_large, note="j up to 450 (thorough 1200) at all boundary configurations (degenerate, stretched, m extreme)"),
        Family("all_small", [[a, b] for a in range(J, -1, -1) for b in range(J + 1)], run_scalar, note=f"all j<={J}, all m incl. invalid"),
        Family("all_medium", [[a, b] for a in range(J2, -1, -1) for b in range(J2, -1, -1)], run_medium, note=f"all valid symbols with {J} < max j <= {J2}"),
        Family("invalid", [[a, b] for a in (-2, -1, 0, 1, 2, 3, 7, 20, 50, 1000) for b in (-2, -1, 0, 1, 2, 3, 7, 20, 50, 1000)], run_invalid, note="selection rules far outside"),
    ]
