"""C23: precomputed tables against exact arithmetic."""
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["relative accuracy demanded is 1e-14 (a few ulp)"]


def families(tier):
    S = sf()

    def run_fact(i, rec):
        rec.st(); rec.tr(); rec.trace()
        got = S.factorial(i)
        want = float(math.factorial(i))
        rec.check(got == want, lambda: f"factorial({i}) = {got!r}, expected {want!r}")

    nb = 2 * LMAX

    def run_binom(n, rec):
        for k in range(n + 1):
            rec.st(); rec.tr(); rec.trace()
            got, want = S.binomial_coefficient(n, k), float(math.comb(n, k))
            rec.check(abs(got - want) <= 4 * EPS * want, lambda: f"binomial_coefficient({n},{k}) = {got!r}, expected {want!r}")

    def run_ladder(t, rec):
        for tm in range(-t, t + 1, 2):
            rec.st(); rec.tr(2); rec.trace()
            n = (t - tm) * (t + tm + 2)        # 4 (l-m)(l+m+1)
            want = math.sqrt(n) / 2
            got = S.ladder_operator_coefficient(t / 2, tm / 2)
            rec.check(abs(got - want) <= 4 * EPS * want, lambda: f"ladder_operator_coefficient({t / 2},{tm / 2}) = {got!r}, expected {want!r}")
            if t % 2 == 0:
                got = S.ladder_operator_coefficient(t // 2, tm // 2)
                rec.check(abs(got - want) <= 4 * EPS * want, lambda: f"ladder_operator_coefficient({t // 2},{tm // 2})")

    def run_wigner(t, rec):
        # sqrt{(l+m)!(l-m)! / ((l+mp)!(l-mp)!)} * binom(l+mp, rhomin) binom(l-mp, l-rhomin-m), rhomin = max(0, mp-m)
        for ta in range(-t, t + 1, 2):
            for tb in range(-t, t + 1, 2):
                lpa, lma, lpb, lmb = (t + ta) // 2, (t - ta) // 2, (t + tb) // 2, (t - tb) // 2
                rho = max(0, (ta - tb) // 2)
                fr = Fraction(math.factorial(lpb) * math.factorial(lmb), math.factorial(lpa) * math.factorial(lma))
                v = fr * (math.comb(lpa, rho) * math.comb(lma, lmb - rho)) ** 2
                num, den = v.numerator, v.denominator
                sh = max(0, 130 - (num.bit_length() - den.bit_length()))
                sh += sh % 2
                r = math.isqrt((num << sh) // den)
                ex = max(0, r.bit_length() - 64)
                want = math.ldexp(float(r >> ex), ex - sh // 2)
                got = S.Wigner_coefficient(t / 2, ta / 2, tb / 2)
                rec.st(); rec.tr(); rec.trace()
                if not abs(got - want) <= 40 * EPS * want:
                    rec.fail(f"Wigner_coefficient({t / 2},{ta / 2},{tb / 2}) = {got!r}, expected {want!r}")
                rec.comparisons += 1
                if t % 2 == 0:
                    got = S.Wigner_coefficient(t // 2, ta // 2, tb // 2)
                    if not abs(got - want) <= 40 * EPS * want:
                        rec.fail(f"Wigner_coefficient({t // 2},{ta // 2},{tb // 2}) = {got!r}, expected {want!r}")
    def run_generator(_, rec):
        # the script documented as the origin of the tables, run in a directory of its own
        import os, subprocess, sys, tempfile
        pkg = os.path.dirname(os.path.abspath(S.__file__))
        with tempfile.TemporaryDirectory() as d:
            env = dict(os.environ, PYTHONPATH=os.path.dirname(pkg))
            p = subprocess.run([sys.executable, os.path.join(pkg, "_generate_coefficients.py")], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            rec.check(p.returncode == 0, lambda: "_generate_coefficients.py failed: " + p.stdout.decode(errors="replace")[-300:])
            for name, flat in [("binomial_coefficients", 4), ("ladder_operator_coefficients", 4), ("Wigner_coefficients", 40)]:
                shipped = np.load(os.path.join(pkg, name + ".npy"))
                f = os.path.join(d, name + ".npy")
                rec.check(os.path.exists(f), lambda: f"_generate_coefficients.py wrote no {name}.npy")
                new = np.load(f)
                rec.st(new.size); rec.tr(new.size); rec.trace()
                rec.check(new.shape == shipped.shape and new.dtype == shipped.dtype, lambda: f"_generate_coefficients.py: {name} has shape {new.shape}, {new.dtype}; the table read by the module {shipped.shape}, {shipped.dtype}")
                bad = np.flatnonzero(~(np.abs(new - shipped) <= flat * EPS * np.abs(shipped)))
                rec.check(bad.size == 0, lambda: f"_generate_coefficients.py: {name}[{bad[0]}] = {new[bad[0]]!r}, the table read by the module has {shipped[bad[0]]!r}")
    return [
        Family("generator", [0], run_generator, note="_generate_coefficients.py reproduces the three shipped tables"),
        Family("Wigner", list(range(TWO_LMAX, -1, -1)), run_wigner, note="all 93665 entries"),
        Family("ladder", list(range(TWO_LMAX + 1)), run_ladder, note="all entries"),
        Family("binomial", list(range(nb + 1)), run_binom, note="all n<=64, k"),
        Family("factorial", list(range(171)), run_fact, note="all 171 entries"),
    ]
