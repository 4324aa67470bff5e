"""C16: Grid arithmetic is pointwise and tracks the spin weight."""
import operator
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["values are compared to 1e-13 relative to the magnitude of the terms; the dtype of the result is not judged"]

ADD = {"a+b": operator.add, "np.add": np.add, "a.add(b)": lambda a, b: a.add(b)}
SUB = {"a-b": operator.sub, "np.subtract": np.subtract, "a.subtract(b)": lambda a, b: a.subtract(b)}
MUL = {"a*b": operator.mul, "np.multiply": np.multiply, "a.multiply(b)": lambda a, b: a.multiply(b)}
DIV = {"a/b": operator.truediv, "np.divide": np.divide, "np.true_divide": np.true_divide, "a.divide(b)": lambda a, b: a.divide(b)}
RADD = {"c+a": lambda a, c: c + a, "np.add(c,a)": lambda a, c: np.add(c, a)}
RSUB = {"c-a": lambda a, c: c - a, "np.subtract(c,a)": lambda a, c: np.subtract(c, a)}
RMUL = {"c*a": lambda a, c: c * a, "np.multiply(c,a)": lambda a, c: np.multiply(c, a)}
RDIV = {"c/a": lambda a, c: c / a, "np.divide(c,a)": lambda a, c: np.divide(c, a)}
CONJ = {"conj()": lambda a: a.conj(), "conjugate()": lambda a: a.conjugate(), "bar": lambda a: a.bar, "np.conj": np.conj, "np.conjugate": np.conjugate}
ABS = {"abs": abs, "np.abs": np.abs, "np.absolute": np.absolute, "absolute()": lambda a: a.absolute()}
NEG = {"-a": operator.neg, "np.negative": np.negative}
POS = {"+a": operator.pos, "np.positive": np.positive}
REAL = {"real": lambda a: a.real, "np.real": np.real}
IMAG = {"imag": lambda a: a.imag, "np.imag": np.imag}
SQRT = {"np.sqrt": np.sqrt}
SQUARE = {"np.square": np.square, "a**2": lambda a: a ** 2}
RECIP = {"np.reciprocal": np.reciprocal, "a**-1": lambda a: a ** -1}
POW = {"a**n": operator.pow, "np.power": np.power}


def families(tier):
    S = sf()
    Grid = S.Grid
    thorough = tier != "quick"

    def data(n, lead=(), seed=.3):
        return generic_array(lead + n, seed)

    def judge(rec, o, want, s, mag, what):
        rec.st(); rec.tr(); rec.trace()
        rec.check(type(o) is Grid, lambda: f"{what()}: returned {type(o).__name__}")
        rec.check(o.s == s, lambda: f"{what()}: spin weight {o.s}, expected {s}")
        rec.close(o.view(np.ndarray), want, 1e-13 * (mag + np.abs(want)), what)

    def pure(rec, pairs, what):
        for o, a, s in pairs:
            rec.check(o.s == s and same(o.view(np.ndarray), a), lambda: f"{what()}: an operand was modified")

    def unary(rec, a, s, nm0, bound):
        """all unary operations on a Grid with values a; bound: largest spin the grid supports"""
        o = Grid(a.copy(), spin_weight=s)
        W = lambda k: (lambda: f"{k} of {nm0}")
        for d, want, t in ((CONJ, a.conj(), -s), (ABS, np.abs(a), 0), (NEG, -a, s), (POS, a, s), (RECIP, 1 / a, -s)):
            for k, f in d.items():
                judge(rec, f(o), want, t, 0, W(k))
        if s == 0:
            for d, want in ((REAL, a.real), (IMAG, a.imag)):
                for k, f in d.items():
                    judge(rec, f(o), want, 0, 0, W(k))
        if s % 2 == 0:
            for k, f in SQRT.items():
                judge(rec, f(o), np.sqrt(a), s // 2, 0, W(k))
        if 2 * abs(s) <= bound:
            for k, f in SQUARE.items():
                judge(rec, f(o), a * a, 2 * s, 0, W(k))
        for n in range(-4, 6):
            if abs(n * s) <= bound:
                want = np.ones_like(a)
                for _ in range(abs(n)):
                    want = want * a
                want = want if n >= 0 else 1 / want
                for e in (n, float(n), np.int64(n), np.float64(n)):
                    for k, f in POW.items():
                        judge(rec, f(o, e), want, n * s, 0, W(f"{k}, n={e!r}"))
        pure(rec, [(o, a, s)], lambda: f"unary operations on {nm0}")
        return o

    def run_unary(item, rec):
        s, nt, nph = item
        if min(nt, nph) < 2 * abs(s) + 1:
            return
        for lead in ((), (2,), (2, 3), (1, 1, 2), (0,)):
            unary(rec, data((nt, nph), lead), s, f"Grid(s={s}, {lead}+({nt},{nph}))", (min(nt, nph) - 1) // 2)
        # layouts
        a = data((nt, nph), (2,))
        for k, x in {"F": np.asfortranarray(a), "reversed": np.ascontiguousarray(a[::-1])[::-1], "transposed": np.ascontiguousarray(a.swapaxes(-1, -2)).swapaxes(-1, -2)}.items():
            o = Grid(x, spin_weight=s)
            judge(rec, o.conj(), a.conj(), -s, 0, lambda: f"conj of {k} Grid")
            judge(rec, -o, -a, s, 0, lambda: f"neg of {k} Grid")
            judge(rec, o * o.conj(), a * a.conj(), 0, 0, lambda: f"product of {k} Grid")
        if s == 0:
            r = np.abs(a)
            o = Grid(r.copy(), spin_weight=0)
            for n in range(-2, 4):
                judge(rec, o ** n, r ** n, 0, 0, lambda: f"power {n} of a real Grid")
            judge(rec, np.sqrt(o), np.sqrt(r), 0, 0, lambda: "sqrt of a real Grid")
            judge(rec, o.conj(), r, 0, 0, lambda: "conj of a real Grid")
            judge(rec, o.real, r, 0, 0, lambda: "real of a real Grid")
            judge(rec, o.imag, 0 * r, 0, 0, lambda: "imag of a real Grid")
            judge(rec, o + 1j, r + 1j, 0, 0, lambda: "real Grid + 1j")

    def run_sizes(item, rec):
        lead, s = tuple(item[0]), item[1]
        a, b = data((5, 6), lead, .1), data((5, 6), (), 1.1)
        unary(rec, a, s, f"Grid(s={s}, {lead}+(5, 6))", 2)
        for x, y in ((a, a[::-1].copy()), (a, b), (b, a)):
            A, B = Grid(x.copy(), s), Grid(y.copy(), s)
            nm = f"Grids (s={s}) with shapes {x.shape}, {y.shape}"
            for D, want, t in ((DIV, x / y, 0), (ADD, x + y, s), (SUB, x - y, s)) + (((MUL, x * y, 2 * s),) if abs(s) < 2 else ()):
                for k, f in D.items():
                    judge(rec, f(A, B), want, t, 3, lambda: f"{k}: {nm}")
            pure(rec, [(A, x, s), (B, y, s)], lambda: nm)

    def run_pairs(item, rec):
        s1, s2 = item
        for n in ((9, 9), (9, 12), (13, 9)) if max(abs(s1), abs(s2)) <= 2 else ((51, 50),):
            for l1, l2 in (((), ()), ((2,), ()), ((), (3,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (4,)), ((0,), ()), ((3, 2), (2,)), ((70,), (70,)), ((1, 1, 2), (3, 1, 1))):
                a, b = data(n, l1, .1), data(n, l2, 1.1)
                A, B = Grid(a.copy(), s1), Grid(b.copy(), s2)
                nm = f"Grid(s={s1},{l1}), Grid(s={s2},{l2}), {n}"
                for k, f in MUL.items():
                    judge(rec, f(A, B), a * b, s1 + s2, 0, lambda: f"{k}: {nm}")
                for k, f in DIV.items():
                    judge(rec, f(A, B), a / b, s1 - s2, 0, lambda: f"{k}: {nm}")
                if s1 == s2:
                    for k, f in ADD.items():
                        judge(rec, f(A, B), a + b, s1, 3, lambda: f"{k}: {nm}")
                    for k, f in SUB.items():
                        judge(rec, f(A, B), a - b, s1, 3, lambda: f"{k}: {nm}")
                for k, f in {"==": operator.eq, "!=": operator.ne}.items():
                    r = f(A, B)
                    rec.tr()
                    rec.check(np.array_equal(np.asarray(r), f(a, b)), lambda: f"{k}: {nm}")
                pure(rec, [(A, a, s1), (B, b, s2)], lambda: nm)

    scal = [2, -3, 2.5, 1j, 2 - 1.5j, True, 0, 0.0, -0.25, np.float64(1.5), np.complex128(1 + 2j), np.int64(-2), np.float32(0.5), 1e-100, 1e100, np.array(3.5), np.array(2j)]

    def run_scalars(item, rec):
        s, nt, nph = item
        for lead in ((), (2,), (2, 3), (1,), (3, 1), (0,), (nph,), (nt, nph)):
            a = data((nt, nph), lead)
            o = Grid(a.copy(), spin_weight=s)
            cs = list(scal)
            for sh in {lead, lead[-1:], (1,) * len(lead), (1,) + lead[1:], lead[:-1] + (1,), (4,) if lead in ((1,), (3, 1)) else lead} - {()}:
                if len(sh) <= len(lead):
                    cs += [generic_array(sh, .7), generic_real(sh, .9), np.arange(1, 1 + int(np.prod(sh))).reshape(sh), np.asfortranarray(generic_array(sh, .2))]
                    if all(sh):
                        cs += [np.arange(1, 1 + int(np.prod(sh))).reshape(sh).tolist()]
            for c in cs:
                x = np.asarray(c, dtype=complex)[..., None, None]
                nm = f"Grid(s={s}, {lead}+({nt},{nph})), c={c!r}"
                nz = bool(np.all(x != 0))
                jobs = [(MUL, a * x, s), (RMUL, x * a, s), (RDIV, x / a, -s)]
                if nz:
                    jobs.append((DIV, a / x, s))
                if s == 0 or not np.any(x):
                    jobs += [(ADD, a + x, s), (RADD, x + a, s), (SUB, a - x, s), (RSUB, x - a, s)]
                for d, want, t in jobs:
                    for k, f in d.items():
                        judge(rec, f(o, c), want, t, float(np.max(np.abs(x), initial=0)) if d in (ADD, RADD, SUB, RSUB) else 0, lambda: f"{k}: {nm}")
            pure(rec, [(o, a, s)], lambda: f"scalar operations on Grid(s={s}, {lead})")

    def run_compare(item, rec):
        nm = item
        uf = getattr(np, nm)
        a, b = data((5, 5), (2,), .1).real.copy(), data((5, 5), (2,), .9).real.copy()
        b[0, 2] = a[0, 2]
        A, B = Grid(a.copy(), 0), Grid(b.copy(), 0)
        forms = {"GG": (A, B, a, b), "GA": (A, b, a, b), "AG": (a, B, a, b), "Gs": (A, .1, a, .1), "sG": (.1, A, .1, a)} if uf.nin == 2 else {"G": (A, a)}
        for k, v in forms.items():
            args, plain = v[:uf.nin], v[uf.nin:]
            r = uf(*args)
            rec.st(); rec.tr(); rec.trace()
            rec.check(not isinstance(r, Grid) and same(np.asarray(r), uf(*plain)), lambda: f"np.{nm} ({k})")
        pure(rec, [(A, a, 0), (B, b, 0)], lambda: nm)

    # -------------------------------------------------------------------------------------------- sequences
    N = (9, 10)
    B = 4      # largest spin of the grid
    partners = [(k, data(N, (), 3 + .1 * k)) for k in range(-2, 3)] + [(0, data(N, (2,), 4.))]

    def moves(a, s):
        out = [("conj", [lambda o, P, f=f: f(o) for f in CONJ.values()], lambda: (a.conj(), -s)),
               ("abs", [lambda o, P, f=f: f(o) for f in ABS.values()], lambda: (np.abs(a), 0)),
               ("neg", [lambda o, P, f=f: f(o) for f in NEG.values()], lambda: (-a, s)),
               ("recip", [lambda o, P, f=f: f(o) for f in RECIP.values()], lambda: (1 / a, -s)),
               ("*c", [lambda o, P, f=f: f(o, 1 - 2j) for f in list(MUL.values()) + list(RMUL.values())], lambda: (a * (1 - 2j), s)),
               ("c/x", [lambda o, P, f=f: f(o, 2j) for f in RDIV.values()], lambda: (2j / a, -s)),
               ("x+x", [lambda o, P, f=f: f(o, o) for f in ADD.values()], lambda: (a + a, s)),
               ("x/conj(x)", [lambda o, P, f=f: f(o, o.bar) for f in DIV.values()], lambda: (a / a.conj(), 2 * s)),
               ("x*conj(x)", [lambda o, P, f=f: f(o, o.bar) for f in MUL.values()], lambda: (a * a.conj(), 0))]
        if s == 0:
            out += [("real", [lambda o, P, f=f: f(o) for f in REAL.values()], lambda: (a.real, 0)),
                    ("+c", [lambda o, P, f=f: f(o, 2 - 1j) for f in list(ADD.values()) + list(RADD.values())], lambda: (a + (2 - 1j), 0)),
                    ("c-x", [lambda o, P, f=f: f(o, 3j) for f in RSUB.values()], lambda: (3j - a, 0))]
        if s % 2 == 0:
            out.append(("sqrt", [lambda o, P: np.sqrt(o)], lambda: (np.sqrt(a + 0j) if not np.isrealobj(a) else None, s // 2)))
        out += [("square", [lambda o, P, f=f: f(o) for f in SQUARE.values()], lambda: (a * a, 2 * s)),
                ("**3", [lambda o, P, f=f: f(o, 3) for f in POW.values()], lambda: (a * a * a, 3 * s)),
                ("**-2", [lambda o, P, f=f: f(o, -2) for f in POW.values()], lambda: (1 / (a * a), -2 * s))]
        if a.ndim > 2:
            c = np.array([2., -1j])
            out += [("x[1]", [lambda o, P: o[1]], lambda: (a[1], s)), ("*array", [lambda o, P, f=f: f(o, c) for f in MUL.values()], lambda: (a * c[:, None, None], s))]
        for i, (t, p) in enumerate(partners):
            out += [(f"x*p{i}", [lambda o, P, f=f, i=i: f(o, P[i]) for f in MUL.values()], lambda p=p, t=t: (a * p, s + t)),
                    (f"p{i}/x", [lambda o, P, f=f, i=i: f(P[i], o) for f in DIV.values()], lambda p=p, t=t: (p / a, t - s))]
            if s == t:
                out += [(f"x+p{i}", [lambda o, P, f=f, i=i: f(o, P[i]) for f in ADD.values()], lambda p=p: (a + p, s)),
                        (f"p{i}-x", [lambda o, P, f=f, i=i: f(P[i], o) for f in SUB.values()], lambda p=p: (p - a, s))]
        return out

    starts = [(0, data(N, (), 5.1)), (1, data(N, (2,), 5.2)), (-2, data(N, (), 5.3)), (2, data(N, (2,), 5.4))]

    def run_seq(item, rec):
        si, i0 = item
        s0, a0 = starts[si]
        P = [Grid(p.copy(), t) for t, p in partners]
        count = [0]

        def go(o, a, s, word, ops, cond):
            before = o.view(np.ndarray).copy()
            for nm, forms, model in ops:
                with np.errstate(all="ignore"):
                    b, t = model()
                if b is None or abs(t) > B:
                    continue
                count[0] += 1
                r = forms[count[0] % len(forms)](o, P)
                w = word + (nm,)
                rec.st(); rec.tr(); rec.trace()
                rec.check(type(r) is Grid and r.s == t, lambda: f"Grid(s={s0}) then {w}: {type(r).__name__}, spin weight {getattr(r, 's', None)}, expected {t}")
                # rounding differences between the model and the code are amplified where values nearly cancel; judge the step
                # on the code's own previous result, so that errors do not accumulate
                rec.close(r.view(np.ndarray), b, 1e-12 * (np.abs(b) + (3 + np.abs(a) if any(ch in nm for ch in "+-") and "*" not in nm else 0)), lambda: f"Grid(s={s0}) then {w}")
                if len(w) < 3:
                    go(r, r.view(np.ndarray).copy(), t, w, moves(r.view(np.ndarray).copy(), t), cond)
            rec.check(o.s == s and same(o.view(np.ndarray), before), lambda: f"Grid(s={s0}) then {word}: operand changed")
        o = Grid(a0.copy(), s0)
        go(o, a0, s0, (), [moves(a0, s0)[i0]], 1)
        pure(rec, [(o, a0, s0)] + [(g, p, t) for g, (t, p) in zip(P, partners)], lambda: "sequence")

    sp = range(-2, 3)
    return [
        Family("unary", [[s, a, b] for s in range(-4, 5) for a, b in ((9, 9), (9, 11), (12, 9), (3, 4), (17, 33))] + [[s, a, b] for s in (-20, -10, -7, 5, 9, 16, 0) for a, b in ((41, 43), (65, 66))], run_unary, note="spins -4..4 (and to 20 on larger grids), grid sizes, shapes, layouts, powers -4..5"),
        Family("pairs", [[a, b] for a in sp for b in sp] + [[a, b] for a in (-12, -5, 0, 3, 12) for b in (-12, -7, 3, 5, 12)], run_pairs, note="spins -2..2 (and some up to 12) x grid sizes x shapes x forms"),
        Family("sizes", [[list(l), s] for l in [(n,) for n in SIZES] + DEEP for s in (-1, 0, 2)], run_sizes, note="leading dimensions next to powers of two and round numbers, up to 5 dimensions"),
        Family("scalars", [[s, a, b] for s in (-2, 0, 1) for a, b in ((5, 5), (5, 6), (6, 5))], run_scalars, note="scalars and arrays of every kind"),
        Family("compare", ["greater", "greater_equal", "less", "less_equal", "not_equal", "equal", "logical_and", "logical_or", "isfinite", "isinf", "isnan"], run_compare, note="comparisons"),
        Family("sequences", [[i, k] for i, (s, a) in enumerate(starts) for k in range(len(moves(a, s)))], run_seq, note="all sequences of length <= 3"),
    ]
