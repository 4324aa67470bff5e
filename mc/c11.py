"""C11: arithmetic on Modes is arithmetic of functions."""
import operator
import numpy as np
from .core import Family, pmap
from .common import *

ASSUMPTIONS = ["np.absolute of Modes is outside the domain (documentation and behaviour differ: element-wise)",
               "accuracy demanded is 1e-12 times the product/sum of the magnitudes of the operands"]


class F:
    """model of a function: weights from ell=0, spin, ell_max; `mag` bounds the magnitude of the weights for the tolerance"""
    def __init__(self, a, s, L, mag=None):
        self.a, self.s, self.L = a, s, L
        self.mag = mag if mag is not None else (1 + (float(np.max(np.abs(a))) if a.size else 0.0))


def grow(f, L):
    a = np.zeros(f.a.shape[:-1] + ((L + 1) ** 2,), dtype=complex)
    a[..., :f.a.shape[-1]] = f.a
    return a


def m_add(f, g, sign=1):
    L = max(f.L, g.L)
    return F(grow(f, L) + sign * grow(g, L), f.s, L, f.mag + g.mag)


def m_mul(f, g, L=None):
    L = f.L + g.L if L is None else L
    return F(ref_multiply(f.a, f.L, f.s, g.a, g.L, g.s, L), f.s + g.s, L, f.mag * g.mag * (1 + min(f.L, g.L)) * 4)


def m_conj(f):
    return F(ref_conjugate(f.a, f.L, f.s), -f.s, f.L, f.mag)


def m_scal(f, c, div=False):
    c = np.asarray(c, dtype=complex)[..., None]
    return F(f.a / c if div else f.a * c, f.s, f.L, f.mag * (1 + float(np.max(np.abs(1 / c if div else c), initial=0))))


def m_real(f):
    c = ref_conjugate(f.a, f.L, 0)
    return F((f.a + c) / 2, 0, f.L, f.mag)


def m_imag(f):
    c = ref_conjugate(f.a, f.L, 0)
    return F(-0.5j * (f.a - c), 0, f.L, f.mag)


ADD = {"a+b": operator.add, "np.add": np.add, "a.add(b)": lambda a, b: a.add(b)}
SUB = {"a-b": operator.sub, "np.subtract": np.subtract, "a.subtract(b)": lambda a, b: a.subtract(b)}
MUL = {"a*b": operator.mul, "np.multiply": np.multiply, "a.multiply(b)": lambda a, b: a.multiply(b)}
CONJ = {"conj()": lambda a: a.conj(), "conjugate()": lambda a: a.conjugate(), "bar": lambda a: a.bar, "np.conj": np.conj, "np.conjugate": np.conjugate}
NEG = {"-a": operator.neg, "np.negative": np.negative}
POS = {"+a": operator.pos, "np.positive": np.positive}
REAL = {"a.real": lambda a: a.real, "np.real": np.real}
IMAG = {"a.imag": lambda a: a.imag, "np.imag": np.imag}
SMUL = {"a*c": lambda a, c: a * c, "c*a": lambda a, c: c * a, "np.multiply(a,c)": np.multiply, "np.multiply(c,a)": lambda a, c: np.multiply(c, a), "a.multiply(c)": lambda a, c: a.multiply(c)}
SDIV = {"a/c": lambda a, c: a / c, "np.divide": np.divide, "np.true_divide": np.true_divide, "a.divide(c)": lambda a, c: a.divide(c)}


def families(tier):
    S = sf()
    Modes = S.Modes
    thorough = tier != "quick"

    def fun(s, L, lead=(), seed=0.0):
        return F(ref_zero_low(generic_array(tuple(lead) + ((L + 1) ** 2,), seed + .17 * s + .05 * L), s), s, L)

    def real(f, **kw):
        return Modes(f.a.copy(), spin_weight=f.s, **kw)

    def judge(rec, o, want, what):
        rec.st(); rec.tr(); rec.trace()
        rec.check(type(o) is Modes, lambda: f"{what()}: returned {type(o).__name__}")
        rec.check((o.s, o.ell_min, o.ell_max) == (want.s, 0, want.L), lambda: f"{what()}: s={o.s}, ell_max={o.ell_max}; expected s={want.s}, ell_max={want.L}")
        d = o.view(np.ndarray)
        rec.close(d, want.a, 1e-12 * want.mag, what)
        k = min(want.s ** 2, d.shape[-1])
        rec.check(not d[..., :k].any(), lambda: f"{what()}: nonzero modes below |s|")

    def pure(rec, pairs, what):
        for o, f in pairs:
            rec.check((o.s, o.ell_max) == (f.s, f.L) and same(o.view(np.ndarray), f.a), lambda: f"{what()}: an operand was modified")

    def name(f):
        return f"f(s={f.s},L={f.L},{f.a.shape[:-1]})"

    def unary_all(rec, f, **kw):
        o = real(f, **kw)
        for nm, g in CONJ.items():
            judge(rec, g(o), m_conj(f), lambda: f"{nm} of {name(f)}")
        for nm, g in NEG.items():
            judge(rec, g(o), F(-f.a, f.s, f.L, f.mag), lambda: f"{nm} of {name(f)}")
        for nm, g in POS.items():
            judge(rec, g(o), f, lambda: f"{nm} of {name(f)}")
        if f.s == 0:
            for nm, g in REAL.items():
                judge(rec, g(o), m_real(f), lambda: f"{nm} of {name(f)}")
            for nm, g in IMAG.items():
                judge(rec, g(o), m_imag(f), lambda: f"{nm} of {name(f)}")
        n = o.norm()
        rec.tr()
        rec.close(n, np.sqrt(np.sum(np.abs(f.a) ** 2, axis=-1)), 1e-13 * (1 + f.L) * f.mag, lambda: f"norm of {name(f)}")
        pure(rec, [(o, f)], lambda: f"unary operations on {name(f)}")
        return o

    def run_unary(item, rec):
        s, L = item
        for lead in ((), (2,), (2, 3), (1, 1, 2), (0,)):
            f = fun(s, L, lead)
            unary_all(rec, f)
            # basis functions: one weight at a time
        if L <= 4:
            for k in range(s * s, (L + 1) ** 2):
                for v in (1, 1j, -0.5 + 2j):
                    a = np.zeros((L + 1) ** 2, dtype=complex)
                    a[k] = v
                    unary_all(rec, F(a, s, L))

    def run_truncator(item, rec):
        """unary and scalar operations keep the multiplication_truncator"""
        s, L = item
        f = fun(s, L, (2,))
        for tname, t, LL in (("max", max, L), ("const", lambda t: L + 1, L + 1)):
            o = real(f, multiplication_truncator=t)
            res = {}
            for d in (CONJ, NEG, POS) + ((REAL, IMAG) if s == 0 else ()):
                res.update({k: g(o) for k, g in d.items()})
            for d in (SMUL, SDIV):
                res.update({k: g(o, 2.5) for k, g in d.items()})
            res.update({k: g(o, o) for d in (ADD, SUB) for k, g in d.items()})
            res.update({"+0": o + 0, "0+": 0 + o, "[0]": o[0], "Lz": o.Lz(), "eth": o.eth, "ethbar": o.ethbar, "truncate": o.truncate_ell(max(L - 1, abs(s)))})
            for k, r in res.items():
                rec.st(); rec.tr(); rec.trace()
                p = r * r
                L2 = r.ell_max if tname == "max" else LL
                rec.check(p.ell_max == L2, lambda: f"{k} of Modes with multiplication_truncator {tname}: squared result has ell_max {p.ell_max}, expected {L2}")

    scal = [2, -3, 2.5, 1j, 2 - 1.5j, True, 0, 0.0, -0.25, np.float64(1.5), np.complex128(1 + 2j), np.int64(-2), np.float32(0.5), 1e-300, 1e150, np.array(3.5), np.array(2j)]

    def run_scalars(item, rec):
        s, L = item
        for lead in ((), (2,), (2, 3), (1,), (3, 1), (0,)):
            f = fun(s, L, lead)
            o = real(f)
            cs = list(scal)
            for sh in {lead, lead[-1:], (1,) * len(lead), (1,) + lead[1:], lead[:-1] + (1,), (4,) if lead in ((1,), (3, 1)) else lead} - {()}:
                if len(sh) <= len(lead):
                    cs += [generic_array(sh, .7), generic_real(sh, .9), np.arange(1, 1 + int(np.prod(sh))).reshape(sh)]
                    if all(sh):
                        cs += [np.arange(1, 1 + int(np.prod(sh))).reshape(sh).tolist(), np.asfortranarray(generic_array(sh, .4)), generic_array(sh + (2,), .4)[..., 1]]
            for c in cs:
                for nm, g in SMUL.items():
                    judge(rec, g(o, c), m_scal(f, c), lambda: f"{nm} with {name(f)}, c={c!r}")
                if np.all(np.asarray(c) != 0):
                    for nm, g in SDIV.items():
                        judge(rec, g(o, c), m_scal(f, c, True), lambda: f"{nm} with {name(f)}, c={c!r}")
            zeros = [0, 0.0, 0j, False, np.float64(0), np.array(0)] + ([np.zeros(lead)] if lead else [])
            for z in zeros:
                for nm, g in {"a+0": lambda: o + z, "0+a": lambda: z + o, "np.add": lambda: np.add(o, z), "add": lambda: o.add(z), "a-0": lambda: o - z, "subtract": lambda: o.subtract(z)}.items():
                    judge(rec, g(), f, lambda: f"{nm} of {name(f)} with zero {z!r}")
                judge(rec, z - o, F(-f.a, f.s, f.L), lambda: f"0-a of {name(f)}")
            pure(rec, [(o, f)], lambda: f"scalar operations on {name(f)}")

    def run_pairs(item, rec):
        s1, s2 = item
        for L1 in range(0, 4 if not thorough else 6):
            for L2 in range(0, 4 if not thorough else 6):
                f, g = fun(s1, L1, (), .1), fun(s2, L2, (), 1.1)
                a, b = real(f), real(g)
                for nm, op in MUL.items():
                    judge(rec, op(a, b), m_mul(f, g), lambda: f"{nm} {name(f)}, {name(g)}")
                if s1 == s2:
                    for nm, op in ADD.items():
                        judge(rec, op(a, b), m_add(f, g), lambda: f"{nm} {name(f)}, {name(g)}")
                    for nm, op in SUB.items():
                        judge(rec, op(a, b), m_add(f, g, -1), lambda: f"{nm} {name(f)}, {name(g)}")
                pure(rec, [(a, f), (b, g)], lambda: f"binary operations on {name(f)}, {name(g)}")

    shapes = [((), ()), ((2,), ()), ((), (3,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (4,)), ((3, 2), ()), ((3, 2), (3, 2)), ((2, 1), (2, 3)), ((1, 1), (2, 2)), ((0,), ()), ((5,), (1,)), ((2,), (3, 2)), ((70,), (70,)), ((1, 3, 1), (2, 1, 2))]
    big = [(x, y) for n in (17, 33, 64, 65, 100, 128, 129, 256, 257, 513, 1000, 1024, 1025, 2049, 4097) for x, y in (((n,), (n,)), ((n,), ()), ((), (n,)))]
    big += [((2, 1, 3, 2), (2,)), ((1, 2, 1, 2, 3), (2, 1, 3)), ((3, 17), (3, 17)), ((17, 3), (3,)), ((2, 64), (2, 1)), ((65, 1), (1, 3))]
    shapes += big

    def run_shapes(item, rec):
        k, s1, s2 = item
        l1, l2 = shapes[k]
        for L1, L2 in ((1, 2), (2, 1), (2, 2), (0, 1)) if (l1, l2) not in big else ((2, 1),):
            f, g = fun(s1, L1, l1, .1), fun(s2, L2, l2, 1.1)
            a, b = real(f), real(g)
            for nm, op in MUL.items():
                judge(rec, op(a, b), m_mul(f, g), lambda: f"{nm} {name(f)}, {name(g)}")
            if s1 == s2:
                for nm, op in ADD.items():
                    judge(rec, op(a, b), m_add(f, g), lambda: f"{nm} {name(f)}, {name(g)}")
                for nm, op in SUB.items():
                    judge(rec, op(a, b), m_add(f, g, -1), lambda: f"{nm} {name(f)}, {name(g)}")
            pure(rec, [(a, f), (b, g)], lambda: f"binary operations on {name(f)}, {name(g)}")

    # pointwise: independent of the 3-j model
    pts = [q_ for q_ in rotor_alphabet(0)][:: 3]

    def run_pointwise(item, rec):
        s1, s2, L1, L2 = item
        f, g = fun(s1, L1, (), .1), fun(s2, L2, (), 1.1)
        a, b = real(f), real(g)
        Y = SWSH_all(pts, sorted({s1, s2, -s1, s1 + s2, s1 - s2, 0}), L1 + L2)

        def val(w, s):
            return (Y[s][:, :w.shape[-1]] @ w.astype(CLD)).astype(complex)
        vf, vg = val(f.a, s1), val(g.a, s2)

        def pw(o, s, v, what):
            rec.st(); rec.tr(); rec.trace()
            rec.check(o.s == s, lambda: f"{what}: spin {o.s}")
            rec.close(val(o.view(np.ndarray), s), v, 1e-11 * (1 + L1 + L2) ** 2, lambda: f"values of {what} for {name(f)}, {name(g)}")
        pw(a * b, s1 + s2, vf * vg, "a*b")
        pw(b * a, s1 + s2, vf * vg, "b*a")
        pw(a.conj(), -s1, vf.conj(), "conj(a)")
        pw(a * b.bar, s1 - s2, vf * vg.conj(), "a*conj(b)")
        if s1 == s2:
            pw(a + b, s1, vf + vg, "a+b")
            pw(a - b, s1, vf - vg, "a-b")
        if s1 == 0:
            pw(a.real, 0, vf.real, "a.real")
            pw(a.imag, 0, vf.imag, "a.imag")

    def run_wide(item, rec):
        """large ell_max and spin weights: products by their values at rotors, the rest by weights"""
        s1, s2, L1, L2 = item
        f, g = fun(s1, L1, (), .1), fun(s2, L2, (2,), 1.1)
        a, b = real(f), real(g)
        unary_all(rec, f)
        judge(rec, a * 2j, m_scal(f, 2j), lambda: f"2j*{name(f)}")
        if s1 == s2:
            for d, sign in ((ADD, 1), (SUB, -1)):
                for nm, op in d.items():
                    judge(rec, op(a, b), m_add(f, g, sign), lambda: f"{nm} {name(f)}, {name(g)}")
                    judge(rec, op(b, a), m_add(g, f, sign), lambda: f"{nm} {name(g)}, {name(f)}")
        L = L1 + L2
        wide_pts = [q_ for q_ in rotor_alphabet(0)][:: 4]
        Y = SWSH_all(wide_pts, sorted({s1, s2, s1 + s2}), L)
        val = lambda w, s: (w.astype(CLD) @ Y[s][:, :w.shape[-1]].T).astype(complex)
        vf, vg = val(f.a, s1), val(g.a, s2)
        for nm, op in MUL.items():
            for k, o in ((0, op(a, b)), (1, op(b, a))):
                rec.st(); rec.tr(); rec.trace()
                rec.check((type(o), o.s, o.ell_max, o.shape) == (Modes, s1 + s2, L, (2, (L + 1) ** 2)), lambda: f"{nm} {name(f)}, {name(g)} [{k}]: s={o.s}, ell_max={o.ell_max}, shape {o.shape}")
                d = o.view(np.ndarray)
                rec.check(not d[..., :min(o.s ** 2, d.shape[-1])].any(), lambda: f"{nm} {name(f)}, {name(g)}: nonzero modes below |s|")
                rec.close(val(d, s1 + s2), vf * vg, 1e-12 * (1 + L1) * (1 + L2) * (1 + L), lambda: f"values of {nm} {name(f)}, {name(g)} [{k}]")
        pure(rec, [(a, f), (b, g)], lambda: f"binary operations on {name(f)}, {name(g)}")

    # ------------------------------------------------------------------------------------------------ sequences
    partners = [fun(0, 1, (), 3.1), fun(1, 1, (), 3.3), fun(-1, 1, (), 3.5), fun(-2, 2, (), 3.7), fun(0, 1, (2,), 3.9)]
    LIM = 7

    def moves(f):
        """(name, list of real forms taking (o, partner objects), model result)"""
        out = [("conj", [lambda o, P, g=g: g(o) for g in CONJ.values()], lambda: m_conj(f)),
               ("neg", [lambda o, P, g=g: g(o) for g in NEG.values()], lambda: F(-f.a, f.s, f.L, f.mag)),
               ("*(1-2j)", [lambda o, P, g=g: g(o, 1 - 2j) for g in SMUL.values()], lambda: m_scal(f, 1 - 2j)),
               ("/(0.5j)", [lambda o, P, g=g: g(o, .5j) for g in SDIV.values()], lambda: m_scal(f, .5j, True)),
               ("x+x", [lambda o, P, g=g: g(o, o) for g in ADD.values()], lambda: m_add(f, f)),
               ("x-conj(conj(x))", [lambda o, P, g=g: g(o, o.bar.conjugate()) for g in SUB.values()], lambda: m_add(f, f, -1))]
        if f.a.ndim > 1:
            out.append(("x[0]", [lambda o, P: o[0]], lambda: F(f.a[0], f.s, f.L, f.mag)))
            c = np.array([2., -1j])
            out.append(("x*array", [lambda o, P, g=g: g(o, c) for g in SMUL.values()], lambda: m_scal(f, c)))
        if f.L > abs(f.s):
            out.append(("truncate", [lambda o, P: o.truncate_ell(f.L - 1)], lambda: F(f.a[..., :f.L ** 2], f.s, f.L - 1, f.mag)))
        if f.s == 0:
            out.append(("real", [lambda o, P, g=g: g(o) for g in REAL.values()], lambda: m_real(f)))
            out.append(("imag", [lambda o, P, g=g: g(o) for g in IMAG.values()], lambda: m_imag(f)))
        if 2 * f.L <= LIM:
            out.append(("x*x", [lambda o, P, g=g: g(o, o) for g in MUL.values()], lambda: m_mul(f, f)))
            out.append(("x*conj(x)", [lambda o, P, g=g: g(o, o.bar) for g in MUL.values()], lambda: m_mul(f, m_conj(f))))
        for i, p in enumerate(partners):
            if p.L + f.L <= LIM:
                out.append((f"x*p{i}", [lambda o, P, g=g, i=i: g(o, P[i]) for g in MUL.values()], lambda p=p: m_mul(f, p)))
                out.append((f"p{i}*x", [lambda o, P, g=g, i=i: g(P[i], o) for g in MUL.values()], lambda p=p: m_mul(p, f)))
            if p.s == f.s:
                out.append((f"x+p{i}", [lambda o, P, g=g, i=i: g(o, P[i]) for g in ADD.values()], lambda p=p: m_add(f, p)))
                out.append((f"p{i}-x", [lambda o, P, g=g, i=i: g(P[i], o) for g in SUB.values()], lambda p=p: m_add(p, f, -1)))
                out.append((f"x-p{i}", [lambda o, P, g=g, i=i: g(o, P[i]) for g in SUB.values()], lambda p=p: m_add(f, p, -1)))
        return out

    starts = [fun(0, 1, (), 5.1), fun(1, 2, (), 5.2), fun(-2, 2, (), 5.3), fun(0, 2, (2,), 5.4), fun(-1, 1, (2,), 5.5), fun(2, 1, (), 5.6)]
    depth = 3

    def run_seq(item, rec):
        si, i0 = item
        f0 = starts[si]
        P = [real(p) for p in partners]
        count = [0]

        def go(o, f, word, ops):
            before = o.view(np.ndarray).copy()
            for nm, forms, model in ops:
                count[0] += 1
                g = forms[count[0] % len(forms)]
                r = g(o, P)
                want = model()
                w2 = word + (nm,)
                judge(rec, r, want, lambda: f"{name(f0)} then {w2}")
                if len(w2) < depth:
                    go(r, want, w2, moves(want))
            rec.check(same(o.view(np.ndarray), before) and o.s == f.s and o.ell_max == f.L, lambda: f"{name(f0)} {word}: operand changed")
        first = moves(f0)[i0]
        o0 = real(f0)
        go(o0, f0, (), [first])
        pure(rec, [(o0, f0)] + list(zip(P, partners)), lambda: f"sequences from {name(f0)}")

    def warm():
        dims = sorted({(len(a), len(b)) for a, b in shapes + [((2,), ()), ((), (2,)), ((2,), (2,))]})

        def one(d):
            f, g = fun(0, 1, (1,) * d[0]), fun(0, 1, (1,) * d[1])
            real(f) * real(g)
        pmap(one, dims)
        for d in dims:
            one(d)

    wide = [[0, 0, 33, 33], [-2, -2, 40, 24], [1, -2, 33, 16], [0, 2, 17, 32], [-9, 8, 20, 20], [12, 12, 16, 14], [-5, 7, 8, 33], [20, -20, 24, 22], [3, 3, 2, 40], [-1, -1, 12, 12],
            [7, -4, 9, 10], [-6, -6, 11, 7], [4, 9, 10, 15], [0, -8, 8, 9]]
    if thorough:
        wide += [[a, b, x, y] for a in (-17, -2, 0, 5) for b in (-5, 0, 2, 17) for x, y in ((32, 32), (45, 20), (18, 50))]
    sp = range(-3, 4)
    top = 8 if not thorough else 16
    return [
        Family("wide", wide, run_wide, note="ell_max up to 40, spins up to 20"),
        Family("shapes", [[k, a, b] for k in range(len(shapes)) for a, b in ((0, 0), (1, 1), (-2, 1), (1, -1))], run_shapes, warm, note="pairs of leading shapes, also large ones and up to 5 dimensions"),
        Family("unary_sizes", [[list(l), s] for l in [(n,) for n in SIZES] + DEEP for s in (-1, 0)], lambda item, rec: unary_all(rec, fun(item[1], 2, tuple(item[0]))), note="leading dimensions next to powers of two and round numbers, up to 5 dimensions"),
        Family("unary", [[s, L] for s in range(-6, 7) for L in list(range(top + 1)) + [20, 33]] + [[s, L] for s in (-32, -17, -9, 9, 17, 32) for L in (9, 17, 32, 40)], run_unary, note="spins -6..6 (and to 32), ell_max to 8 and 20, 32, 33, 40; basis functions to ell_max 4"),
        Family("truncator", [[s, L] for s in (-2, 0, 1) for L in (2, 3)], run_truncator, note="multiplication_truncator kept"),
        Family("scalars", [[s, L] for s in (-2, 0, 1, 3) for L in (0, 2, 3)], run_scalars, note="scalar and array operands of every kind"),
        Family("pairs", [[a, b] for a in sp for b in sp], run_pairs, note="spins -3..3 x all ell_max to 3 (5)"),
        Family("pointwise", [[a, b, l1, l2] for a in sp for b in sp for l1, l2 in ((3, 3), (5, 2), (1, 4))], run_pointwise, note="values at rotors"),
        Family("sequences", [[i, k] for i, f in enumerate(starts) for k in range(len(moves(f)))], run_seq, note="all sequences of length <= 3"),
    ]
