"""C10: consistency of the metadata of Modes and Grid objects under construction, derivation and modification."""
import copy
import pickle
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["slicing of the last axis (last two for Grid) other than by truncate_ell is outside the domain",
               "the constructor may share memory with its input (documented: a view)"]
LEADS = [(), (3,), (2, 3), (1,), (2, 1, 2), (0,), (2, 0)]


def families(tier):
    S = sf()
    Modes, Grid = S.Modes, S.Grid
    thorough = tier != "quick"

    def look(rec, o, want, s, L, msg):
        """every public observation of a Modes object"""
        rec.check(type(o) is Modes, lambda: f"{msg()}: type {type(o).__name__}")
        rec.check((o.s, o.spin_weight, o.ell_min, o.ell_max, o.n_modes) == (s, s, 0, L, (L + 1) ** 2),
                  lambda: f"{msg()}: s={o.s}, spin_weight={o.spin_weight}, ell range {o.ell_min}..{o.ell_max}, n_modes {o.n_modes}; expected s={s}, 0..{L}")
        rec.check(o.dtype == complex, lambda: f"{msg()}: dtype {o.dtype}")
        d = o.ndarray
        rec.check(type(d) is np.ndarray, lambda: f"{msg()}: .ndarray is {type(d)}")
        rec.check(d.shape == want.shape and np.array_equal(d, want), lambda: f"{msg()}: weights differ from the expected ones: shape {d.shape} vs {want.shape}; {d.ravel()[:9]} vs {want.ravel()[:9]}")

    def store(data, s, lmin):
        d = np.concatenate([np.zeros(data.shape[:-1] + (lmin ** 2,), dtype=complex), data], axis=-1)
        d[..., :min(s * s, d.shape[-1])] = 0
        return d

    def run_ctor(item, rec):
        lmin, L = item
        n = (L + 1) ** 2 - lmin ** 2
        for s in range(-5, 6) if L < 9 else (-L, -9, -2, 0, 3, 17):
            for lead in LEADS if L < 9 else [(), (2, 3), (130,)]:
                src = generic_array(lead + (n,), .1 * s + L)
                want = store(src, s, lmin)
                forms = {
                    "kw": lambda a: Modes(a, spin_weight=s, ell_min=lmin, ell_max=L),
                    "kw, ell_max deduced": lambda a: Modes(a, spin_weight=s, ell_min=lmin),
                    "three positional": lambda a: Modes(a, s, lmin, L),
                    "positional spin": lambda a: Modes(a, s, ell_min=lmin),
                    "positional spin, ell_max": lambda a: Modes(a, s, ell_max=L, ell_min=lmin),
                    "numpy ints": lambda a: Modes(a, np.int64(s), np.int64(lmin), np.int64(L)),
                    "with truncator": lambda a: Modes(a, s, lmin, L, multiplication_truncator=max),
                    "positional overrides keyword": lambda a: Modes(a, s, lmin, L, spin_weight=s + 1),
                }
                if lmin == 0:
                    forms["spin only"] = lambda a: Modes(a, s)
                    forms["kw spin only"] = lambda a: Modes(a, spin_weight=s)
                    forms["ell_min, ell_max"] = lambda a: Modes(a, spin_weight=s, ell_max=L)
                for name, f in forms.items():
                    inputs = [("C", src.copy())]
                    if name == "kw":
                        big = np.full(lead + (2 * n,), 7 + 7j)
                        big[..., ::2] = src
                        inputs += [("strided", big[..., ::2]), ("F", np.asfortranarray(src)), ("float pairs", src.copy().view(float))]
                        if all(lead):
                            inputs += [("list", src.tolist())]
                        if lmin > 0:
                            ro = src.copy()
                            ro.flags.writeable = False
                            inputs += [("read-only", ro)]
                    for lk, a in inputs:
                        keep = np.array(a, copy=True)
                        o = f(a)
                        rec.st(); rec.tr(); rec.trace()
                        look(rec, o, want, s, L, lambda: f"Modes({lk} array {np.shape(a)}, s={s}, ell {lmin}..{L}; {name})")
                        if lmin > 0:
                            rec.check(np.array_equal(np.array(a), keep), lambda: f"Modes(..., ell_min={lmin}) modified its input")
                # from another Modes object: metadata are inherited, keywords override
                m = Modes(src.copy(), s, lmin, L)
                keep = m.ndarray.copy()
                look(rec, Modes(m), want, s, L, lambda: f"Modes(Modes s={s} L={L})")
                look(rec, Modes(m.copy(), spin_weight=s - 1), store(keep, s - 1, 0), s - 1, L, lambda: f"Modes(Modes, spin_weight={s - 1})")
                look(rec, m, keep, s, L, lambda: "source of Modes(Modes)")
                rec.tr(2)
                # index
                if lead == ():
                    for l in range(-1, L + 3):
                        for mm in range(-abs(l) - 2, abs(l) + 3):
                            ok = abs(s) <= l <= L and abs(mm) <= l
                            rec.tr()
                            if ok:
                                i = m.index(l, mm)
                                rec.check(i == l * l + l + mm, lambda: f"Modes(s={s}, L={L}).index({l},{mm}) = {i}")
                            else:
                                rec.raises(ValueError, lambda: m.index(l, mm), f"Modes(s={s}, L={L}).index({l},{mm})")

    def run_bad(item, rec):
        """every size that does not fit is refused"""
        s, lmin = item
        for lead in ((), (3,)):
            for n in range(0, 60):
                a = generic_array(lead + (n,), .2)
                fits = [L for L in range(lmin, 9) if (L + 1) ** 2 - lmin ** 2 == n]
                rec.st(); rec.trace()
                for L in range(lmin, 8):
                    rec.tr(2)
                    if L in fits:
                        rec.check(Modes(a.copy(), s, lmin, L).ell_max == L, f"Modes(size {n}, {lmin}..{L})")
                    else:
                        rec.raises(ValueError, lambda: Modes(a.copy(), s, lmin, L), f"Modes(array of {n} weights, s={s}, ell_min={lmin}, ell_max={L})")
                        rec.raises(ValueError, lambda: Modes(a.copy(), spin_weight=s, ell_min=lmin, ell_max=L), f"Modes(array of {n} weights, ell_min={lmin}, ell_max={L}) by keyword")
                if n and not fits:
                    rec.tr()
                    rec.raises(ValueError, lambda: Modes(a.copy(), spin_weight=s, ell_min=lmin), f"Modes(array of {n} weights, ell_min={lmin})")
        a = generic((lmin + 1) ** 2 - lmin ** 2, .1)
        for bad, f in {"no spin weight": lambda: Modes(a.copy(), ell_min=lmin, ell_max=lmin),
                       "spin_weight None": lambda: Modes(a.copy(), spin_weight=None, ell_min=lmin, ell_max=lmin),
                       "two positional": lambda: Modes(a.copy(), s, lmin),
                       "four positional": lambda: Modes(a.copy(), s, lmin, lmin, 1)}.items():
            rec.tr()
            rec.raises(ValueError, f, f"Modes with {bad}")

    # ------------------------------------------------------------------------------------- sequences: Modes
    class Rec:
        """model of an object: plain array (aliasing as in numpy), spin, ell_max, truncator asks for max"""
        def __init__(self, a, s, L, t):
            self.a, self.s, self.L, self.t = a, s, L, t

        def like(self, a, **k):
            return Rec(a, k.get("s", self.s), k.get("L", self.L), self.t)

    # name -> (real, model); return (None, None) when the operation only modifies
    def conj_model(r):
        r.a[...] = ref_conjugate(r.a, r.L, r.s)
        r.s = -r.s

    def ip(f, g):
        def real(o):
            f(o)
            return None

        def model(r):
            g(r)
            return None
        return real, model

    def imul(o):
        o *= 2j
        return o

    def imul_model(r):
        r.a *= 2j

    def write(o):
        if type(o) is not Modes or o.ell_max >= abs(o.s):           # there is no valid weight otherwise
            o[..., -1] = 5 - 3j

    def write_model(r):
        if r.L is None or r.L >= abs(r.s):
            r.a[..., -1] = 5 - 3j

    def iadd(o):
        o += o.copy()
        return o

    def iadd_model(r):
        r.a *= 2

    def reshape_lead(a):
        return a.reshape((1,) + a.shape)

    OPS = {
        "copy()": (lambda o: o.copy(), lambda r: r.like(r.a.copy())),
        "copy.copy": (copy.copy, lambda r: r.like(r.a.copy())),
        "deepcopy": (copy.deepcopy, lambda r: r.like(r.a.copy())),
        "pickle2": (lambda o: pickle.loads(pickle.dumps(o, 2)), lambda r: r.like(r.a.copy())),
        "pickle5": (lambda o: pickle.loads(pickle.dumps(o, 5)), lambda r: r.like(r.a.copy())),
        "[...]": (lambda o: o[...], lambda r: r.like(r.a[...])),
        "view": (lambda o: o.view(), lambda r: r.like(r.a.view())),
        "slice": (lambda o: o[:1] if o.ndim > 1 else o[:], lambda r: r.like(r.a[:1] if r.a.ndim > 1 else r.a[:])),
        "[-1]": (lambda o: o[-1] if o.ndim > 1 else o[:], lambda r: r.like(r.a[-1] if r.a.ndim > 1 else r.a[:])),
        "newaxis": (lambda o: o[np.newaxis], lambda r: r.like(r.a[np.newaxis])),
        "fancy": (lambda o: o[[-1, 0, 0]] if o.ndim > 1 else o.copy(), lambda r: r.like(r.a[[-1, 0, 0]] if r.a.ndim > 1 else r.a.copy())),
        "truncate": (lambda o: o.truncate_ell(max(abs(o.s), o.ell_max - 1)),
                     lambda r: r if max(abs(r.s), r.L - 1) >= r.L else r.like(r.a[..., :(max(abs(r.s), r.L - 1) + 1) ** 2], L=max(abs(r.s), r.L - 1))),
        "zeros_like": (np.zeros_like, lambda r: r.like(np.zeros_like(r.a))),
        "conjugate(inplace)": ip(lambda o: o.conjugate(inplace=True), conj_model),
        "conj": (lambda o: o.conj(), lambda r: r.like(ref_conjugate(r.a, r.L, r.s), s=-r.s)),
        "Modes(o)": (lambda o: Modes(o), lambda r: r.like(r.a.view())),
        "*= 2j": ip(imul, imul_model),
        "+= copy": ip(iadd, iadd_model),
        "write": ip(write, write_model),
    }
    NAMES = list(OPS)

    def run_seq(item, rec):
        s, L, lead, trunc, first = item
        depth = 3
        lead = tuple(lead)
        src = ref_zero_low(generic_array(lead + ((L + 1) ** 2,), .3 + s), s)

        def build(word):
            kw = dict(multiplication_truncator=max) if trunc else {}
            real = [Modes(src.copy(), s, **kw)]
            model = [Rec(src.copy(), s, L, trunc)]
            for (op, tgt) in word:
                fr, fm = OPS[op]
                r = fr(real[tgt])
                rec.tr()
                q = fm(model[tgt])
                if q is not None:
                    real.append(r)
                    model.append(q)
            return real, model

        def compare(word, real, model):
            for i, (o, r) in enumerate(zip(real, model)):
                look(rec, o, r.a, r.s, r.L, lambda: f"object {i} after Modes(s={s}, L={L}, {lead}) then {word}")

        def rec_explore(word, npool):
            real, model = build(word)
            rec.st(); rec.trace()
            compare(word, real, model)
            if len(word) == depth:
                if trunc:
                    o, r = real[-1], model[-1]
                    p = o * o
                    rec.tr()
                    rec.check((p.s, p.ell_max) == (2 * r.s, r.L), lambda: f"after {word}: object lost its multiplication_truncator (product has ell_max {p.ell_max})")
                return
            for op in NAMES:
                for tgt in range(len(real)):
                    if len(word) >= 2 and tgt not in (0, len(real) - 1):
                        continue
                    rec_explore(word + ((op, tgt),), None)
        rec_explore(((first, 0),), None)

    # ------------------------------------------------------------------------------------- sequences: Grid
    def lookg(rec, o, want, s, msg):
        rec.check(type(o) is Grid, lambda: f"{msg()}: type {type(o).__name__}")
        rec.check((o.s, o.spin_weight, o.n_theta, o.n_phi) == (s, s) + want.shape[-2:], lambda: f"{msg()}: s={o.s}, n_theta, n_phi = {o.n_theta, o.n_phi}; expected s={s}, {want.shape[-2:]}")
        d = o.ndarray
        rec.check(type(d) is np.ndarray and d.dtype == want.dtype and d.shape == want.shape and np.array_equal(d, want), lambda: f"{msg()}: values differ from the expected ones ({d.dtype}, {d.shape} vs {want.dtype}, {want.shape})")

    GOPS = {k: OPS[k] for k in ("copy()", "copy.copy", "deepcopy", "pickle2", "pickle5", "[...]", "view", "newaxis", "zeros_like", "*= 2j")}

    def gconj_model(r):
        r.a[...] = np.conjugate(r.a)
        r.s = -r.s
    GOPS.update({
        "slice": (lambda o: o[:1] if o.ndim > 2 else o[:], lambda r: r.like(r.a[:1] if r.a.ndim > 2 else r.a[:])),
        "[-1]": (lambda o: o[-1] if o.ndim > 2 else o[:], lambda r: r.like(r.a[-1] if r.a.ndim > 2 else r.a[:])),
        "conjugate(inplace)": ip(lambda o: o.conjugate(inplace=True), gconj_model),
        "conj": (lambda o: o.conj(), lambda r: r.like(np.conjugate(r.a), s=-r.s)),
        "Grid(o)": (lambda o: Grid(o), lambda r: r.like(r.a.view())),
        "+= copy": ip(iadd, iadd_model),
        "write": ip(write, write_model)})
    GNAMES = list(GOPS)

    def run_gseq(item, rec):
        s, nt, nph, lead, first = item
        src = generic_array(tuple(lead) + (nt, nph), .3 + s)

        def go(word):
            real, model = [Grid(src.copy(), spin_weight=s)], [Rec(src.copy(), s, None, False)]
            for (op, tgt) in word:
                fr, fm = GOPS[op]
                r = fr(real[tgt])
                q = fm(model[tgt])
                rec.tr()
                if q is not None:
                    real.append(r)
                    model.append(q)
            rec.st(); rec.trace()
            for i, (o, r) in enumerate(zip(real, model)):
                lookg(rec, o, r.a, r.s, lambda: f"object {i} after Grid(s={s}, {lead}+({nt},{nph})) then {word}")
            if len(word) < 3:
                for op in GNAMES:
                    for tgt in range(len(real)):
                        if len(word) < 2 or tgt in (0, len(real) - 1):
                            go(word + ((op, tgt),))
        go(((first, 0),))

    def run_gctor(item, rec):
        s = item
        for nt in range(1, 10):
            for nph in range(1, 10):
                ok = min(nt, nph) >= 2 * abs(s) + 1
                for lead in ((), (2,), (3, 1), (0,)):
                    for dt in (complex, float):
                        a = generic_array(lead + (nt, nph), .2)
                        a = a if dt is complex else a.real.copy()
                        rec.st(); rec.trace()
                        for nm, f in {"positional": lambda a: Grid(a, s), "keyword": lambda a: Grid(a, spin_weight=s), "numpy int": lambda a: Grid(a, np.int64(s)), "both": lambda a: Grid(a, s, spin_weight=0)}.items():
                            rec.tr()
                            if ok:
                                lookg(rec, f(a.copy()), a, s, lambda: f"Grid({lead}+({nt},{nph}), s={s}, {nm})")
                            else:
                                rec.raises(ValueError, lambda: f(a.copy()), f"Grid of {nt} x {nph} points, s={s}")
                        if ok:
                            g = Grid(a.copy(), s)
                            lookg(rec, Grid(g), a, s, lambda: "Grid(Grid)")
                            lookg(rec, Grid(a.tolist(), s) if a.size else g, a, s, lambda: "Grid(list)")
                            lookg(rec, Grid(np.asfortranarray(a), s), a, s, lambda: "Grid(F-ordered)")
        a = generic_array((2 * abs(s) + 1,) * 2)
        for bad, f in {"no spin": lambda: Grid(a), "two positional": lambda: Grid(a, s, 1), "None": lambda: Grid(a, spin_weight=None), "1-d": lambda: Grid(a[0], s), "0-d": lambda: Grid(a[0, 0], s)}.items():
            rec.tr()
            rec.raises(ValueError, f, f"Grid: {bad}")

    top = 6 if not thorough else 9
    starts = [(-2, 3, (), False), (-2, 3, (2,), False), (0, 2, (2, 3), False), (1, 1, (2,), False), (3, 3, (), False), (1, 2, (2,), True), (0, 1, (2,), False), (-1, 0, (2,), False)]
    if not thorough:
        starts = starts[:6]
    gstarts = [(-2, 5, 6, (2,)), (1, 4, 3, ()), (0, 2, 2, (2, 1)), (-1, 3, 3, (3,))]
    return [
        Family("ctor", [[a, b] for b in (40, 33, 17) for a in (0, 3, b)] + [[a, b] for b in range(top + 1) for a in range(b + 1)], run_ctor, note="all (ell_min, ell_max) x spins -5..5 x shapes x argument forms; ell_max 17, 33, 40 with spins to the limit"),
        Family("bad_sizes", [[s, a] for s in (-2, 0, 3) for a in range(6)], run_bad, note="all sizes 0..59 x all ell ranges"),
        Family("grid_ctor", list(range(-4, 5)), run_gctor, note="all grid sizes to 9x9"),
        Family("sequences", [[s, L, list(ld), t, op] for (s, L, ld, t) in starts for op in NAMES], run_seq, note=f"all sequences of length <= 3 over {len(NAMES)} operations and the objects derived so far"),
        Family("grid_sequences", [[s, a, b, list(ld), op] for (s, a, b, ld) in gstarts for op in GNAMES], run_gseq, note=f"all sequences of length <= 3 over {len(GNAMES)} operations"),
    ]
