"""C13: in-place and out= forms against the ordinary operations, all aliasing patterns."""
import operator
import numpy as np
from .core import Family, pmap
from .common import *

ASSUMPTIONS = ["the ordinary operation on independent copies is the reference (C11, C16 decide its value)"]
first = lambda t: t[0]


def families(tier):
    S = sf()
    Modes, Grid = S.Modes, S.Grid
    thorough = tier != "quick"

    def meta(o):
        return (type(o).__name__, getattr(o, "s", None), o.ell_max if isinstance(o, Modes) else None)

    def M(s, L, lead=(), seed=.2, **kw):
        return Modes(ref_zero_low(generic_array(lead + ((L + 1) ** 2,), seed + .3 * s), s), spin_weight=s, **kw)

    def G(s, n=(5, 6), lead=(), seed=.2, real=False):
        a = generic_array(lead + n, seed + .3 * s)
        return Grid(a.real.copy() if real else a, spin_weight=s)

    # cases: name -> (ufunc, [operand factories])
    def mcases(lead):
        c = {}
        for s, L in [(s, L) for s in (-2, 0, 1) for L in (2, 3)] + ([(0, 33), (-9, 17), (1, 32), (14, 40)] if lead in ((), (3,)) else []):
            a = lambda s=s, L=L: M(s, L, lead)
            b = lambda s=s, L=L: M(s, L, lead, 1.3)
            b0 = lambda s=s, L=L: M(s, L - 1, (), 1.3)
            n = f"s={s},L={L}"
            c[f"neg {n}"] = (np.negative, [a])
            c[f"pos {n}"] = (np.positive, [a])
            c[f"conj {n}"] = (np.conjugate, [a])
            c[f"add {n}"] = (np.add, [a, b])
            c[f"sub {n}"] = (np.subtract, [a, b])
            c[f"add smaller {n}"] = (np.add, [a, b0])
            c[f"sub smaller {n}"] = (np.subtract, [a, b0])
            c[f"radd smaller {n}"] = (np.add, [b0, a])
            c[f"rsub smaller {n}"] = (np.subtract, [b0, a])
            c[f"add 0 {n}"] = (np.add, [a, lambda: 0])
            c[f"0 add {n}"] = (np.add, [lambda: 0, a])
            c[f"sub 0 {n}"] = (np.subtract, [a, lambda: 0.0])
            c[f"0 sub {n}"] = (np.subtract, [lambda: 0, a])
            c[f"mul c {n}"] = (np.multiply, [a, lambda: 2 - 1j])
            c[f"c mul {n}"] = (np.multiply, [lambda: 2.5, a])
            c[f"div c {n}"] = (np.divide, [a, lambda: .5j])
            if L <= 3:
                c[f"mul trunc {n}"] = (np.multiply, [lambda s=s, L=L: M(s, L, lead, .2, multiplication_truncator=first), lambda s=s, L=L: M(1 - s, L, lead, 1.3, multiplication_truncator=first)])
            c[f"mul L=0 {n}"] = (np.multiply, [a, lambda: M(0, 0, (), 1.3)])
            c[f"L=0 mul {n}"] = (np.multiply, [lambda: M(0, 0, (), 1.3), a])
            if lead:
                arr = lambda: generic_array(lead, .8)
                c[f"mul arr {n}"] = (np.multiply, [a, arr])
                c[f"arr mul {n}"] = (np.multiply, [arr, a])
                c[f"div arr {n}"] = (np.divide, [a, arr])
        return c

    def gcases(lead):
        c = {}
        for s in (-1, 0, 1, 2):
            a = lambda s=s: G(s, lead=lead)
            b = lambda s=s: G(s, lead=lead, seed=1.3)
            b1 = lambda s=s: G(0 if s == 2 else 1, lead=lead, seed=1.3)
            n = f"s={s}"
            for nm in ("negative", "positive", "conjugate", "absolute", "reciprocal") + (("square",) if s < 2 else ()) + (("sqrt",) if s % 2 == 0 else ()):
                c[f"{nm} {n}"] = (getattr(np, nm), [a])
            c[f"add {n}"] = (np.add, [a, b])
            c[f"sub {n}"] = (np.subtract, [a, b])
            c[f"mul {n}"] = (np.multiply, [a, b1])
            c[f"div {n}"] = (np.divide, [a, b])
            c[f"add 0 {n}"] = (np.add, [a, lambda: 0])
            c[f"0 sub {n}"] = (np.subtract, [lambda: 0, a])
            c[f"mul c {n}"] = (np.multiply, [a, lambda: 2 - 1j])
            c[f"c mul {n}"] = (np.multiply, [lambda: 2 - 1j, a])
            c[f"div c {n}"] = (np.divide, [a, lambda: 2j])
            c[f"c div {n}"] = (np.divide, [lambda: 2j, a])
            for e in (-1, 0, 1, 2, 3):
                if 2 * abs(e * s) + 1 <= 5:
                    c[f"power {e} {n}"] = (np.power, [a, lambda e=e: e])
            if s == 0:
                c["add 3"] = (np.add, [a, lambda: 3 + 1j])
                c["3 sub"] = (np.subtract, [lambda: 3, a])
            if lead:
                arr = lambda: generic_array(lead, .8)
                c[f"mul arr {n}"] = (np.multiply, [a, arr])
                c[f"arr mul {n}"] = (np.multiply, [arr, a])
                c[f"div arr {n}"] = (np.divide, [a, arr])
                c[f"arr div {n}"] = (np.divide, [arr, a])
        return c

    LEADS = [(), (3,), (2, 3), (1,)]
    CASES = {}
    for ld in LEADS:
        for k, v in mcases(ld).items():
            CASES[f"Modes{ld} {k}"] = v
        for k, v in gcases(ld).items():
            CASES[f"Grid{ld} {k}"] = v

    def fresh_out(kind, want, cls):
        """output objects of the right shape with wrong content and metadata"""
        sh = want.shape
        junk = np.full(sh, 7 - 7j)
        if kind == "ndarray":
            return junk
        if kind == "F ndarray":
            return np.asfortranarray(junk)
        if kind == "strided ndarray":
            return np.full(sh[:-1] + (2 * sh[-1],), 7 - 7j)[..., ::2]
        if kind == "view of object":
            base = np.full((2,) + sh, 7 - 7j)
            return base[1]
        wrong = 1 if want.s == 0 else 0
        if cls is Modes:
            o = Modes(junk.copy(), spin_weight=wrong)
        else:
            o = Grid(junk.copy(), spin_weight=wrong)
        if kind == "object, strided":
            o2 = np.full((2,) + sh, 7 - 7j)
            return type(o)(o2, spin_weight=wrong)[1]
        return o

    def judge(rec, r, out, want, what):
        rec.check(type(r) is type(want), lambda: f"{what}: returned {type(r).__name__}")
        rec.check(meta(r) == meta(want), lambda: f"{what}: returned object has {meta(r)}, the ordinary result {meta(want)}")
        rec.check(np.shares_memory(r, out) or want.size == 0, lambda: f"{what}: the returned object does not refer to the output")
        tol = 1e-13 * (1 + float(np.max(np.abs(want.view(np.ndarray)), initial=0)))
        rec.close(out.view(np.ndarray), want.view(np.ndarray), tol, lambda: f"{what}: target")
        rec.close(r.view(np.ndarray), want.view(np.ndarray), tol, lambda: f"{what}: returned object")
        if isinstance(out, (Modes, Grid)):
            rec.check(meta(out) == meta(want), lambda: f"{what}: target reports {meta(out)}, the ordinary result has {meta(want)}")

    def snap(x):
        return (x.tobytes(), x.shape, meta(x)) if isinstance(x, np.ndarray) else x

    def run_case(item, rec):
        uf, fs = CASES[item]
        args = [f() for f in fs]
        keep = [snap(a) for a in args]
        want = uf(*args)
        cls = type(want)
        rec.tr()
        for k, a in zip(keep, args):
            rec.check(snap(a) == k, f"{item}: ordinary operation changed an operand")
        other = uf(*args)
        other.conjugate(inplace=True)
        rec.tr(2)
        for k, a in zip(keep, args):
            rec.check(snap(a) == k, f"{item}: conjugating the result of the ordinary operation in place changed an operand")

        def go(kind, prepare):
            for form in ("out=o", "out=(o,)", "positional"):
                a, o = prepare()
                if o is None:
                    return
                before = [snap(x) for x in a]
                if form == "out=o":
                    r = uf(*a, out=o)
                elif form == "out=(o,)":
                    r = uf(*a, out=(o,))
                else:
                    r = uf(*a, o)
                rec.st(); rec.tr(); rec.trace()
                what = f"{item}: {uf.__name__} with {form}, o = {kind}"
                judge(rec, r, o, want, what)
                for x, b in zip(a, before):
                    if x is not o and isinstance(x, np.ndarray) and not np.shares_memory(x, o):
                        rec.check(snap(x) == b, lambda: f"{what}: an operand was changed")
                    elif not isinstance(x, np.ndarray):
                        continue
                # the target is an object of its own: changing its spin weight afterwards changes no operand, and vice versa
                if isinstance(o, (Modes, Grid)):
                    apart = [x for x in a if isinstance(x, np.ndarray) and not np.shares_memory(x, o)]
                    before = [snap(x) for x in apart]
                    s0 = o.s
                    o.conjugate(inplace=True)
                    rec.tr()
                    rec.check(o.s == -s0, lambda: f"{what}: target conjugated in place afterwards reports s={o.s}, not {-s0}")
                    for x, b in zip(apart, before):
                        rec.check(snap(x) == b, lambda: f"{what}: conjugating the target in place afterwards changed an operand to {meta(x)}")
                    before = snap(o)
                    for x in apart:
                        if isinstance(x, (Modes, Grid)) and x.flags.writeable:
                            x.conjugate(inplace=True)
                            rec.check(snap(o) == before, lambda: f"{what}: conjugating an operand in place afterwards changed the target to {meta(o)}")
        for kind in ("ndarray", "F ndarray", "strided ndarray", "view of object", "object", "object, strided"):
            go(kind, lambda: ([f() for f in fs], fresh_out(kind, want, cls)))

        def fits(x):
            return isinstance(x, cls) and x.shape == want.shape and x.dtype == complex

        for j in range(len(fs)):
            def alias():
                a = [f() for f in fs]
                return (a, a[j]) if fits(a[j]) else (None, None)
            go(f"operand {j + 1}", alias)

            def alias_view():
                a = [f() for f in fs]
                return (a, a[j][...]) if fits(a[j]) else (None, None)
            go(f"view of operand {j + 1}", alias_view)

            def alias_plain():
                a = [f() for f in fs]
                return (a, a[j].view(np.ndarray)) if fits(a[j]) else (None, None)
            go(f"plain view of operand {j + 1}", alias_plain)

            def overlap():
                """operand and output overlap, shifted by one along the first axis"""
                a = [f() for f in fs]
                x = a[j]
                if not fits(x) or x.ndim < (3 if cls is Grid else 2):
                    return None, None
                base = np.full((x.shape[0] + 1,) + x.shape[1:], 3 + 0j)
                base[1:] = x.view(np.ndarray)
                kw = dict(spin_weight=x.s)
                a[j] = cls(base[1:], **kw) if cls is Grid or "trunc" not in item else Modes(base[1:], multiplication_truncator=first, **kw)
                return a, cls(base[:-1], spin_weight=0)
            if cls is Grid or "trunc" not in item:
                go(f"overlapping operand {j + 1}", overlap)

            def reverse():
                a = [f() for f in fs]
                x = a[j]
                if not fits(x) or x.ndim < (3 if cls is Grid else 2):
                    return None, None
                return a, x[::-1]
            go(f"reversed view of operand {j + 1}", reverse)

        # in-place operators
        IP = {np.add: operator.iadd, np.subtract: operator.isub, np.multiply: operator.imul, np.divide: operator.itruediv, np.power: operator.ipow}
        if uf in IP:
            a = [f() for f in fs]
            if fits(a[0]):
                t = a[0]
                b = snap(a[1])
                r = IP[uf](t, a[1])
                rec.st(); rec.tr(); rec.trace()
                judge(rec, r, t, want, f"{item}: in-place operator")
                rec.check(snap(a[1]) == b, f"{item}: in-place operator changed its right operand")
                if uf is np.power:
                    pass
            # a op= a
            a = [f() for f in fs]
            if fits(a[0]) and len(a) == 2 and isinstance(a[1], cls) and a[1].shape == a[0].shape:
                try:
                    w2 = uf(a[0].copy(), a[0].copy())
                except (ValueError, TypeError):
                    w2 = None
                if w2 is not None and w2.shape == a[0].shape:
                    t = a[0]
                    r = IP[uf](t, t)
                    rec.st(); rec.tr(); rec.trace()
                    judge(rec, r, t, w2, f"{item}: in-place operator with itself")
                    t = fs[0]()
                    r = uf(t, t, out=t)
                    rec.tr()
                    judge(rec, r, t, w2, f"{item}: ufunc(a, a, out=a)")
        if uf is np.conjugate:
            t = fs[0]()
            r = t.conjugate(inplace=True)
            rec.st(); rec.tr(); rec.trace()
            judge(rec, r, t, want, f"{item}: conjugate(inplace=True)")
            t = fs[0]()
            r = t.conj(True)
            judge(rec, r, t, want, f"{item}: conj(True)")
            v = t.conjugate(inplace=False)
            rec.check(not np.shares_memory(v, t), f"{item}: conjugate(inplace=False) shares memory")
            # through a view: the data of the owner change with it
            t = fs[0]()
            v = t[...]
            r = v.conjugate(inplace=True)
            rec.tr(4)
            judge(rec, r, v, want, f"{item}: conjugate(inplace=True) of a view")
            rec.close(t.view(np.ndarray), want.view(np.ndarray), 1e-14 * 10, f"{item}: owner of a view conjugated in place")
            if cls is Modes and t.shape and fs[0]().s == 0:
                for nm in ("_real_func", "_imag_func"):
                    if hasattr(Modes, nm):
                        t = fs[0]()
                        w = t.real if nm == "_real_func" else t.imag
                        r = getattr(t, nm)(True)
                        rec.tr()
                        judge(rec, r, t, w, f"{item}: {nm}(inplace)")

    # --------------------------------------------------------------------------------------------- sequences
    def moves(cls, x0):
        if cls is Modes:
            lead = x0.shape[:-1]
            P = {k: M(k, 2, lead, 2.2, multiplication_truncator=first) for k in range(-3, 4)}
            W = M(1, 2, (), 2.6, multiplication_truncator=first)
            Z = M(0, 0, (), 2.8, multiplication_truncator=first)
            return [("+=p", lambda x: operator.iadd(x, P[x.s]), lambda x: x + P[x.s], 3), ("-=p", lambda x: operator.isub(x, P[x.s]), lambda x: x - P[x.s], 3),
                    ("*=2j", lambda x: operator.imul(x, 2j), lambda x: x * 2j, 9), ("/=(1+1j)", lambda x: operator.itruediv(x, 1 + 1j), lambda x: x / (1 + 1j), 9),
                    ("*=w", lambda x: operator.imul(x, W), lambda x: x * W, 9), ("*=z", lambda x: operator.imul(x, Z), lambda x: x * Z, 9),
                    ("+=x", lambda x: operator.iadd(x, x), lambda x: x + x, 9), ("conj inplace", lambda x: x.conjugate(inplace=True), lambda x: x.conj(), 9),
                    ("neg out", lambda x: np.negative(x, out=x), lambda x: -x, 9), ("conj out", lambda x: np.conj(x, out=x), lambda x: np.conj(x), 9),
                    ("mul out", lambda x: np.multiply(W, x, out=x), lambda x: np.multiply(W, x), 9)]
        P = {k: G(k, (7, 7), x0.shape[:-2], 2.2) for k in range(-3, 4)}
        W = G(1, (7, 7), (), 2.6)
        return [("+=p", lambda x: operator.iadd(x, P[x.s]), lambda x: x + P[x.s], 3), ("-=p", lambda x: operator.isub(x, P[x.s]), lambda x: x - P[x.s], 3),
                ("*=2j", lambda x: operator.imul(x, 2j), lambda x: x * 2j, 9), ("/=c", lambda x: operator.itruediv(x, 1 + 1j), lambda x: x / (1 + 1j), 9),
                ("*=w", lambda x: operator.imul(x, W), lambda x: x * W, 2), ("/=w", lambda x: operator.itruediv(x, W), lambda x: x / W, -2),
                ("conj inplace", lambda x: x.conjugate(inplace=True), lambda x: x.conj(), 9), ("conj out", lambda x: np.conj(x, out=x), lambda x: np.conj(x), 9),
                ("neg out", lambda x: np.negative(x, out=x), lambda x: -x, 9), ("recip out", lambda x: np.reciprocal(x, out=x), lambda x: np.reciprocal(x), 9),
                ("abs out", lambda x: np.absolute(x, out=x), lambda x: np.absolute(x), 9), ("**=2", lambda x: operator.ipow(x, 2), lambda x: x ** 2, 1)]

    def legal(name, x, lim):
        if name in ("*=w", "/=w") and isinstance(x, Grid):
            return abs(x.s + (1 if name == "*=w" else -1)) <= 3
        if name == "**=2":
            return abs(x.s) <= 1
        return abs(x.s) <= 3

    starts = {"M0": lambda: M(0, 2, (), .5, multiplication_truncator=first), "M-1": lambda: M(-1, 2, (2,), .5, multiplication_truncator=first), "G1": lambda: G(1, (7, 7), (2,), .5), "G0": lambda: G(0, (7, 7), (), .5)}

    def run_seq(item, rec):
        sk, i0 = item
        x0 = starts[sk]()
        cls = type(x0)
        mv = moves(cls, x0)
        depth = 4 if thorough else 3

        def go(word, x):
            """x: result of the ordinary operations"""
            for k, (nm, fi, fo, lim) in enumerate(mv):
                if not word and k != i0:
                    continue
                if not legal(nm, x, lim):
                    continue
                y = fo(x)
                w = word + (k,)
                t = starts[sk]()
                addr = t.__array_interface__["data"][0]
                for j in w:
                    r = mv[j][1](t)
                    rec.tr()
                    t0 = t
                    t = r if type(r) is cls else t
                rec.st(); rec.trace()
                what = lambda: f"{sk} then {[mv[j][0] for j in w]}"
                rec.check(meta(t) == meta(y) and meta(t0) == meta(y), lambda: f"{what()}: target reports {meta(t)} / {meta(t0)}, ordinary operations {meta(y)}")
                rec.check(t.__array_interface__["data"][0] == addr, lambda: f"{what()}: not in place")
                yv = y.view(np.ndarray)
                rec.close(t.view(np.ndarray), yv, 1e-11 * (np.abs(yv) if cls is Grid else 1) + 1e-12 * (1 + float(np.max(np.abs(yv)))) * (cls is Modes), what)
                if len(w) < depth:
                    go(w, y)
        go((), x0)

    def warm():
        dims = sorted({(len(a), len(b)) for a in LEADS for b in ((), a)} | {(len(a), 0) for a in LEADS} | {(0, len(a)) for a in LEADS})

        def one(d):
            M(0, 1, (1,) * d[0]) * M(0, 1, (1,) * d[1])
        pmap(one, dims)
        for d in dims:
            one(d)
    return [
        Family("cases", list(CASES), run_case, warm, note="every supported operation x {fresh outputs, aliases of each operand, overlapping and reversed views} x call forms"),
        Family("sequences", [[k, i] for k in starts for i in range(len(moves(type(starts[k]()), starts[k]())))], run_seq, note="all sequences of in-place operations of length <= 3 (4)"),
    ]
