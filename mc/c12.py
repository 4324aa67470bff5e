"""C12: ill-formed operations are refused and change nothing."""
import copy
import operator
import warnings
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["any exception counts as refusal", "comparison and logical ufuncs (element-wise booleans) are allowed in every form",
               "np.absolute of Modes is allowed"]

UFUNCS = sorted({getattr(np, n).__name__: getattr(np, n) for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}.items())
BOOL_M = {"not_equal", "equal", "logical_and", "logical_or", "isfinite", "isinf", "isnan"}
BOOL_G = BOOL_M | {"greater", "greater_equal", "less", "less_equal"}


def families(tier):
    S = sf()
    Modes, Grid = S.Modes, S.Grid
    thorough = tier != "quick"

    # ------------------------------------------------------------------ operands: label -> (kind, factory, info)
    def mk(s, L, lead, seed=.2):
        return lambda: Modes(ref_zero_low(generic_array(lead + ((L + 1) ** 2,), seed + s), s), spin_weight=s)

    def gk(s, n, lead, seed=.2):
        return lambda: Grid(generic_array(lead + n, seed + s), spin_weight=s)

    def ar(shape, kind=complex, seed=.6):
        return lambda: generic_array(shape, seed) if kind is complex else generic_real(shape, seed) if kind is float else np.arange(1, 1 + int(np.prod(shape))).reshape(shape)

    OPS = {}

    def op(label, f, **info):
        info["shape"] = np.shape(f())
        OPS[label] = (f, info)
    for s in (-1, 0, 2):
        op(f"M(s={s},L=2)", mk(s, 2, ()), t="M", s=s, lead=())
    op("M(s=-1,L=2,(3,))", mk(-1, 2, (3,)), t="M", s=-1, lead=(3,))
    op("M(s=0,L=1,(4,))", mk(0, 1, (4,)), t="M", s=0, lead=(4,))
    op("M(s=0,L=1,(4,4))", mk(0, 1, (4, 4)), t="M", s=0, lead=(4, 4))
    op("M(s=0,L=0)", mk(0, 0, ()), t="M", s=0, lead=())
    for s in (-1, 0, 2):
        op(f"G(s={s},5x5)", gk(s, (5, 5), ()), t="G", s=s, lead=(), n=(5, 5))
    op("G(s=0,5x6)", gk(0, (5, 6), ()), t="G", s=0, lead=(), n=(5, 6))
    op("G(s=-1,6x5)", gk(-1, (6, 5), ()), t="G", s=-1, lead=(), n=(6, 5))
    op("G(s=1,5x5,(5,))", gk(1, (5, 5), (5,)), t="G", s=1, lead=(5,), n=(5, 5))
    op("G(s=0,5x5,(9,))", gk(0, (5, 5), (9,)), t="G", s=0, lead=(9,), n=(5, 5))
    op("G(s=0,3x3,(4,4))", gk(0, (3, 3), (4, 4)), t="G", s=0, lead=(4, 4), n=(3, 3))
    op("0", lambda: 0, t="s", zero=True)
    op("2", lambda: 2, t="s", zero=False)
    op("0.5", lambda: 0.5, t="s", zero=False)
    op("-1.5+2j", lambda: -1.5 + 2j, t="s", zero=False)
    op("1e-300", lambda: 1e-300, t="s", zero=False)
    for sh in ((9,), (4,), (1,), (3,), (5,), (5, 5), (4, 4), (3, 9), (3, 1), (4, 1), (4, 4, 4), (1, 1), (5, 5, 5), (9, 5, 5), (6,), (3, 3)):
        op(f"array{sh}", ar(sh), t="a", zero=False)
    op("zeros(9,)", lambda: np.zeros(9), t="a", zero=True)
    op("zeros(5,5)", lambda: np.zeros((5, 5)), t="a", zero=True)
    op("zeros(3,)", lambda: np.zeros(3), t="a", zero=True)
    op("one nonzero(3,)", lambda: np.array([0, 0, 1e-20]), t="a", zero=False)
    for sh in ((1,), (3,), (4,), (5,), (9,), (4, 4), (3, 1), (5, 5)):
        for k, nm in ((0, "first"), (-1, "last")):
            def onehot(sh=sh, k=k):
                z = np.zeros(sh, dtype=complex)
                z.flat[k] = 1j if k else 1e-20
                return z
            op(f"only {nm} nonzero{sh}", onehot, t="a", zero=False)
    op("zeros(4, 4)", lambda: np.zeros((4, 4), dtype=int), t="a", zero=True)
    op("nan", lambda: float("nan"), t="s", zero=False)
    op("list(0, 1, 0)", lambda: [0, 1, 0], t="a", zero=False)
    op("int array(4,)", ar((4,), int), t="a", zero=False)
    op("list(4)", lambda: [1.0, 2.0, 3.0, 4.0], t="a", zero=False)
    op("object", lambda: "text", t="x")
    op("None", lambda: None, t="x")

    def over_lead(info, sh):
        """array of shape sh may act on the leading dimensions"""
        if len(sh) > len(info["lead"]):
            return False
        try:
            np.broadcast_shapes(sh, info["lead"])
            return True
        except ValueError:
            return False

    def leads_ok(a, b):
        try:
            np.broadcast_shapes(a["lead"], b["lead"])
            return True
        except ValueError:
            return False

    def allowed(uf, method, infos, vals):
        """True if the call is a supported operation on spin-weighted functions (the other checks decide its value)"""
        kinds = [i["t"] for i in infos]
        if "x" in kinds:
            return None      # meaningless anyway: not judged
        if ("M" in kinds and uf in BOOL_M) or ("G" in kinds and uf in BOOL_G):
            return None
        if "M" in kinds and "G" in kinds:
            return False
        if method != "__call__":
            return False
        cls = "M" if "M" in kinds else "G"
        if len(infos) == 1:
            i = infos[0]
            if uf in ("positive", "negative", "conjugate", "absolute"):
                return True
            if cls == "G":
                if uf == "sqrt":
                    return i["s"] % 2 == 0
                if uf == "square":
                    return 4 * abs(i["s"]) + 1 <= min(i["n"])
                if uf == "reciprocal":
                    return True
            return False
        a, b = infos
        if uf in ("add", "subtract", "multiply", "divide"):
            if kinds in (["M", "M"], ["G", "G"]):
                if not leads_ok(a, b) or (cls == "G" and a["n"] != b["n"]):
                    return False
                if uf in ("add", "subtract"):
                    return a["s"] == b["s"]
                if cls == "M":
                    return uf == "multiply"
                s = a["s"] + b["s"] if uf == "multiply" else a["s"] - b["s"]
                return 2 * abs(s) + 1 <= min(a["n"])
            f, c = (a, b) if kinds[0] == cls else (b, a)
            if c["shape"] and not over_lead(f, c["shape"]):
                return False
            if uf in ("add", "subtract"):
                return c["zero"] or (cls == "G" and f["s"] == 0)
            if uf == "divide" and kinds[1] == cls:
                return cls == "G"
            return True
        if uf == "power" and cls == "G":
            if kinds != ["G", "s"]:
                return None if kinds == ["G", "a"] and b["shape"] in ((1,), (1, 1)) else False
            e = vals[1]
            if e != e:
                return None
            if e != int(e.real if isinstance(e, complex) else e):
                return False
            return 2 * abs(int(e) * a["s"]) + 1 <= min(a["n"])
        return False

    def snap(x):
        if isinstance(x, np.ndarray):
            return (type(x), x.shape, x.dtype.str, x.strides, x.tobytes(), getattr(x, "s", None), getattr(x, "ell_max", None) if isinstance(x, Modes) else None)
        return repr(x)

    def attempt(rec, call, vals, verdict, what, targets=(), free=()):
        """verdict True: must not raise; False: must raise; None: not judged.  Operands never change (targets only if it did not raise)"""
        before = [snap(v) for v in vals]
        rec.st(); rec.tr(); rec.trace()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with np.errstate(all="ignore"):
                    r = call()
                err = None
            except Exception as e:
                err = e
        if err is None:
            rec.check(verdict is not False, lambda: f"{what()} returned {type(r).__name__} of shape {np.shape(r)} instead of raising an error")
        else:
            rec.check(verdict is not True, lambda: f"{what()} raised {type(err).__name__}: {str(err)[:200]}")
        for k, (v, b) in enumerate(zip(vals, before)):
            if (err is None and k in targets) or k in free:
                continue
            rec.check(snap(v) == b, lambda: f"{what()} {'raised ' + type(err).__name__ + ' and ' if err else ''}changed its operand {k}")
        rec.outcome((type(err).__name__ if err else type(r).__name__, verdict))
        return err

    LBL = list(OPS)
    FUN = [l for l in LBL if OPS[l][1]["t"] in "MG"]

    def run_unary(item, rec):
        uf = dict(UFUNCS)[item]
        for l in FUN:
            f, info = OPS[l]
            if uf.nin == 1:
                o = f()
                v = allowed(item, "__call__", [info], [o])
                attempt(rec, lambda: uf(o), [o], v, lambda: f"np.{item}({l})")
                o = f()
                attempt(rec, lambda: uf(o, where=np.zeros(o.shape, dtype=bool) | True), [o], None if v is None else False if v is False or item != "absolute" else None, lambda: f"np.{item}({l}, where=...)")
                for m in ("reduce", "accumulate", "outer", "at"):
                    o = f()
                    vv = None if v is None else False
                    if m == "at":
                        attempt(rec, lambda: uf.at(o, (Ellipsis, 0)), [o], vv, lambda: f"np.{item}.at({l}, ...)", targets=(0,) if vv is None else ())
                    else:
                        attempt(rec, lambda: getattr(uf, m)(o), [o], vv, lambda: f"np.{item}.{m}({l})")
            else:
                v = allowed(item, "reduce", [info], [None])
                for m, call in {"reduce": lambda o: uf.reduce(o), "reduce axis=-1": lambda o: uf.reduce(o, axis=-1), "accumulate": lambda o: uf.accumulate(o), "reduceat": lambda o: uf.reduceat(o, [0, 1]), "at": lambda o: uf.at(o, (Ellipsis, 0), 2.0), "at2": lambda o: uf.at(np.ones(9, dtype=complex), [0], o), "reduce keepdims": lambda o: uf.reduce(o, axis=0, keepdims=True)}.items():
                    o = f()
                    attempt(rec, lambda: call(o), [o], v, lambda: f"np.{item}.{m}({l})", targets=(0,) if v is None else ())
                for l2 in LBL:
                    f2, i2 = OPS[l2]
                    if i2["t"] == "x":
                        continue
                    a, b = f(), f2()
                    w = allowed(item, "outer", [info, i2], None)
                    attempt(rec, lambda: uf.outer(a, b), [a, b], w, lambda: f"np.{item}.outer({l}, {l2})")
                    attempt(rec, lambda: uf.outer(b, a), [a, b], w, lambda: f"np.{item}.outer({l2}, {l})")

    def run_binary(item, rec):
        uf = dict(UFUNCS)[item]
        for l1 in LBL:
            for l2 in LBL:
                (f1, i1), (f2, i2) = OPS[l1], OPS[l2]
                if i1["t"] not in "MG" and i2["t"] not in "MG":
                    continue
                a, b = f1(), f2()
                v = allowed(item, "__call__", [i1, i2], [a, b])
                attempt(rec, lambda: uf(a, b), [a, b], v, lambda: f"np.{item}({l1}, {l2})")
                if v is not None and i1["t"] in "MG":
                    a, b = f1(), f2()
                    attempt(rec, lambda: uf(a, b, where=np.ones(a.shape, dtype=bool)), [a, b], False, lambda: f"np.{item}({l1}, {l2}, where=...)")

    # in-place operators: whatever happens, a refused operation changes nothing
    INPLACE = {"+=": ("add", operator.iadd), "-=": ("subtract", operator.isub), "*=": ("multiply", operator.imul), "/=": ("divide", operator.itruediv), "**=": ("power", operator.ipow),
               "//=": ("floor_divide", operator.ifloordiv), "%=": ("remainder", operator.imod), "@=": ("matmul", operator.imatmul), "<<=": ("left_shift", operator.ilshift), ">>=": ("right_shift", operator.irshift), "&=": ("bitwise_and", operator.iand), "|=": ("bitwise_or", operator.ior), "^=": ("bitwise_xor", operator.ixor)}
    BINOPS = {"+": ("add", operator.add), "-": ("subtract", operator.sub), "*": ("multiply", operator.mul), "/": ("divide", operator.truediv), "**": ("power", operator.pow), "//": ("floor_divide", operator.floordiv), "%": ("remainder", operator.mod), "@": ("matmul", operator.matmul), "<<": ("left_shift", operator.lshift), "&": ("bitwise_and", operator.and_), "|": ("bitwise_or", operator.or_), "^": ("bitwise_xor", operator.xor), "divmod": ("divmod", divmod)}
    METHODS = {"add": "add", "subtract": "subtract", "multiply": "multiply", "divide": "divide"}

    def run_operators(item, rec):
        l1 = item
        f1, i1 = OPS[l1]
        for l2 in LBL:
            f2, i2 = OPS[l2]
            for nm, (uf, fn) in BINOPS.items():
                for x, y, ix, iy, lx, ly in ((f1, f2, i1, i2, l1, l2), (f2, f1, i2, i1, l2, l1)):
                    a, b = x(), y()
                    v = allowed(uf, "__call__", [ix, iy], [a, b])
                    if isinstance(a, str) and nm == "%":
                        continue
                    if nm == "**" and ly == "0.5" and ix["t"] == "G":
                        v = ix["s"] % 2 == 0      # numpy turns this into sqrt
                    attempt(rec, lambda: fn(a, b), [a, b], v, lambda: f"{lx} {nm} {ly}")
            for nm, (uf, fn) in INPLACE.items():
                a, b = f1(), f2()
                v = allowed(uf, "__call__", [i1, i2], [a, b])
                if nm == "**=" and l2 == "0.5":
                    v = None if i1["t"] == "G" and i1["s"] % 2 == 0 else False
                attempt(rec, lambda: fn(a, b), [a, b], False if v is False else None, lambda: f"{l1} {nm} {l2}", targets=(0,))
            if i2["t"] != "x":
                for m, uf in METHODS.items():
                    a, b = f1(), f2()
                    v = allowed(uf, "__call__", [i1, i2], [a, b])
                    if m == "add" and i1["t"] == "M" and isinstance(b, list):
                        v = None
                    attempt(rec, lambda: getattr(a, m)(b), [a, b], v, lambda: f"{l1}.{m}({l2})")
        # unary
        for nm, fn in {"real": lambda o: o.real, "imag": lambda o: o.imag, "np.real": np.real, "np.imag": np.imag}.items():
            o = f1()
            e = attempt(rec, lambda: fn(o), [o], i1["s"] == 0, lambda: f"{nm} of {l1}")
            if i1["s"] != 0:
                rec.check(isinstance(e, ValueError), lambda: f"{nm} of {l1} raised {type(e).__name__}, not ValueError")
        for nm, fn in {"~": operator.invert, "sum": lambda o: o.sum(), "prod": lambda o: o.prod(), "np.sum": np.sum, "np.prod": np.prod, "sum axis": lambda o: o.sum(axis=-1)}.items():
            o = f1()
            attempt(rec, lambda: fn(o), [o], False, lambda: f"{nm} of {l1}")

    def run_errors(item, rec):
        """documented error types"""
        rec.trace()
        for s1 in range(-2, 3):
            for s2 in range(-2, 3):
                if s1 == s2:
                    continue
                a, b = mk(s1, 2, ())(), mk(s2, 2, ())()
                g, h = gk(s1, (9, 9), ())(), gk(s2, (9, 9), ())()
                for nm, x, y in (("Modes", a, b), ("Grid", g, h)):
                    rec.st(); rec.tr(4)
                    rec.raises(ValueError, lambda: x.add(y), f"{nm}(s={s1}).add({nm}(s={s2}))")
                    rec.raises(ValueError, lambda: x.subtract(y), f"{nm}(s={s1}).subtract({nm}(s={s2}))")
                    rec.raises((ValueError, TypeError), lambda: x + y, f"{nm}(s={s1}) + {nm}(s={s2})")
                    rec.raises((ValueError, TypeError), lambda: x - y, f"{nm}(s={s1}) - {nm}(s={s2})")
        for s in range(-2, 3):
            a = mk(s, 2, ())()
            rec.tr(3)
            rec.raises(ValueError, lambda: a.divide(a), "Modes.divide(Modes)")
            rec.raises(ValueError, lambda: a.add(1), "Modes.add(1)")
            rec.raises(ValueError, lambda: a.subtract(1e-9), "Modes.subtract(1e-9)")
            if s:
                g = gk(s, (5, 5), ())()
                rec.raises(ValueError, lambda: g.add(1), "Grid.add(1), s != 0")
                rec.raises(ValueError, lambda: g.subtract(1), "Grid.subtract(1), s != 0")

    def run_out(item, rec):
        """out= that does not fit: refused, with operands (and the output) unchanged; every ufunc that is not supported is refused with out= too"""
        uf = dict(UFUNCS)[item]
        for l1 in FUN:
            f1, i1 = OPS[l1]
            seconds = [None] if uf.nin == 1 else [l for l in LBL if OPS[l][1]["t"] in "MGs" or l in ("array(3,)", "array(4,)", "array(9,)", "array(5, 5)")]
            for l2 in seconds:
                outs = {"same-shape Modes/Grid": lambda a: a.copy(), "too small": lambda a: a.copy()[..., :1], "ndarray": lambda a: np.full(a.shape, 9 + 0j), "bigger ndarray": lambda a: np.full(a.shape + (2,), 9 + 0j), "int ndarray": lambda a: np.full(a.shape, 9)}
                for on, of in outs.items():
                    if uf.nin == 1:
                        a = f1()
                        args, infos = [a], [i1]
                    else:
                        a, b = f1(), OPS[l2][0]()
                        args, infos = [a, b], [i1, OPS[l2][1]]
                    o = of(a)
                    v = allowed(item, "__call__", infos, args)
                    if v is not False:
                        v = None
                    if uf.nout > 1:
                        outt = (o, o.copy())
                    else:
                        outt = (o,)
                    tg = (len(args),) if v is None else ()
                    attempt(rec, lambda: uf(*args, out=outt), args + [o], v, lambda: f"np.{item}({l1}, {l2}, out={on})", free=tg)

    names1 = [n for n, u in UFUNCS]
    names2 = [n for n, u in UFUNCS if u.nin == 2]
    return [
        Family("binary", names2, run_binary, note=f"all binary ufuncs x all pairs of {len(LBL)} operands"),
        Family("unary_and_methods", names1, run_unary, note="all ufuncs x call/reduce/accumulate/reduceat/outer/at"),
        Family("out", names1, run_out, note="all ufuncs with out="),
        Family("operators", FUN, run_operators, note="all operators, in-place operators, methods"),
        Family("errors", ["documented"], run_errors, note="documented error types"),
    ]
