"""C17: the H recursions, with fresh and reused workspaces, against the extended-precision d matrix."""
import numpy as np
from .core import Family
from .common import *
from .c03 import layout

ASSUMPTIONS = ["dependence of the rounding error on 1/sin(beta) is allowed when sin(beta) is computed from cos(beta)"]
BET = np.array([0, 1e-9, 1e-5, 1e-3, .01, .1, .2, .3, .5, math.pi / 6, .7, math.pi / 4, .9, 1., math.pi / 3, 1.2, 1.4, 1.5, 1.55, 1.5707, math.pi / 2, 1.5709, 1.6, 1.8, 2.,
                2 * math.pi / 3, 2.2, 3 * math.pi / 4, 2.5, 5 * math.pi / 6, 2.8, 3., 3.1, 3.14, 3.1415, math.pi - 1e-6, math.pi - 1e-8, math.pi])


def eps(k):
    return 1 if k <= 0 else (-1) ** (k % 2)


@functools.lru_cache(64)
def signs(N, wedge):
    out = []
    for n in range(N + 1):
        for mp in range(-n, n + 1):
            for m in range(abs(mp) if wedge else -n, n + 1):
                out.append((n, mp, m, eps(mp) * eps(-m)))
    return np.array(out)


def ref_H(c, s, N, wedge):
    """H at the angle with cos = c, sin = s (flat arrays, extended precision): (size, len(c))"""
    c = np.asarray(c, dtype=LD).ravel()
    s = np.sqrt(np.maximum(0, (1 - c) * (1 + c))) if s is None else np.asarray(s, dtype=LD).ravel()
    half = np.arctan2(s, c) / 2
    rot = np.stack([np.cos(half), 0 * c, np.sin(half), 0 * c], axis=-1)
    if len(c) == 0:
        return np.zeros((len(signs(N, wedge)), 0))
    blocks = []
    for t, M in enumerate(D_half_steps(rot, 2 * N)):
        if t % 2 == 0:
            n = t // 2
            d = M.real
            if wedge:
                blocks += [d[:, n + mp, n + abs(mp):] for mp in range(-n, n + 1)]
            else:
                blocks.append(d.reshape(len(c), -1))
    r = np.concatenate(blocks, axis=1) * signs(N, wedge)[:, 3]
    return r.T.astype(float)


def tol_H(c, s, N, wedge):
    c = np.asarray(c, dtype=float).ravel()
    n = signs(N, wedge)[:, 0]
    sn = np.sqrt((1 - c) * (1 + c))
    amp = np.zeros_like(c) if s is not None else 1 / np.maximum(sn, 1e-8)
    return (n[:, None] + 2) * EPS * (40 + 2 * amp[None, :])


def families(tier):
    S = sf()
    thorough = tier != "quick"
    import spherical_functions.recursions as RE
    import spherical_functions.WignerD.WignerDRecursion as WR
    CALC = {"wedge": (RE.HCalculator, True), "full": (WR.HCalculator, False)}

    @functools.lru_cache(40)
    def calculator(kind, N):
        return CALC[kind][0](N)

    def judge(rec, got, kind, N, c, s, what):
        wedge = CALC[kind][1]
        c = np.asarray(c, dtype=float)
        size = len(signs(N, wedge))
        if got.shape != (size,) + c.shape:
            rec.fail(f"{what}: shape {got.shape}, expected {(size,) + c.shape}")
        rec.close(got.reshape(size, -1), ref_H(c, s, N, wedge), tol_H(c, s, N, wedge), what)

    def run_values(item, rec):
        kind, N, mode = item
        h = calculator(kind, N)
        c = np.cos(BET)
        s = np.sin(BET) if mode == "sin" else None
        kc = c.copy()
        ks = None if s is None else s.copy()
        got = h(c, s) if s is not None else h(c)
        rec.st(len(BET)); rec.tr(); rec.trace()
        judge(rec, got, kind, N, c, s, f"{kind} HCalculator({N})(cos beta{', sin beta' if mode == 'sin' else ''})")
        rec.check(same(c, kc) and (s is None or same(s, ks)), "inputs modified")
        if mode == "scalar":
            for b in BET[::3]:
                x = np.cos(b)
                for v in (x, float(x), np.array(x)):
                    rec.tr(); rec.trace()
                    judge(rec, h(v), kind, N, np.asarray(x), None, f"{kind} HCalculator({N})({v!r})")
                y = np.sin(b)
                for u, v in ((x, y), (float(x), float(y)), (float(x), np.array(y)), (np.array(x), float(y)), ([float(x)], [float(y)]), ((float(x), 1.0), (float(y), 0.0))):
                    rec.tr(); rec.trace()
                    judge(rec, h(u, v), kind, N, np.asarray(u), np.asarray(v), f"{kind} HCalculator({N})({u!r}, {v!r})")
            rec.tr(2); rec.trace(2)
            w = h.workspace(0.25)
            w[...] = 7.0
            judge(rec, h(.28, .96, w), kind, N, np.asarray(.28), np.asarray(.96), f"{kind} HCalculator({N})(.28, .96, workspace(.25))")
            for v in (1, 0, -1, 1.0, -1.0, 0.5):
                rec.tr(); rec.trace()
                judge(rec, h(v), kind, N, np.asarray(v), None, f"{kind} HCalculator({N})({v!r})")

    shapes = [(1,), (2,), (5,), (2, 3), (3, 1, 2), (1, 1), (7, 2)]
    sizes = [8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025]

    def betas(n, k=0):
        a = np.modf((np.arange(n) + 1) * 0.6180339887498949 + .137 * k)[0] * math.pi
        a[::5] = BET[np.arange(len(a[::5])) % len(BET)]
        return a

    def run_shapes(item, rec):
        kind, N, shape, lay = item
        shape = tuple(shape)
        b = betas(int(np.prod(shape))).reshape(shape)
        c = layout(np.cos(b), lay)
        h = calculator(kind, N)
        for s in (None, layout(np.sin(b), lay)):
            for w in (None, "ws", "nan"):
                rec.st(); rec.tr(); rec.trace()
                kw = {}
                if w is not None:
                    kw['workspace'] = h.workspace(c)
                    if w == "nan":
                        kw['workspace'][...] = np.nan
                got = h(c, sinβ=s, **kw) if s is not None else h(c, **kw)
                judge(rec, got, kind, N, c, s, f"{kind} HCalculator({N}), cos beta of shape {shape} [{lay}], workspace {w}, sin {'given' if s is not None else 'not given'}")
        rec.check(same(np.array(c), np.cos(b)), "cos beta modified")

    # histories of a workspace
    blocks = [np.array(x) for x in ([0., 1., 2.], [math.pi, 0., math.pi], [1.5, 1.5, 1.5], [3., .1, .7], [math.pi / 2, 0., 0.], [1e-6, 2.9, 1.1])]
    if thorough:
        blocks += [np.array(x) for x in ([math.pi, math.pi, 1.], [.001, 3.14, 2.2])]

    def run_history(item, rec):
        kind, N, fill, first = item
        h = calculator(kind, N)
        refs = [ref_H(np.cos(b), np.sin(b), N, CALC[kind][1]) for b in blocks]
        tols = [tol_H(np.cos(b), 1, N, CALC[kind][1]) for b in blocks]
        n = len(blocks)
        for rest in itertools.product(range(n), repeat=2):
            ws = h.workspace(np.zeros(3))
            ws[...] = [0.0, np.nan, 1e300, -7.0][fill]
            seq = (first,) + rest
            for step, k in enumerate(seq):
                got = h(np.cos(blocks[k]), np.sin(blocks[k]), ws)
                rec.tr()
                rec.close(got, refs[k], tols[k], lambda: f"{kind} HCalculator({N}) with a workspace filled with {[0.0, 'nan', 1e300, -7.0][fill]}, then used for {seq[:step]}")
            rec.st(); rec.trace()
            fresh = h(np.cos(blocks[rest[0]]), np.sin(blocks[rest[0]]))
            rec.close(fresh, refs[rest[0]], tols[rest[0]], lambda: f"{kind} HCalculator({N}) without workspace after {seq}")

    def run_mixed(item, rec):
        """several calculators alive at once, without workspaces; earlier results stay valid"""
        seq = item
        held = []
        for k, N in enumerate(seq):
            for kind in CALC:
                h = calculator(kind, N)
                c = np.cos(blocks[(k + N) % len(blocks)])
                got = h(c)
                rec.tr()
                held.append((got, got.copy(), kind, N, c))
        for got, keep, kind, N, c in held:
            rec.check(same(got, keep), f"result of {kind} HCalculator({N}) changed by later calls {seq}")
            judge(rec, got, kind, N, c, None, f"{kind} HCalculator({N}) in sequence {seq}")
        rec.st(); rec.trace()

    def run_invalid(item, rec):
        kind, N = item
        h = calculator(kind, N)
        for bad in (1.0000000000000002, 1.1, -1.0000000000000002, -1.5, 2., 100., np.inf, -np.inf):
            rec.st(); rec.tr(); rec.trace()
            rec.raises(ValueError, lambda: h(np.float64(bad)), f"{kind} HCalculator({N})({bad})")
            for n in (1, 2, 3, 6, 40):
                for k in range(n):
                    c = np.cos(betas(n))
                    c[k] = bad
                    ws = h.workspace(c)
                    rec.tr(2); rec.trace()
                    rec.raises(ValueError, lambda: h(c), f"{kind} HCalculator({N}), {bad} at {k} of {n}")
                    rec.raises(ValueError, lambda: h(c, np.sin(betas(n)), ws), f"{kind} HCalculator({N}), {bad} at {k} of {n}, all arguments given")
        rec.raises(ValueError, lambda: h(np.cos(betas(4)), np.sin(betas(3))), "shape mismatch")
        rec.raises(ValueError, lambda: h(np.cos(betas(4)), np.sin(betas(4)).reshape(2, 2)), "shape mismatch")
        rec.raises(ValueError, lambda: CALC[kind][0](-1 - N), "negative n_max")

    def warm():
        for kind in CALC:
            calculator(kind, 2)(np.cos(BET[:3]))
    vals = list(range(0, 17)) + [20, 24, 32, 48, 64] if not thorough else list(range(0, 41)) + [48, 64, 80]
    fams = [
        Family("values", [[k, n, m] for n in reversed(vals) for k in CALC for m in ("nosin", "sin", "scalar")], run_values, warm, note=f"{len(BET)} angles x n_max in {vals[0]}..{vals[-1]}, all elements"),
        Family("histories", [[k, n, f, i] for k in CALC for n in (0, 1, 2, 3, 6) for f in range(4) for i in range(len(blocks))], run_history,
               note="all sequences of 3 calls on one workspace with 4 initial fillings"),
        Family("calculator_sequences", [list(s) for n in (2, 3) for s in itertools.product((0, 1, 2, 3, 5), repeat=n)], run_mixed, note="interleaved calculators of different n_max"),
        Family("shapes", [[k, n, list(s), l] for k in CALC for n in (0, 1, 2, 5) for s in shapes for l in ("C", "F", "T", "rev", "stride2", "readonly", "lastaxis_rev")]
               + [[k, 3, [n], "C"] for k in CALC for n in sizes], run_shapes, note="shapes x layouts x workspace x sin"),
        Family("invalid", [[k, n] for k in CALC for n in (0, 1, 2, 3, 7)], run_invalid, note="cos beta outside [-1,1] at every position"),
    ]
    if thorough:
        fams.append(Family("large_n", [["wedge", n, m] for n in (100, 150, 200) for m in ("nosin", "sin")], run_values, note="n_max to 200"))
    return fams
