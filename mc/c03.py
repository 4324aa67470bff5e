"""C03: all calling forms of the D functions agree element by element."""
import numpy as np
from .core import Family
from .common import *

ASSUMPTIONS = ["agreement is judged within the forward error bound of one evaluation"]
ALL = tuple(range(TWO_LMAX + 1))
REG = [(0.5, -0.1, 0.7, math.sqrt(1 - .25 - .01 - .49)), rotor(0.9, math.sqrt(.19), .7, -2.1), rotor(math.sqrt(.19), 0.9, -2.9, 1.3),
       rotor(S2, S2, .3, 2.0), rotor(1.0, 0.0, 1.0, 0.0), rotor(0.0, 1.0, 0.0, -2.0), rotor(1.0, 1e-9, .4, 2.), rotor(1e-9, 1.0, -.4, 3.),
       (1., 0., 0., 0.), (0., 0., 1., 0.)]
SHAPES = [(), (1,), (0,), (2,), (3,), (7,), (1, 1), (2, 3), (3, 2), (2, 0), (0, 3), (2, 3, 4), (4, 1, 2), (2, 2, 2, 2), (1, 5, 1, 3)]
SIZES = sorted({s + d for s in (8, 16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096) for d in (-1, 0, 1)} | {5, 10000})
LAYOUTS = ["C", "F", "T", "rev", "stride2", "broadcast", "readonly", "lastaxis_rev"]


def layout(a, kind):
    """array equal to a (same shape) with another memory layout"""
    if a.ndim == 0 and kind != "readonly":
        return np.array(a, copy=True)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "T":
        return np.ascontiguousarray(a.T).T
    if kind == "rev":
        return np.ascontiguousarray(a[::-1])[::-1] if a.ndim else a
    if kind == "lastaxis_rev":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1] if a.ndim else a
    if kind == "stride2":
        if a.ndim == 0:
            return a
        b = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[1::2] = a
        b[::2] = a[::-1]
        return b[1::2]
    if kind == "readonly":
        b = np.array(a, copy=True)
        b.flags.writeable = False
        return b
    if kind == "broadcast":
        return a
    return a.copy()


def qarr(cs):
    return quaternion.as_quat_array(np.array(cs, dtype=float).reshape(-1, 4).copy())


@functools.lru_cache(None)
def many_rotors(n):
    v = np.array([[z.real, z.imag] for z in generic(2 * n, 1.25)]).reshape(n, 4)
    v = v / np.linalg.norm(v, axis=1)[:, None]
    A = rotor_alphabet(0)
    for i in range(0, n, 7):           # the special regimes occur throughout
        v[i] = A[(i // 7) % len(A)]
    return v


def families(tier):
    S = sf()
    thorough = tier != "quick"
    idx = indices_all(ALL)
    ellA = ell_of(ALL)
    off = np.concatenate([[0], np.cumsum([(t + 1) ** 2 for t in ALL])])
    pos = {}
    for k, (l, a, b) in enumerate(idx):
        pos[(int(2 * l), int(2 * a), int(2 * b))] = k
    ctx = {}

    def warm():
        ctx['ref'] = D_all(REG).astype(complex)
        ctx['tol'] = 2 * D_tol(REG, ctx['ref'], D_all(REG, absolute=True), ellA)
    isint = ellA % 1 == 0

    def run_ranges(item, rec):
        r, lmin = item
        full, tol = ctx['ref'][r][isint], ctx['tol'][r][isint]
        for lmax in range(lmin, LMAX + 1):
            a = sum((2 * l + 1) ** 2 for l in range(lmin))
            b = sum((2 * l + 1) ** 2 for l in range(lmax + 1))
            got = S.Wigner_D_matrices(q(REG[r]), lmin, lmax)
            rec.st(); rec.tr(); rec.trace()
            rec.close(got, full[a:b], tol[a:b], lambda: f"Wigner_D_matrices(R={REG[r]}, {lmin}, {lmax})")

    small = [p for p in pos if p[0] <= 3]
    six = [(0, 0, 0), (1, 1, -1), (2, 0, 2), (2, -2, 2), (3, 3, 1), (4, -2, 0), (5, 1, -3)]

    def ask(R, rows):
        return S.Wigner_D_element(R, rows)

    def check_rows(rec, r, rows, arr, what):
        keep = np.array(arr, copy=True) if isinstance(arr, np.ndarray) else None
        got = S.Wigner_D_element(q(REG[r]), arr)
        k = [pos[p] for p in rows]
        rec.tr(); rec.trace(); rec.st()
        rec.check(isinstance(got, np.ndarray) and got.dtype == complex, f"{what}: result is {type(got)}")
        rec.close(got, ctx['ref'][r][k], ctx['tol'][r][k], lambda: f"Wigner_D_element(R={REG[r]}, {rows[:8]}{'...' if len(rows) > 8 else ''}) [{what}]")
        if keep is not None:
            rec.check(same(keep, arr), f"{what}: the index array was modified")

    def run_pairs(item, rec):
        r, i = item
        for j in range(len(small)):
            rows = [small[i], small[j]]
            check_rows(rec, r, rows, np.array(rows) / 2, "pair")
            if r < 3 and (thorough or max(small[i][0], small[j][0]) <= 2):
                for k in range(len(small)):
                    if small[k][0] <= 2:
                        rows3 = rows + [small[k]]
                        check_rows(rec, r, rows3, np.array(rows3) / 2, "triple")

    def run_perms(item, rec):
        r, lead = item
        rest = [p for p in six if p != six[lead]]
        for perm in itertools.permutations(rest, 5 if not thorough else 6):
            rows = [six[lead]] + list(perm)
            check_rows(rec, r, rows, np.array(rows) / 2, "permutation")

    introws = [p for p in pos if p[0] % 2 == 0 and p[0] <= 8]
    halfrows = [p for p in pos if p[0] <= 7]
    kinds = ["int64", "int32", "int16", "int8", "float64", "float32", "list", "tuples", "F", "T", "rev", "stride2", "readonly", "wide", "longdouble"]

    def as_kind(rows, kind):
        a = np.array(rows, dtype=float) / 2
        if kind in ("int64", "int32", "int16", "int8"):
            return a.astype(kind)
        if kind in ("float64", "float32", "longdouble"):
            return a.astype(kind)
        if kind == "list":
            return [[int(v) if v == int(v) else float(v) for v in row] for row in a]
        if kind == "tuples":
            return tuple(tuple(float(v) for v in row) for row in a)
        if kind == "wide":
            b = np.full((len(a), 7), 99.0)
            b[:, 2:5] = a
            return b[:, 2:5]
        return layout(a, kind)

    def run_dtypes(item, rec):
        r, kind = item
        base = introws if kind.startswith("int") else halfrows
        for rows in (base, base[::-1], base[::3] + base[1::3] + base[2::3], base[5:6], base[:1] * 3 + base[7:9]):
            check_rows(rec, r, rows, as_kind(rows, kind), kind)

    def run_sizes(item, rec):
        r, n = item
        base = [p for p in pos if p[0] <= 9]
        rows = [base[(7 * i + i // 5) % len(base)] for i in range(n)]
        check_rows(rec, r, rows, np.array(rows) / 2, f"{n} rows")

    ells = [0, 1, 2, 3, 4, 5, 9, 16, 33]     # twoell

    def expand(tl):
        return [(t, a, b) for t in tl for a in range(-t, t + 1, 2) for b in range(-t, t + 1, 2)]

    def run_elllists(item, rec):
        r, tl = item
        rows = expand(tl)
        k = [pos[p] for p in rows]
        R = q(REG[r])
        Ra, Rb = ab(REG[r])
        vals = [t / 2 if t % 2 else t // 2 for t in tl]
        forms = [("list", vals), ("tuple", tuple(vals)), ("float array", np.array(vals, dtype=float)), ("strided", np.array(vals * 2, dtype=float)[:len(vals)])]
        if all(t % 2 == 0 for t in tl):
            forms += [("int array", np.array(vals, dtype=int)), ("int32 array", np.array(vals, dtype=np.int32))]
        for name, v in forms:
            for rot in ((R,), (Ra, Rb)):
                rec.st(); rec.tr(); rec.trace()
                got = S.Wigner_D_element(*rot, v)
                rec.close(got, ctx['ref'][r][k], ctx['tol'][r][k], lambda: f"Wigner_D_element(R={REG[r]}, ells={vals} as {name})")

    def run_single_ell(item, rec):
        r, t = item
        rows = expand([t])
        k = [pos[p] for p in rows]
        R = q(REG[r])
        Ra, Rb = ab(REG[r])
        v = t / 2 if t % 2 else t // 2
        vs = [v, float(v), np.float64(v), np.array(v)] + ([np.int64(v), np.int32(v), np.array(v, dtype=int)] if t % 2 == 0 else [])
        for w in vs:
            for rot in ((R,), (Ra, Rb)):
                rec.st(); rec.tr(); rec.trace()
                got = S.Wigner_D_element(*rot, w)
                if t == 0:
                    rec.check(np.ndim(got) in (0, 1) and np.size(got) == 1, "ell=0 gives one number")
                    got = np.reshape(got, (1,))
                rec.close(got, ctx['ref'][r][k], ctx['tol'][r][k], lambda: f"Wigner_D_element(R={REG[r]}, ell={w!r})")

    def run_scalarforms(item, rec):
        """explicit (ell, mp, m) in all number types and rotation forms"""
        r, t = item
        R = q(REG[r])
        Ra, Rb = ab(REG[r])
        alpha, beta, gamma = (float(x) for x in quaternion.as_euler_angles(R))
        Re = quaternion.from_euler_angles(alpha, beta, gamma)
        sgn = 1.0 if abs(Re - R) < abs(Re + R) else -1.0
        ce = tuple(quaternion.as_float_array(Re))
        refe = D_all([ce], t, twoells=[t])[0].astype(complex)
        tole = 2 * D_tol([ce], refe[None], D_all([ce], t, True, [t]), t / 2)[0]
        for n, (_, a, b) in enumerate(expand([t])):
            k = pos[(t, a, b)]
            types = [float, np.float64, np.float32] + ([int, np.int64, np.int32, np.int8] if t % 2 == 0 else [])
            for ty in types:
                l, mp, m = (ty(v / 2) for v in (t, a, b))
                for name, args in (("R", (R,)), ("Ra,Rb", (Ra, Rb)), ("np Ra,Rb", (np.complex128(Ra), np.complex128(Rb)))):
                    got = S.Wigner_D_element(*args, l, mp, m)
                    rec.st(); rec.tr(); rec.trace()
                    rec.check(np.ndim(got) == 0, lambda: f"Wigner_D_element({name},{l},{mp},{m}) is not a scalar: {got!r}")
                    rec.close(got, ctx['ref'][r][k], ctx['tol'][r][k], lambda: f"Wigner_D_element({name}, {l!r},{mp!r},{m!r}), R={REG[r]}")
                for name, ang in (("float", (alpha, beta, gamma)), ("np", tuple(np.float64(x) for x in (alpha, beta, gamma)))):
                    got = S.Wigner_D_element(*ang, l, mp, m)
                    rec.st(); rec.tr(); rec.trace()
                    rec.check(np.ndim(got) == 0, "Euler form is not a scalar")
                    rec.close(got, refe[n], tole[n], lambda: f"Wigner_D_element(angles {name} {ang}, {l!r},{mp!r},{m!r})")
        got = S.Wigner_D_element(alpha, beta, gamma, t / 2)
        if t:
            rec.close(got, refe, tole, f"Wigner_D_element(alpha,beta,gamma,ell={t / 2})")
        got = S.Wigner_D_element(alpha, beta, gamma, [t / 2])
        rec.close(got, refe, tole, f"Wigner_D_element(alpha,beta,gamma,[{t / 2}])")

    tri = [(0, 0, 0), (2, 1, -1), (1, -1, 1), (4, -4, 2), (8, 6, 6), (5, 3, -5), (3, 1, 1), (12, -2, 10), (6, -6, -6), (6, 6, -6), (16, 0, 0)]
    tri = [(t, a, b) for t, a, b in tri if (t - a) % 2 == 0 and (t - b) % 2 == 0] + [(2, 2, -2), (2, 0, 0)]

    def run_rotor_arrays(item, rec):
        shape, lay = item
        shape = tuple(shape)
        n = int(np.prod(shape, dtype=int))
        cs = many_rotors(max(n, 1))[:n]
        base = qarr(cs).reshape(shape) if n else np.zeros(shape, dtype=np.quaternion)
        if lay == "broadcast" and len(shape) >= 1 and n:
            one = qarr(many_rotors(shape[-1])[:shape[-1]])
            arr = np.broadcast_to(one, shape)
            cs = quaternion.as_float_array(np.array(arr)).reshape(-1, 4)
        else:
            arr = layout(base, lay)
        keep = np.array(arr, copy=True)
        for (t, a, b) in tri:
            k = pos[(t, a, b)] - off[t]
            l, mp, m = (v // 2 if v % 2 == 0 and t % 2 == 0 else v / 2 for v in (t, a, b))
            got = S.Wigner_D_element(arr, l, mp, m)
            rec.st(); rec.tr(); rec.trace()
            if n:
                ref = D_all(cs, t, twoells=[t]).astype(complex)
                tol = 2 * D_tol(cs, ref, D_all(cs, t, True, [t]), t / 2)
                rec.close(got, ref[:, k].reshape(shape), tol[:, k].reshape(shape), lambda: f"Wigner_D_element(Rs{shape} [{lay}], {l},{mp},{m})")
            else:
                rec.check(np.shape(got) == shape, f"empty rotor array {shape}: result shape {np.shape(got)}")
            rec.check(same(quaternion.as_float_array(keep), quaternion.as_float_array(np.array(arr))), "the rotor array was modified")
            rec.check(not np.shares_memory(got, arr), "result shares memory with the rotors")

    fams = [
        Family("ranges", [[r, l] for l in range(LMAX + 1) for r in range(len(REG))], run_ranges, warm,
               note="Wigner_D_matrices: 10 rotors x all 561 (ell_min, ell_max)"),
        Family("rotor_arrays", [[list(s), l] for s in SHAPES for l in LAYOUTS] + [[[n], "C"] for n in SIZES] + [[[2, n // 2], "T"] for n in SIZES[-9:]],
               run_rotor_arrays, note=f"{len(SHAPES)} shapes x {len(LAYOUTS)} layouts, sizes {SIZES}, {len(tri)} index triples"),
        Family("scalar_forms", [[r, t] for t in ((0, 1, 2, 3, 4, 5, 8) if not thorough else range(13)) for r in range(len(REG))], run_scalarforms,
               note="explicit (ell,mp,m) x number types x rotation forms"),
        Family("single_ell", [[r, t] for t in reversed(ALL) for r in range(3)], run_single_ell, note="every single ell x types x rotation forms"),
        Family("ell_lists", [[r, list(c)] for n in (1, 2, 3) for c in itertools.product(ells if n < 3 else ells[:6], repeat=n) for r in (0, 2)],
               run_elllists, note="all sequences of up to 3 ell values (with repetition, any order) x containers"),
        Family("index_pairs_triples", [[r, i] for i in range(len(small)) for r in range(4 if not thorough else len(REG))], run_pairs,
               note="all ordered pairs of indices with ell<=3/2, all ordered triples with ell<=1"),
        Family("index_permutations", [[r, i] for i in range(7) for r in (1, 2, 5)], run_perms, note="permutations of 6 (7) of 7 indices"),
        Family("index_dtypes", [[r, k] for k in kinds for r in range(6)], run_dtypes, note="dtype / container / layout of the index array"),
        Family("index_sizes", [[r, n] for n in SIZES for r in (0, 2)], run_sizes, note="number of indices around powers of two"),
    ]
    return fams
