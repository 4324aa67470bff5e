"""C02: D is a unitary representation of the rotation group.  States: group elements; transitions: multiplication."""
import numpy as np
from .core import Family, pmap
from .common import *

ASSUMPTIONS = ["error bounds of products are propagated from the forward error bound of single elements"]
ALL = tuple(range(TWO_LMAX + 1))


def qmul(p, r):
    a, b, c, d = p
    e, f, g, h = r
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def octahedral():
    out = []
    for i in range(4):
        for s in (1., -1.):
            v = [0.] * 4; v[i] = s
            out.append(tuple(v))
    out += list(itertools.product((.5, -.5), repeat=4))
    for i, j in itertools.combinations(range(4), 2):
        for s, t in itertools.product((S2, -S2), repeat=2):
            v = [0.] * 4; v[i] = s; v[j] = t
            out.append(tuple(v))
    return out


def icosahedral():
    out = octahedral()[:24]
    f = (1 + math.sqrt(5)) / 4
    base = (0.0, .5, f, 1 / (4 * f))
    for p in itertools.permutations(range(4)):
        if sum(1 for i in range(4) for j in range(i) if p[j] > p[i]) % 2 == 0:
            for sg in itertools.product((1, -1), repeat=3):
                vals = (0.0, base[1] * sg[0], base[2] * sg[1], base[3] * sg[2])
                out.append(tuple(vals[p[i]] for i in range(4)))
    return out


def bfs(gens, table):
    """Cayley graph: explore from the identity, return the reached elements and edges (i, g, j)"""
    T = np.array(table)

    def find(c):
        k = int(np.argmax(T @ np.array(c)))
        assert abs(T[k] - np.array(c)).max() < 1e-12, "not closed"
        return k
    start = find((1., 0, 0, 0))
    seen, todo, edges = {start}, [start], []
    while todo:
        i = todo.pop(0)
        for g in gens:
            j = find(qmul(table[i], table[g]))
            edges.append((i, g, j))
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return seen, edges


def families(tier):
    S = sf()
    thorough = tier != "quick"
    idx = indices_all(ALL)
    ellA = ell_of(ALL)
    off = np.concatenate([[0], np.cumsum([(t + 1) ** 2 for t in ALL])])
    isint = ellA % 1 == 0

    def table_of(cs):
        """real D of the implementation (both entry points) and error bounds"""
        def one(c):
            d = S.Wigner_D_element(q(c), idx)
            d2 = d.copy()
            d2[isint] = S.Wigner_D_matrices(q(c), 0, LMAX)
            return (d, d2), D_tol([c], D_all([c]), D_all([c], absolute=True), ellA)[0]
        r = pmap(one, cs)
        return [x[0] for x in r], [x[1] for x in r]

    def mats(d, t):
        return d[off[t]:off[t + 1]].reshape(t + 1, t + 1)

    def judge(rec, D1, T1, D2, T2, D3, T3, what, extra=0.0):
        for t in ALL:
            a, b, c = mats(D1, t), mats(D2, t), mats(D3, t)
            ta, tb, tc = mats(T1, t), mats(T2, t), mats(T3, t)
            tol = ta @ abs(b) + abs(a) @ tb + tc + extra + 8 * (t + 1) * EPS
            rec.close(a @ b, c, tol, lambda: f"{what}, ell={t / 2}")

    groups = {}
    O, Ico = octahedral(), icosahedral()
    # extra rotors of the free-word family: generic, near-polar and equal-modulus generators
    gens = [rotor(0.8, 0.6, .7, -2.1), rotor(1e-9, 1.0, 2.9, 1.3), rotor(math.sqrt(1 - 1e-6), 1e-3, -.4, 3.0),
            rotor(S2, S2, 1.1, .4), rotor(1.0, 1e-16, .3, .2), rotor(.3, math.sqrt(.91), -1.0, 2.0)]
    words = {(): (1., 0., 0., 0.)}
    wedges = []
    depth = 3 if thorough else 2
    frontier = [()]
    for _ in range(depth):
        new = []
        for w in frontier:
            for g in range(len(gens)):
                v = w + (g,)
                c = np.array(qmul(words[w], gens[g]))
                words[v] = tuple(c / np.linalg.norm(c))
                wedges.append((w, g, v))
                new.append(v)
        frontier = new
    wkeys = list(words)
    wl = [words[k] for k in wkeys]
    wi = {k: i for i, k in enumerate(wkeys)}

    def warm():
        groups['O'] = (O,) + table_of(O)
        groups['I'] = (Ico,) + table_of(Ico)
        groups['W'] = (wl,) + table_of(wl)

    edges = {}
    if thorough:
        for n, T in (('O', O), ('I', Ico)):
            seen, e = bfs(range(len(T)), T)
            edges[n] = e
    else:
        seenO, eO = bfs(range(len(O)), O)
        pick = [k for k, c in enumerate(Ico) if k in (8, 30, 55, 100)]
        seenI, eI = bfs(pick, Ico)
        assert len(seenO) == 48 and len(seenI) == 120
        edges = {'O': eO, 'I': eI}
    edges['W'] = [(wi[w], wi[(g,)], wi[v]) for w, g, v in wedges]

    def run_edge(item, rec):
        n, lo, hi = item
        T, Ds, tols = groups[n]
        for i, g, j in edges[n][lo:hi]:
            rec.tr(2); rec.trace(2); rec.key((n, i)); rec.key((n, j))
            for f in (0, 1):
                judge(rec, Ds[i][f], tols[i], Ds[g][f], tols[g], Ds[j][f], tols[j],
                      f"D(P)D(R) = D(PR), P={T[i]}, R={T[g]}, {'Wigner_D_matrices' if f else 'Wigner_D_element'}", 1e-13)
            rec.outcome((n, j))
        rec.sample(f"group {n}, edges {lo}..{hi}")

    A = rotor_alphabet(1 if thorough else 0)
    A = list(A) + wl[:40]

    def run_single(item, rec):
        c = A[item]
        R = q(c)
        rec.st(); rec.tr(4); rec.trace(3)
        tol = D_tol([c], D_all([c]), D_all([c], absolute=True), ellA)[0]
        for name, f in (("Wigner_D_element", lambda r: S.Wigner_D_element(r, idx)),
                        ("Wigner_D_matrices", lambda r: S.Wigner_D_matrices(r, 0, LMAX))):
            d, di, dm = f(R), f(R.conjugate()), f(-R)
            tw = ALL if len(d) == len(idx) else ALL[::2]
            o = 0
            for t in tw:
                n = (t + 1) ** 2
                a, b, m = (x[o:o + n].reshape(t + 1, t + 1) for x in (d, di, dm))
                ta = mats(tol, t)
                rec.close(b, a.conj().T, ta + ta.T, lambda: f"{name}: D of the inverse, R={c}, ell={t / 2}")
                rec.close(m, (-1) ** t * a, 2 * ta, lambda: f"{name}: D(-R), R={c}, ell={t / 2}")
                e = ta @ abs(a).T + abs(a) @ ta.T + 8 * (t + 1) * EPS + 1e-14
                rec.close(a @ a.conj().T, np.eye(t + 1), e, lambda: f"{name}: unitarity, R={c}, ell={t / 2}")
                o += n

    def run_identity(item, rec):
        one = np.quaternion(*[float(v) for v in item])
        sign = item[0]
        rec.st(); rec.tr(2); rec.trace()
        d = S.Wigner_D_element(one, idx)
        e = np.concatenate([np.eye(t + 1).ravel() * (1 if sign > 0 else (-1) ** t) for t in ALL])
        rec.close(d, e, 1e-13, "D(+-1)")
        rec.close(S.Wigner_D_matrices(one, 0, LMAX), e[isint], 1e-13, "D(+-1), Wigner_D_matrices")

    fams = [Family("identity", [[1, 0, 0, 0], [-1, 0, 0, 0], [1, -0.0, 0, -0.0], [-1, 0, -0.0, 0]], run_identity, note="R = +1 and -1")]
    fams.append(Family("inverse_minus_unitary", list(range(len(A))), run_single, note=f"{len(A)} rotors x all ell"))
    first = True
    for n in ('O', 'I', 'W'):
        k = 16
        fams.append(Family("products_" + n, [[n, i, min(i + k, len(edges[n]))] for i in range(0, len(edges[n]), k)], run_edge,
                           warm if first else None,
                           note={'O': "binary octahedral group: all pairs", 'I': "binary icosahedral group: Cayley graph (quick) / all pairs (thorough)",
                                 'W': f"words of length <= {depth} over 6 generic / near-polar generators"}[n] + f"; {len(edges[n])} products x 65 values of ell x 2 entry points"))
        first = False
    return fams
