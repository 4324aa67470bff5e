"""Reference models (oracles) and finite alphabets shared by the checks.

Nothing here uses the implementation under test.
"""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import quaternion

EPS = float(np.finfo(float).eps)
LMAX = 32                      # documented limit of the implementation
TWO_LMAX = 2 * LMAX
NERR = (ValueError, TypeError, NotImplementedError)


def sf():
    import spherical_functions
    return spherical_functions


# ---------------------------------------------------------------------------------------------------- generic data
def generic(n, seed=0.0):
    """n generic complex numbers of modulus O(1), all different, no symmetries (deterministic)"""
    k = np.arange(1, n + 1)
    a = np.modf(k * 0.6180339887498949 + 0.2137 + 0.371 * seed)[0]
    b = np.modf(k * 0.7548776662466927 + 0.5711 + 0.193 * seed)[0]
    return (0.3 + a) * np.exp(2j * np.pi * b)


def generic_array(shape, seed=0.0):
    return generic(int(np.prod(shape, dtype=int)), seed).reshape(shape)


def generic_real(shape, seed=0.0):
    return generic_array(shape, seed).real.copy()


# --------------------------------------------------------------------------------------------------------- rotors
def rotor(ra, rb, phia, phib):
    """unit quaternion with R.a = ra e^{i phia}, R.b = rb e^{i phib};   R.a = w + iz,  R.b = y + ix"""
    a = complex(ra * math.cos(phia), ra * math.sin(phia))
    b = complex(rb * math.cos(phib), rb * math.sin(phib))
    return (a.real, b.imag, b.real, a.imag)


def q(c):
    return np.quaternion(*c)


def ab(c):
    w, x, y, z = c
    return complex(w, z), complex(y, x)


def phase(k, n=8):
    """exact multiples of pi/4"""
    return 2 * math.pi * k / n


_C8 = [(1.0, 0.0), (math.sqrt(.5), math.sqrt(.5)), (0.0, 1.0), (-math.sqrt(.5), math.sqrt(.5)), (-1.0, 0.0),
       (-math.sqrt(.5), -math.sqrt(.5)), (0.0, -1.0), (math.sqrt(.5), -math.sqrt(.5))]


def rotor8(ra, rb, ka, kb):
    """as rotor, with phases multiples of pi/4 represented exactly"""
    ca, sa = _C8[ka % 8]
    cb, sb = _C8[kb % 8]
    return (ra * ca, rb * sb, rb * cb, ra * sa)


# smaller of |R.a|, |R.b|: exactly zero, around the special-case threshold 1e-15, tiny, small, moderate, equal
SMALL = [0.0, 1e-200, 1e-30, 1e-17, 5e-16, 9.9e-16, 1.01e-15, 2e-15, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4,
         1e-3, 1e-2, 0.03, 0.07, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.68, 0.7, 0.705]
S2 = math.sqrt(0.5)


@functools.lru_cache(None)
def rotor_alphabet(level=1):
    """level 0: ~40 rotors, one or two per regime; level 1: ~330; level 2: ~2000"""
    out = []
    seen = set()

    def add(c):
        c = tuple(float(v) for v in c)
        key = tuple(np.array(c).tobytes())
        if key not in seen:
            seen.add(key)
            out.append(c)
    moduli = [(math.sqrt(1 - s * s), s) for s in SMALL] + [(s, math.sqrt(1 - s * s)) for s in SMALL] + [(S2, S2)]
    gph = [(0.7, -2.1), (2.9, 1.3), (-0.4, 3.0), (-2.2, -0.9)]
    if level == 0:
        add((1, 0, 0, 0))
        add((-1, 0, 0, 0))
        add((0, 1, 0, 0))
        add((0, 0, 1, 0))
        add((0, 0, 0, 1))
        add((0, 0, -1, 0))
        add((.5, .5, .5, .5))
        add((.5, -.5, .5, -.5))
        for i, (a, b) in enumerate(moduli):
            if i % 2 == 0 or min(a, b) in (0.0, S2):
                add(rotor(a, b, *gph[i % 4]))
        add(rotor8(S2, S2, 0, 0))
        add(rotor8(S2, S2, 3, 6))
        add(rotor8(0.8, 0.6, 2, 4))
        add(rotor8(0.6, 0.8, 4, 7))
        return out
    nk = 8
    for a, b in moduli:
        for p in gph[: (2 if level == 1 else 4)]:
            add(rotor(a, b, *p))
    for a, b in [(1.0, 0.0), (0.0, 1.0)]:
        for k in range(nk):
            for j in range(nk if level > 1 else 1):
                add(rotor8(a, b, k, j) if b == 0 else rotor8(a, b, j, k))
    for a, b in [(S2, S2), (0.8, 0.6), (0.6, 0.8)]:
        for k in range(nk):
            for j in range(nk):
                if level > 1 or a == b or (k + j) % 2 == 0:
                    add(rotor8(a, b, k, j))
    if level > 1:
        for a, b in moduli:
            for k, j in itertools.product((0, 2, 3, 4, 7), repeat=2):
                add(rotor8(a, b, k, j))
    for signs in itertools.product((.5, -.5), repeat=4):
        add(signs)
    for i in range(40 if level == 1 else 200):
        v = generic(2, 3.7 + i)
        c = np.array([v[0].real, v[0].imag, v[1].real, v[1].imag])
        add(c / np.linalg.norm(c))
    return out


# -------------------------------------------------------------------------------------------------------- D oracle
LD = np.longdouble
CLD = np.clongdouble


def D_half_steps(rotors, two_lmax, absolute=False):
    """Generator over twoell = 0..two_lmax of D^{ell}, shape (len(rotors), 2ell+1, 2ell+1), rows mp, columns m ascending.

    Spin-1/2 coupling recursion in extended precision (80-bit): D^j is the top component of D^{j-1/2} (x) D^{1/2}.
    With absolute=True the sum of the absolute values of all terms (condition number) is returned.
    """
    c = np.array(rotors, dtype=LD).reshape(-1, 4)
    Ra = c[:, 0] + 1j * c[:, 3].astype(CLD)
    Rb = c[:, 2] + 1j * c[:, 1].astype(CLD)
    if absolute:
        pp, mm, mpl, pm = abs(Ra), abs(Ra), abs(Rb), abs(Rb)
        dt = LD
    else:
        pp, mm, mpl, pm = Ra, Ra.conj(), Rb, -Rb.conj()
        dt = CLD
    P = np.ones((len(c), 1, 1), dtype=dt)
    yield P
    for tj in range(1, two_lmax + 1):
        i = np.arange(tj + 1, dtype=LD)
        cp = np.sqrt(i / tj)
        cm = np.sqrt((tj - i) / tj)
        N = np.zeros((len(c), tj + 1, tj + 1), dtype=dt)
        N[:, 1:, 1:] += cp[1:, None] * cp[None, 1:] * P * pp[:, None, None]
        N[:, 1:, :-1] += cp[1:, None] * cm[None, :-1] * P * pm[:, None, None]
        N[:, :-1, 1:] += cm[:-1, None] * cp[None, 1:] * P * mpl[:, None, None]
        N[:, :-1, :-1] += cm[:-1, None] * cm[None, :-1] * P * mm[:, None, None]
        P = N
        yield P


def D_all(rotors, two_lmax=TWO_LMAX, absolute=False, twoells=None):
    """Flattened D for the given twoell (default: all), in order (ell, mp, m); shape (len(rotors), total)"""
    want = None if twoells is None else set(twoells)
    parts = [M.reshape(M.shape[0], -1) for t, M in enumerate(D_half_steps(rotors, two_lmax, absolute))
             if want is None or t in want]
    return np.concatenate(parts, axis=1)


def indices_all(twoells):
    return np.array([[t / 2, a / 2, b / 2] for t in twoells for a in range(-t, t + 1, 2) for b in range(-t, t + 1, 2)])


@functools.lru_cache(None)
def ell_of(twoells):
    return np.concatenate([np.full((t + 1) ** 2, t / 2) for t in twoells])


def D_tol(rotors, ref, cond, ell):
    """Forward error allowed to a double-precision evaluation: rounding of the sum, proportional to the sum of the absolute
    values of its terms (its condition number); phases and powers, relative to |D|; and the documented flushing of |R.a| or
    |R.b| <= 1e-15 to zero"""
    c = np.array(rotors, dtype=float).reshape(-1, 4)
    small = np.minimum(np.hypot(c[:, 0], c[:, 3]), np.hypot(c[:, 1], c[:, 2]))
    flush = np.where(small < 2e-15, 1e-13, 1e-15)[:, None]
    return flush + (50 * ell + 60) * EPS * np.abs(np.asarray(ref, dtype=complex)) + (4 * ell + 20) * EPS * np.asarray(cond, dtype=float)


# ----------------------------------------------------------------------------------------------------- SWSH oracle
@functools.lru_cache(None)
def _swsh_consts(lmax):
    return np.array([math.sqrt((2 * l + 1) / (4 * math.pi)) for l in range(lmax + 1)])


def SWSH_all(rotors, spins, lmax, absolute=False):
    """dict s -> array (len(rotors), (lmax+1)^2): sYlm(R) = (-1)^s sqrt((2l+1)/4pi) D^l_{m,-s}(R), zero for l<|s|"""
    n = len(np.array(rotors).reshape(-1, 4))
    out = {s: np.zeros((n, (lmax + 1) ** 2), dtype=LD if absolute else CLD) for s in spins}
    k = _swsh_consts(lmax)
    for t, M in enumerate(D_half_steps(rotors, 2 * lmax, absolute)):
        if t % 2:
            continue
        l = t // 2
        for s in spins:
            if abs(s) <= l:
                out[s][:, l * l:(l + 1) ** 2] = (1 if absolute or s % 2 == 0 else -1) * k[l] * M[:, :, l - s]
    return out


def LM(lmin, lmax):
    return [(l, m) for l in range(lmin, lmax + 1) for m in range(-l, l + 1)]


@functools.lru_cache(None)
def ell_lm(lmax):
    return np.array([l for l, m in LM(0, lmax)], dtype=float)


# ------------------------------------------------------------------------------------------------------ 3-j oracle
@functools.lru_cache(1 << 20)
def _w3j(j1, j2, j3, m1, m2):
    m3 = -m1 - m2
    J = j1 + j2 + j3
    a, b, c = J - 2 * j3, J - 2 * j2, J - 2 * j1
    comb = math.comb
    S = 0
    for k in range(max(0, j1 - m1 - b, j2 + m2 - c), min(a, j1 - m1, j2 + m2) + 1):
        t = comb(a, k) * comb(b, j1 - m1 - k) * comb(c, j2 + m2 - k)
        S += -t if k % 2 else t
    if S == 0:
        return 0.0
    num = comb(2 * j1, a) * comb(2 * j2, a) * S * S
    den = (comb(J + 1, a) * (2 * j3 + 1) * comb(2 * j1, j1 - m1) * comb(2 * j2, j2 - m2) * comb(2 * j3, j3 - m3))
    # correctly scaled square root of a rational with huge terms
    sh = max(0, 130 - (num.bit_length() - den.bit_length()))
    sh += sh % 2
    r = math.isqrt((num << sh) // den)
    v = math.ldexp(float(r >> max(0, r.bit_length() - 64)), max(0, r.bit_length() - 64) - sh // 2)
    return v if (S > 0) == ((j1 - j2 - m3) % 2 == 0) else -v


def w3j(j1, j2, j3, m1, m2, m3):
    """Exact (integer arithmetic, rounded once) Wigner 3-j symbol for integer arguments"""
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or j3 > j1 + j2 or j3 < abs(j1 - j2):
        return 0.0
    return _w3j(j1, j2, j3, m1, m2)


def clebsch(j1, m1, j2, m2, j3, m3):
    if m1 + m2 != m3:
        return 0.0
    return (-1) ** ((j1 - j2 + m3) % 2) * math.sqrt(2 * j3 + 1) * w3j(j1, j2, j3, m1, m2, -m3)


# ----------------------------------------------------------------------------- reference algebra on mode dictionaries
def ref_product(f, lf, s_f, g, lg, s_g, lmax=None):
    """Modes (from ell=0) of the pointwise product, by 3-j symbols; f, g: 1-d arrays from ell=0 (length (l+1)^2)"""
    L = lf + lg if lmax is None else lmax
    out = np.zeros((L + 1) ** 2, dtype=complex)
    T = product_tensor(lf, s_f, lg, s_g, L)
    for (i, j, k, v) in T:
        out[k] += v * f[i] * g[j]
    return out


@functools.lru_cache(4096)
def product_tensor(lf, s_f, lg, s_g, L):
    s = s_f + s_g
    res = []
    for l1, m1 in LM(abs(s_f), lf):
        for l2, m2 in LM(abs(s_g), lg):
            m = m1 + m2
            for l3 in range(max(abs(m), abs(l1 - l2), abs(s)), min(l1 + l2, L) + 1):
                v = ((-1) ** ((l1 + l2 + l3 + s + m) % 2) * math.sqrt((2 * l1 + 1) * (2 * l2 + 1) * (2 * l3 + 1) / (4 * math.pi))
                     * w3j(l1, l2, l3, s_f, s_g, -s) * w3j(l1, l2, l3, m1, m2, -m))
                if v:
                    res.append((l1 * l1 + l1 + m1, l2 * l2 + l2 + m2, l3 * l3 + l3 + m, v))
    return res


@functools.lru_cache(4096)
def product_arrays(lf, s_f, lg, s_g, L):
    T = product_tensor(lf, s_f, lg, s_g, L)
    if not T:
        z = np.zeros(0, dtype=int)
        return z, z, z, np.zeros(0)
    a = np.array(T)
    return a[:, 0].astype(int), a[:, 1].astype(int), a[:, 2].astype(int), a[:, 3]


def ref_multiply(f, lf, s_f, g, lg, s_g, L):
    """as ref_product, for arrays of any leading shape (broadcast)"""
    i, j, k, v = product_arrays(lf, s_f, lg, s_g, L)
    shape = np.broadcast_shapes(f.shape[:-1], g.shape[:-1])
    fb = np.broadcast_to(f, shape + f.shape[-1:]).reshape(-1, f.shape[-1])
    gb = np.broadcast_to(g, shape + g.shape[-1:]).reshape(-1, g.shape[-1])
    out = np.zeros((fb.shape[0], (L + 1) ** 2), dtype=complex)
    for r in range(fb.shape[0]):
        w = v * fb[r, i] * gb[r, j]
        out[r] = (np.bincount(k, w.real, minlength=out.shape[1]) + 1j * np.bincount(k, w.imag, minlength=out.shape[1]))
    return out.reshape(shape + (out.shape[1],))


def ref_conjugate(f, l, s):
    """modes of the conjugate function (spin -s): (-1)^{s+m} conj(f_{l,-m})"""
    out = np.zeros_like(f)
    for (el, m) in LM(abs(s), l):
        out[..., el * el + el + m] = (-1) ** ((s + m) % 2) * np.conjugate(f[..., el * el + el - m])
    return out


def ref_zero_low(f, s):
    f = np.array(f, dtype=complex)
    f[..., :min(f.shape[-1], s * s)] = 0
    return f


def theta_phi_rotor(theta, phi):
    """rotor of the point (theta, phi): exp(phi z/2) exp(theta y/2)"""
    ct, st, cp, sp = math.cos(theta / 2), math.sin(theta / 2), math.cos(phi / 2), math.sin(phi / 2)
    return (ct * cp, -st * sp, st * cp, ct * sp)


def grid_SWSH(n_theta, n_phi, s, lmax):
    """sYlm at the points of the equiangular grid: (n_theta*n_phi, (lmax+1)^2), complex128"""
    small = n_theta * n_phi * (lmax + 1) ** 2 < 200000
    return (_grid_SWSH if small else _grid_SWSH.__wrapped__)(n_theta, n_phi, s, lmax)


@functools.lru_cache(None)
def _grid_SWSH(n_theta, n_phi, s, lmax):
    R = [theta_phi_rotor(math.pi * i / (n_theta - 1) if n_theta > 1 else 0.0, 0.0) for i in range(n_theta)]
    Y = SWSH_all(R, [s], lmax)[s]
    m = np.array([m for l, m in LM(0, lmax)])
    E = np.exp(2j * np.pi * LD(1) * ((np.arange(n_phi)[:, None] * m[None, :]) % n_phi) / n_phi)     # e^{i m phi_j}
    out = np.empty((n_theta, n_phi, len(m)), dtype=complex)
    for i in range(n_theta):
        out[i] = Y[i] * E
    return out.reshape(n_theta * n_phi, -1)


def ref_grid(f, s, lmax, n_theta, n_phi):
    return (f @ grid_SWSH(n_theta, n_phi, s, lmax).T).reshape(f.shape[:-1] + (n_theta, n_phi))


# --------------------------------------------------------------------------------------------------------- utilities
def same(a, b):
    """bitwise identical arrays/values (nan == nan)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


# numbers of items next to powers of two and round numbers: where a rewrite would split the work into blocks
SIZES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
DEEP = [(2, 1, 3, 2), (1, 2, 1, 2, 3), (3, 17), (17, 3), (2, 64), (65, 2)]
