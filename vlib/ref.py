"""Independent reference mathematics (numpy only).

Orthonormal associated Legendre functions with the Condon-Shortley phase,
  N_lm(theta) = sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!) P_lm(cos theta),
their derivative with respect to theta, and m N_lm / sin(theta), by recurrence in the degree starting from the
sectoral functions divided by sin(theta); no division by sin(theta) occurs, so the poles are regular points.
"""
import numpy as np


def legendre(lmax, theta):
    """Dictionaries N, dN, mN over (l, m) for -l <= m <= l."""
    theta = np.asarray(theta, dtype=float)
    x, s = np.cos(theta), np.sin(theta)
    # q[(l, m)] = N_lm / sin(theta) for m >= 1;  n0[l] = N_l0
    q = {}
    n0 = {0: np.full_like(x, np.sqrt(1 / (4 * np.pi)))}
    if lmax >= 1:
        n0[1] = np.sqrt(3.0) * x * n0[0]
    for l in range(2, lmax + 1):
        a = np.sqrt((4.0 * l * l - 1) / (l * l))
        b = np.sqrt(((l - 1.0) ** 2) / (4 * (l - 1.0) ** 2 - 1))
        n0[l] = a * (x * n0[l - 1] - b * n0[l - 2])
    for m in range(1, lmax + 1):
        if m == 1:
            q[(1, 1)] = -np.sqrt(1.5) * n0[0]
        else:
            q[(m, m)] = -np.sqrt((2 * m + 1.0) / (2 * m)) * s * q[(m - 1, m - 1)]
        for l in range(m + 1, lmax + 1):
            a = np.sqrt((4.0 * l * l - 1) / (l * l - m * m))
            b = np.sqrt(((l - 1.0) ** 2 - m * m) / (4 * (l - 1.0) ** 2 - 1))
            q[(l, m)] = a * (x * q[(l - 1, m)] - (b * q[(l - 2, m)] if l - 2 >= m else 0))
    N, dN, mN = {}, {}, {}
    for l in range(lmax + 1):
        N[(l, 0)] = n0[l]
        mN[(l, 0)] = np.zeros_like(x)
        dN[(l, 0)] = np.sqrt(l * (l + 1.0)) * s * q[(l, 1)] if l >= 1 else np.zeros_like(x)
        for m in range(1, l + 1):
            N[(l, m)] = s * q[(l, m)]
            mN[(l, m)] = m * q[(l, m)]
            lower = np.sqrt((2 * l + 1.0) / (2 * l - 1) * (l * l - m * m)) * q[(l - 1, m)] if l - 1 >= m else 0
            dN[(l, m)] = l * x * q[(l, m)] - lower
            sign = (-1) ** m
            N[(l, -m)] = sign * N[(l, m)]
            dN[(l, -m)] = sign * dN[(l, m)]
            mN[(l, -m)] = -sign * mN[(l, m)]
    return N, dN, mN


def zdi_components(terms, theta, phi):
    """
    Field of a ZDI magnetogram. terms: [(l, m, alpha, beta, gamma)].
    Returns {(direction, term): values} and the same for a bound on the magnitude of the summands.
    """
    theta, phi = np.asarray(theta, dtype=float), np.asarray(phi, dtype=float)
    lmax = max([t[0] for t in terms] + [0])
    N, dN, mN = legendre(lmax, theta)
    keys = [(d, t) for d in ("radial", "polar", "azimuthal") for t in ("poloidal", "toroidal")]
    out = {k: np.zeros(theta.shape) for k in keys}
    scale = {k: 0.0 for k in keys}
    for l, m, a, b, g in terms:
        e = np.exp(1j * m * phi)
        w = 1.0 / (l + 1)
        parts = {("radial", "poloidal"): (a * N[(l, m)], a),
                 ("polar", "poloidal"): (-b * w * dN[(l, m)], b),
                 ("azimuthal", "poloidal"): (-1j * b * w * mN[(l, m)], b),
                 ("polar", "toroidal"): (1j * g * w * mN[(l, m)], g),
                 ("azimuthal", "toroidal"): (-g * w * dN[(l, m)], g)}
        for k, (v, c) in parts.items():
            out[k] = out[k] + np.real(v * e)
            scale[k] += abs(c) * np.sqrt(2 * l + 1.0) * (1 if k[0] == "radial" else l + 1)
    return out, scale


def zdi_total(terms, theta, phi):
    parts, scale = zdi_components(terms, theta, phi)
    return tuple(parts[(d, "poloidal")] + parts[(d, "toroidal")] for d in ("radial", "polar", "azimuthal"))


def schmidt(lmax, theta):
    """Schmidt semi-normalised functions without the Condon-Shortley phase: T, dT, mT over (l, m >= 0)."""
    N, dN, mN = legendre(lmax, theta)
    out = ({}, {}, {})
    for l in range(lmax + 1):
        for m in range(l + 1):
            f = (-1) ** m * np.sqrt(4 * np.pi / (2 * l + 1.0)) * (1 if m == 0 else np.sqrt(2.0))
            for o, src in zip(out, (N, dN, mN)):
                o[(l, m)] = f * src[(l, m)]
    return out


def pfss_radial(l, r, rstar, rss):
    """R_l(r) with R_l(rss) = 0 and -R_l'(rstar) = 1, and its derivative, from the textbook solution
    R = A (r^l - rss^(2l+1) r^-(l+1)) written in scaled powers."""
    r = np.asarray(r, dtype=float)
    t = (rstar / rss) ** (2 * l + 1)
    denom = l + 1 + l * t
    inner = rstar * (rstar / r) ** (l + 1)                       # rstar^(l+2) r^-(l+1)
    growth = rstar * t * (r / rstar) ** l                         # rstar^(l+2) r^l / rss^(2l+1)
    value = (inner - growth) / denom
    deriv = (-(l + 1) * inner - l * growth) / r / denom
    return value, deriv


def pfss_field(terms, r, theta, phi, rstar, rss):
    """B = -grad(sum R Theta Phi) between the star and the source surface. terms: [(l, m, g, h)]."""
    r, theta, phi = (np.asarray(v, dtype=float) for v in (r, theta, phi))
    lmax = max([t[0] for t in terms] + [0])
    T, dT, mT = schmidt(lmax, theta)
    br, bp, ba = np.zeros(theta.shape), np.zeros(theta.shape), np.zeros(theta.shape)
    re = np.minimum(r, rss)
    for l, m, g, h in terms:
        R, dR = pfss_radial(l, re, rstar, rss)
        c = g * np.cos(m * phi) + h * np.sin(m * phi)
        d = -g * np.sin(m * phi) + h * np.cos(m * phi)
        br -= dR * T[(l, m)] * c
        bp -= R * dT[(l, m)] * c / re
        ba -= R * mT[(l, m)] * d / re
    factor = np.where(r > rss, (re / r) ** 2, 1.0)
    factor = np.where(r < rstar, 0.0, factor)
    return br * factor, bp * factor, ba * factor


def pfss_potential(terms, r, theta, phi, rstar, rss):
    theta, phi = np.asarray(theta, dtype=float), np.asarray(phi, dtype=float)
    lmax = max([t[0] for t in terms] + [0])
    T, _, _ = schmidt(lmax, theta)
    out = np.zeros(theta.shape)
    for l, m, g, h in terms:
        out += pfss_radial(l, r, rstar, rss)[0] * T[(l, m)] * (g * np.cos(m * phi) + h * np.sin(m * phi))
    return out


def unit_vectors(theta, phi):
    """Rows: e_r, e_theta, e_phi in cartesian coordinates; shape theta.shape + (3, 3)."""
    theta, phi = np.asarray(theta, dtype=float), np.asarray(phi, dtype=float)
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    z = np.zeros_like(st)
    return np.stack([np.stack([st * cp, st * sp, ct], -1),
                     np.stack([ct * cp, ct * sp, -st], -1),
                     np.stack([-sp, cp, z], -1)], -2)


def to_cartesian(br, bp, ba, theta, phi):
    e = unit_vectors(theta, phi)
    return br[..., None] * e[..., 0, :] + bp[..., None] * e[..., 1, :] + ba[..., None] * e[..., 2, :]


def sphere_quadrature(lmax):
    """Nodes and weights that integrate products of two harmonics up to degree lmax exactly."""
    n = lmax + 3
    x, w = np.polynomial.legendre.leggauss(n)
    k = 2 * lmax + 5
    phi = 2 * np.pi * np.arange(k) / k
    theta, phi = np.meshgrid(np.arccos(x), phi, indexing="ij")
    weight = np.broadcast_to((w * 2 * np.pi / k)[:, None], theta.shape)
    return theta, phi, weight
