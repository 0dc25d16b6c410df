"""C08: the extrapolated field is a potential field with its boundary conditions."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.harness import facet, require

ORACLE = "numerical curl and divergence (complex-free high-order differences) of the returned field, and boundary and far-field relations"
RULE = ("A case is a PFSS coefficient set, radii of star and source surface, and points. The divergence and curl facet takes fourth-order central "
        "differences of the cartesian field at points strictly inside the shell; others evaluate on, inside and outside the boundaries. "
        "Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["finite differences: curl and divergence below 2e-5 of a bound on the field's gradient", "degrees up to 8 and source surfaces from 1.1 stellar radii (differences) or 20 (boundaries)", "source surfaces from 1.00001 to 10000 stellar radii",
               "orders >= 0", "the source surface lies outside the star"]


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def geometry(draw):
    rstar = draw(gen.stellar_radii())
    ratio = draw(gen.surface_ratios())
    return rstar, rstar * ratio


@st.composite
def shell(draw):
    rstar, rss = geometry(draw)
    # Differences need room between the surfaces.
    rss = max(rss, 1.1 * rstar)
    return {"c": draw(gen.coeffs(1, 0, 8, False, 1, 15)), "rstar": rstar, "rss": rss,
            "points": draw(gen.angles(1, 3)),
            "fraction": draw(st.lists(st.floats(0.03, 0.97), min_size=3, max_size=3))}


def field_xyz(obj, xyz, rstar, rss):
    from starwinds_magnetogram import pfss_magnetogram
    out = pfss_magnetogram.evaluate_cartesian(obj, xyz[:, 0], xyz[:, 1], xyz[:, 2], radius_star=rstar, radius_source_surface=rss)
    return np.stack(out[3:], axis=-1)


@facet("curl_and_divergence", shell, quick=150, thorough=20000, nontrivial=nontrivial,
       labels=lambda c: ["pole" if abs(np.sin(p[0])) < 1e-3 else "off-axis" for p in c["points"]],
       examples=[{"c": [[l, m, [1.0, 0.5]]], "rstar": 1.0, "rss": 2.5, "points": [[1.0, 0.5], [0.3, 2.0], [0.0, 0.0]], "fraction": [0.2, 0.5, 0.8]}
                 for l in range(1, 5) for m in range(l + 1)])
def curl_and_divergence(c):
    obj = gen.build(c["c"], 1)
    rstar, rss = c["rstar"], c["rss"]
    lmax = max(e[0] for e in c["c"])
    for (theta, phi), f in zip(c["points"], c["fraction"]):
        r = rstar + f * (rss - rstar)
        x0 = np.array([r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)])
        h = min(2e-3 * r / (lmax + 1), 0.4 * (r - rstar), 0.4 * (rss - r))
        offsets, weights = (-2, -1, 1, 2), (1 / 12, -2 / 3, 2 / 3, -1 / 12)
        pts = np.array([x0 + k * h * e for e in np.eye(3) for k in offsets])
        b = field_xyz(obj, pts, rstar, rss).reshape(3, 4, 3)
        require(np.all(np.isfinite(b)), "the field is not finite near %s", x0)
        grad = np.einsum("k,jki->ji", weights, b) / h        # grad[j, i] = dB_i / dx_j
        scale = np.sum([np.hypot(f_[0], f_[1]) * 2 * (l + 1) ** 2 * np.sqrt(2.0) * (rstar / r) ** (l + 2) for l, m, f_ in c["c"]]) / r
        scale += 1e-30
        div = np.trace(grad)
        curl = np.array([grad[1, 2] - grad[2, 1], grad[2, 0] - grad[0, 2], grad[0, 1] - grad[1, 0]])
        require(abs(div) <= 2e-5 * scale, "divergence %.3g (gradient scale %.3g) at r=%g theta=%g phi=%g", div, scale, r, theta, phi)
        require(np.max(np.abs(curl)) <= 2e-5 * scale, "curl %s (gradient scale %.3g) at r=%g theta=%g phi=%g", curl, scale, r, theta, phi)


@st.composite
def boundary(draw):
    rstar, rss = geometry(draw)
    return {"c": draw(gen.coeffs(1, 0, 20, False, 1, 20)), "rstar": rstar, "rss": rss, "rss2": rstar * draw(gen.surface_ratios()),
            "points": draw(gen.angles(1, 4)), "factor": draw(st.one_of(st.floats(1.0001, 30.0), st.floats(1.0001, 1.01), st.sampled_from([1e3, 1e5, 1e6]))),
            "inside": draw(st.floats(0.01, 0.999)), "f": draw(st.floats(0.05, 0.95))}


@facet("boundaries", boundary, quick=250, thorough=30000, nontrivial=nontrivial,
       labels=lambda c: ["pole" if abs(np.sin(p[0])) < 1e-3 else "off-axis" for p in c["points"]])
def boundaries(c):
    from starwinds_magnetogram import pfss_magnetogram
    obj = gen.build(c["c"], 1)
    rstar, rss = c["rstar"], c["rss"]
    theta = np.array([p[0] for p in c["points"]])
    phi = np.array([p[1] for p in c["points"]])
    one = np.ones_like(theta)

    def field(r, source=rss):
        return pfss_magnetogram.evaluate_spherical(obj, r * one, theta, phi, radius_star=rstar, radius_source_surface=source)

    scale = sum(np.hypot(f[0], f[1]) * (l + 1) * 2 for l, m, f in c["c"]) + 1e-30
    # At the stellar surface: the sum of the harmonics, whatever the source surface.
    T, _, _ = ref.schmidt(max(e[0] for e in c["c"]), theta)
    want = sum(T[(l, m)] * (f[0] * np.cos(m * phi) + f[1] * np.sin(m * phi)) for l, m, f in c["c"])
    for source in (rss, c["rss2"]):
        have = field(rstar, source)[0]
        require(gen.close(have, want, scale, 1e-7), "radial field on the star is %s, the harmonic sum is %s", have, want)
    # At the source surface: radial, and small compared with the surface.
    br, bp, ba = field(rss)
    # The size that the field has there, which can be very weak.
    weak = sum(np.hypot(f[0], f[1]) * (l + 1) * 2 * (rstar / rss) ** (l + 2) for l, m, f in c["c"]) + 1e-300
    require(gen.close(bp, 0 * bp, weak, 1e-9) and gen.close(ba, 0 * ba, weak, 1e-9), "not radial at the source surface: %s, %s, radial %s", bp, ba, br)
    require(gen.close(bp, 0 * bp, scale, 1e-12) and gen.close(ba, 0 * ba, scale, 1e-12), "not radial at the source surface: %s, %s", bp, ba)
    # Just inside, by continuity, both sides agree.
    eps = 1e-9
    near, far = field(rss * (1 - eps)), field(rss * (1 + eps))
    for name, a, b, s in zip(("radial", "polar", "azimuthal"), near, far, (br, bp, ba)):
        require(gen.close(a, s, scale, 1e-6) and gen.close(b, s, scale, 1e-6), "%s component jumps at the source surface: %s, %s, %s", name, a, s, b)
        require(gen.close(a, s, weak, 1e-6) and gen.close(b, s, weak, 1e-6), "%s component jumps at the source surface: %s, %s, %s", name, a, s, b)
    # Outside: radial with an inverse-square fall-off.
    out = field(rss * c["factor"])
    require(gen.close(out[0], br / c["factor"] ** 2, scale, 1e-12), "outside: %s, expected %s", out[0], br / c["factor"] ** 2)
    require(gen.close(out[1], 0 * br, scale, 1e-12) and gen.close(out[2], 0 * br, scale, 1e-12), "not radial outside: %s, %s", out[1], out[2])
    require(gen.close(out[1], 0 * br, weak, 1e-9) and gen.close(out[2], 0 * br, weak, 1e-9), "not radial outside: %s, %s, radial %s", out[1], out[2], out[0])
    # Relative check, since the field may be very weak there.
    big = np.max(np.abs(br))
    require(gen.close(out[0] * c["factor"] ** 2, br, big, 1e-9), "outside the fall-off is %s of %s", out[0] * c["factor"] ** 2, br)
    # Inside the star: zero.
    ins = field(rstar * c["inside"])
    require(all(np.all(v == 0) for v in ins), "the field inside the star is %s", ins)


@facet("flux_balance", boundary, quick=30, thorough=3000, nontrivial=nontrivial)
def flux_balance(c):
    """Without a monopole the flux through every sphere vanishes; with one it is the same through every sphere."""
    from starwinds_magnetogram import pfss_magnetogram
    terms = [e for e in c["c"] if e[0] <= 8] or [[1, 0, [1.0, 0.0]]]
    obj = gen.build(terms, 1)
    rstar, rss = c["rstar"], c["rss"]
    theta, phi, weight = ref.sphere_quadrature(8)
    mono = sum(f[0] for l, m, f in terms if l == 0)
    scale = sum(np.hypot(f[0], f[1]) for l, m, f in terms) * 4 * np.pi * rstar ** 2 * 20 + 1e-30
    for r in (rstar, rstar + c["f"] * (rss - rstar), rss, rss * c["factor"]):
        br, _, _ = pfss_magnetogram.evaluate_spherical(obj, r * np.ones_like(theta), theta, phi, radius_star=rstar, radius_source_surface=rss)
        flux = np.sum(br * weight) * r ** 2
        require(abs(flux - 4 * np.pi * mono * rstar ** 2) <= 1e-9 * scale, "flux %.6g through r=%g, expected %.6g", flux, r, 4 * np.pi * mono * rstar ** 2)
