"""C09: the extrapolated field has the right value at every point, in any layout."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "independent reference evaluation, layout and linearity relations, spherical against cartesian evaluation"
RULE = ("A case is a PFSS coefficient set, stellar and source surface radii (default or generated), 1-6 points (poles, near-polar, shell, outside), "
        "and an array layout. Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["agreement to 1e-7 of the sum of coefficient magnitudes times degree, to a relative one where the field is weak far out", "source surfaces from 1.00001 to 10000 stellar radii", "degrees up to 30 in most facets, up to 110 (and orders up to 60 above degree 84) in one", "orders >= 0"]


@st.composite
def case(draw, lmax=10):
    default = draw(st.booleans())
    rstar = 1.0 if default else draw(gen.stellar_radii())
    ratio = 2.5 if default else draw(gen.surface_ratios())
    pts = draw(gen.angles(1, 6))
    radius = st.one_of(st.floats(0.0, 1.0).map(lambda f: 1 + f * (ratio - 1)), st.just(1.0), st.just(ratio),
                       st.floats(1.0, 40.0), st.floats(0.3, 1.0), st.sampled_from([1e-6, 0.01, 1e3, 1e6]))
    radii = [draw(radius) for _ in pts]
    if len(radii) > 1 and not draw(st.integers(0, 3)):
        k = draw(st.integers(1, len(radii) - 1))
        radii[k] = radii[k - 1] * (1 + draw(st.sampled_from(gen.STEPS)))
    return {"c": draw(gen.coeffs(1, 0, lmax, False, 1, 25)), "default": default, "rstar": rstar, "ratio": ratio,
            "points": [[r] + p for r, p in zip(radii, pts)]}


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def labels(c):
    yield "default-radii" if c["default"] else "given-radii"
    for r, t, p in c["points"]:
        yield "inside" if r < 1 else "star" if r == 1 else "shell" if r < c["ratio"] else "outside"
        yield "pole" if abs(np.sin(t)) < 1e-3 else "off-axis"


def arrays(c):
    if "count" in c:
        rng = np.random.default_rng(c["seed"])
        r, theta, phi = rng.uniform(0.7, 1.5 * c["ratio"], c["count"]), rng.uniform(0, np.pi, c["count"]), rng.uniform(-3, 7, c["count"])
        r[::5], r[1::7], theta[::97] = 1.0, c["ratio"], 0.0
        return r * c["rstar"], theta, phi
    pts = np.array(c["points"], dtype=float)
    if "pool" in c:
        pts = np.stack([pts[:, i][np.array(w).reshape(c["pool"]["shape"])] for i, w in enumerate(c["pool"]["which"])], -1)
        return pts[..., 0] * c["rstar"], pts[..., 1], pts[..., 2]
    return pts[:, 0] * c["rstar"], pts[:, 1], pts[:, 2]


def kwargs(c):
    return {} if c["default"] else {"radius_star": c["rstar"], "radius_source_surface": c["rstar"] * c["ratio"]}


def scale_of(c):
    return sum(np.hypot(f[0], f[1]) * (l + 1) * 2 for l, m, f in c["c"]) + 1e-30


def value(c):
    from starwinds_magnetogram import pfss_magnetogram
    obj = gen.build(c["c"], 1)
    r, theta, phi = arrays(c)
    have = primed(pfss_magnetogram.evaluate_spherical, obj, r, theta, phi, **kwargs(c))
    want = ref.pfss_field(gen.terms_pfss(c["c"]), r, theta, phi, c["rstar"], c["rstar"] * c["ratio"])
    # Points rounded onto a boundary belong to either side.
    edge = (np.abs(r / c["rstar"] - 1) < 1e-12)
    for name, h, w in zip(("radial", "polar", "azimuthal"), have, want):
        require(np.all(np.isfinite(h)), "%s component is not finite: %s", name, h)
        h, w = h[~edge | (r == c["rstar"])], w[~edge | (r == c["rstar"])]
        require(gen.close(h, w, scale_of(c), 1e-7), "%s: %s, expected %s", name, h, w)
        # Far from the star the field is weak, and right nevertheless.
        far = weak(c, r)[~edge | (r == c["rstar"])]
        require(np.all(np.abs(h - w) <= 1e-7 * far), "%s: %s, expected %s", name, h, w)


def weak(c, r):
    """The size that the field has at the given radii."""
    f = np.maximum(r / c["rstar"], 1.0)
    g = np.minimum(f, c["ratio"])
    return sum(np.hypot(v[0], v[1]) * (l + 1) * 2 * (1 / g) ** (l + 2) for l, m, v in c["c"]) * (g / f) ** 2 + 1e-300


@facet("value", case, quick=350, thorough=40000, nontrivial=nontrivial, labels=labels,
       examples=[{"c": [[l, m, [1.0, -0.5]]], "default": True, "rstar": 1.0, "ratio": 2.5,
                  "points": [[1.0, 0.0, 0.3], [1.5, np.pi, 2.0], [1.2, 1.1, 4.0], [4.0, 0.4, 5.0]]}
                 for l in range(5) for m in range(l + 1)] +
       [{"c": [[l, m, [1.0, -0.5]]], "default": False, "rstar": r, "ratio": q, "points": [[1.0, 0.3, 0.3], [1 + (q - 1) / 3, 2.0, 2.0], [q, 1.1, 4.0], [3 * q, 0.4, 5.0], [1e5 * q, 2.4, -50.0]]}
        for l, m in ((1, 1), (3, 2)) for r, q in ((6.957e8, 2.5), (1e-6, 3.0), (1.0, 1.00001), (1.0, 1.003), (2.0, 5000.0))])
def value_facet(c):
    value(c)


@facet("high_degree", lambda: case(30), quick=25, thorough=3000, nontrivial=nontrivial, labels=labels,
       examples=[{"c": gen.one_degree(l, scale=s), "default": True, "rstar": 1.0, "ratio": 2.5,
                  "points": [[1.0, 0.0, 0.3], [1.5, np.pi, 2.0], [1.2, 1.1, 4.0], [2.0, 2.2, 1.0], [4.0, 0.4, 5.0], [1.0, 0.9, 2.0], [1.01, 1.8, 5.5]]} for l in range(31) for s in ((1.0, 1e-12) if l % 6 == 1 else (1.0,))])
def high_degree(c):
    value(c)


@st.composite
def very_high_case(draw):
    c = draw(case(2))
    top = draw(st.integers(31, 110))
    seed = draw(st.integers(0, 10 ** 6))
    rng = np.random.default_rng(seed)
    pairs = sorted({(int(l), int(rng.integers(0, min(l, 84 if l <= 84 else 60) + 1))) for l in rng.integers(0, top + 1, draw(st.integers(1, 12)))} | {(top, min(top, 60))})
    c["c"] = [[l, m, [float(v) for v in np.round(rng.normal(size=2), 6)]] for l, m in pairs]
    # The highest degrees are confined to the surface.
    c["points"] = [[draw(st.sampled_from([1.0, 1.0, 1.001, 1.01, 1.1]))] + p[1:] for p in c["points"]]
    return c


SURFACE = [[1.0, 0.0, 0.3], [1.0, 0.9, 2.0], [1.01, 1.8, 5.5], [1.0, 1.5, 1.0], [1.0, np.pi, 0.0], [1.0, 3.0, 4.0], [1.0, 0.02, 4.0]]


@facet("very_high_degree", very_high_case, quick=25, thorough=1500, nontrivial=nontrivial, labels=lambda c: ["degree=%d" % (max(e[0] for e in c["c"]) // 20 * 20)],
       examples=[{"c": gen.one_degree(l), "default": True, "rstar": 1.0, "ratio": 2.5, "points": SURFACE} for l in range(36, 85, 6)] +
       [{"c": gen.one_degree(l)[:61], "default": True, "rstar": 1.0, "ratio": 2.5, "points": SURFACE} for l in (86, 90, 100, 110)] +
       [{"c": [[l, m, [1.0, -0.5]]], "default": True, "rstar": 1.0, "ratio": 2.5, "points": SURFACE} for l, m in ((86, 80), (90, 78), (100, 71), (110, 61), (120, 52))])
def very_high_degree(c):
    """Degrees that the magnetograms of the Sun have."""
    value(c)


@st.composite
def layout_case(draw):
    c = draw(case())
    n = len(c["points"])
    c["order"] = draw(st.permutations(list(range(n))))
    c["shape"] = draw(st.sampled_from(["column", "row", "cube", "four", "scalar", "broadcast", "block", "block", "flat", "grid"]))
    c["memory"] = draw(st.sampled_from(gen.MEMORY))
    c["repeat"] = draw(st.integers(1, 3))
    return c


@facet("layout", layout_case, quick=200, thorough=20000, nontrivial=nontrivial, labels=lambda c: [c["shape"], "memory:" + c["memory"]])
def layout(c):
    from starwinds_magnetogram import pfss_magnetogram
    obj = gen.build(c["c"], 1)
    r, theta, phi = arrays(c)
    scale = scale_of(c)
    singly = [pfss_magnetogram.evaluate_spherical(obj, r[i:i + 1], theta[i:i + 1], phi[i:i + 1], **kwargs(c)) for i in range(len(r))]
    base = np.array([[v[k][0] for v in singly] for k in range(3)])
    order = np.array(c["order"])
    kind = c["shape"]

    def evaluate(*points):
        return primed(pfss_magnetogram.evaluate_spherical, obj, *points, **kwargs(c))

    if kind == "scalar":
        out = evaluate(float(r[0]), float(theta[0]), float(phi[0]))
        got, want = np.array([np.ravel(o) for o in out]), base[:, :1]
    elif kind == "broadcast":
        out = evaluate(float(r[0]), theta, phi)
        want = np.array([[pfss_magnetogram.evaluate_spherical(obj, r[:1], theta[i:i + 1], phi[i:i + 1], **kwargs(c))[k][0]
                          for i in range(len(r))] for k in range(3)])
        got = np.array(out)
    elif kind == "grid":
        # A meshgrid of all polar and azimuth values at one radius, one direction per row.
        tt, pp = np.meshgrid(theta, phi, indexing="ij")
        rr = r[0] * np.ones_like(tt)
        out = evaluate(*gen.relay_all([rr, tt, pp], c["memory"]))
        require(all(o.shape == tt.shape for o in out), "shapes %s", [o.shape for o in out])
        got = np.array([[o[i, i] for i in range(len(r))] for o in out])
        want = np.array([[pfss_magnetogram.evaluate_spherical(obj, r[:1], theta[i:i + 1], phi[i:i + 1], **kwargs(c))[k][0]
                          for i in range(len(r))] for k in range(3)])
    else:
        idx = np.concatenate([np.tile(order, c["repeat"]), np.tile(order[::-1], c["repeat"])])
        shape = {"column": (len(idx), 1), "row": (1, len(idx)), "cube": (2, c["repeat"], len(order)), "four": (2, 1, c["repeat"], len(order)),
                 "block": (2, len(idx) // 2), "flat": (len(idx),)}[kind]
        pts = gen.relay_all([v[idx].reshape(shape) for v in (r, theta, phi)], c["memory"])
        out = evaluate(*pts)
        require(all(o.shape == shape for o in out), "points of shape %s give shapes %s", shape, [o.shape for o in out])
        got = np.array([o.ravel() for o in out])
        want = base[:, idx]
    require(gen.close(got, want, scale, 1e-10), "layout %s gives %s, point by point %s", kind, got, want)


@st.composite
def edge_case(draw):
    c = draw(case(6))
    c["c"] = [[l, m, f] for l, m, f in c["c"]] + ([] if any(e[0] == 1 and e[1] == 0 for e in c["c"]) else [[1, 0, [3.0, 0.0]]])
    edge = st.sampled_from([1.0, c["ratio"]])
    c["points"] = [[draw(edge) * (1 + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([1e-11, 1e-10, 1e-9, 1e-8, 1e-6, 1e-4, 1e-3])))] + p[1:] for p in c["points"]]
    return c


@st.composite
def pool_case(draw):
    """Points whose coordinates take only two values each, so that rows, columns or all of them can be alike."""
    c = draw(case(6))
    shape = draw(st.sampled_from([[2, 2], [2, 3], [3, 2], [3, 3], [2, 2, 2], [1, 4], [4, 1], [6]]))
    c["points"], c["pool"] = (c["points"] * 2)[:2], {"shape": shape, "which": [draw(st.lists(st.integers(0, 1), min_size=int(np.prod(shape)), max_size=int(np.prod(shape)))) for _ in range(3)]}
    return c


@facet("alike", pool_case, quick=60, thorough=5000, nontrivial=nontrivial, labels=lambda c: ["shape %s" % c["pool"]["shape"]],
       examples=[{"c": [[1, 1, [1.0, -0.5]], [2, 1, [-1.0, 0.5]]], "default": True, "rstar": 1.0, "ratio": 2.5, "points": [[1.2, 1.1, 0.4], [1.9, 2.0, 3.0]], "pool": {"shape": [2, 2], "which": which}}
                 for which in ([[0, 1, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]], [[0, 0, 0, 1], [0, 1, 1, 0], [0, 0, 0, 1]], [[0, 0, 1, 0], [0, 1, 0, 0], [0, 1, 1, 0]], [[0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 0, 1]])])
def alike(c):
    value(c)


@facet("edges", edge_case, quick=60, thorough=5000, nontrivial=nontrivial, labels=lambda c: [("inside" if p[0] < 1 else "star" if p[0] < 1.1 else "surface") + " by %.0e" % min(abs(p[0] - 1), abs(p[0] / c["ratio"] - 1)) for p in c["points"]],
       examples=[{"c": [[1, 0, [1.0, -0.5]], [2, 1, [-1.0, 0.5]]], "default": True, "rstar": 1.0, "ratio": 2.5, "points": [[r * (1 + d), 1.1, 0.4] for r in (1.0, 2.5)]} for d in (1e-10, -1e-10, 1e-9, -1e-9, 1e-7, -1e-7)])
def edges(c):
    """Right next to the star's surface and the source surface: nothing inside the star, the field everywhere else."""
    from starwinds_magnetogram import pfss_magnetogram
    obj = gen.build(c["c"], 1)
    r, theta, phi = arrays(c)
    x, y, z = r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)
    cartesian = pfss_magnetogram.evaluate_cartesian(obj, x, y, z, **kwargs(c))
    for name, got in (("spherical", pfss_magnetogram.evaluate_spherical(obj, r, theta, phi, **kwargs(c))), ("cartesian", cartesian[3:6])):
        got = np.array(got)
        inside = r < c["rstar"]
        require(not np.any(got[:, inside]), "%s: %s inside the star", name, got[:, inside])
        want = ref.pfss_field(gen.terms_pfss(c["c"]), r, theta, phi, c["rstar"], c["rstar"] * c["ratio"])
        want = np.array(want if name == "spherical" else ref.to_cartesian(*want, theta, phi).T)
        require(gen.close(got[:, ~inside], want[:, ~inside], scale_of(c), 1e-7), "%s: %s, expected %s", name, got, want)


@facet("cartesian", layout_case, quick=200, thorough=20000, nontrivial=nontrivial, labels=labels)
def cartesian(c):
    from starwinds_magnetogram import pfss_magnetogram
    obj = gen.build(c["c"], 1)
    r, theta, phi = arrays(c)
    xyz = [r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)]
    kind = c["shape"]
    idx = np.concatenate([np.tile(c["order"], c["repeat"]), np.tile(c["order"][::-1], c["repeat"])])
    if kind == "grid":
        # A lattice of every combination of the coordinates, one direction per axis.
        xyz = [v.ravel() for v in np.meshgrid(*(v[:2] + 1e-3 * c["rstar"] for v in xyz), indexing="ij")]
        idx = np.arange(len(xyz[0]))
    n = len(idx)
    shape = {"column": (n, 1), "row": (1, n), "cube": (2, n // 2, 1), "four": (2, 1, n // 2, 1), "block": (2, n // 2), "grid": (min(2, len(r)),) * 3}.get(kind, (n,))
    xyz = [v[idx] for v in xyz]
    args = gen.relay_all([v.reshape(shape) for v in xyz], c["memory"])
    shape = args[0].shape
    if kind == "scalar":
        out = [np.atleast_1d(o) for o in pfss_magnetogram.evaluate_cartesian(obj, *(float(v[0]) for v in xyz), **kwargs(c))]
        xyz, shape = [v[:1] for v in xyz], (1,)
    else:
        out = primed(pfss_magnetogram.evaluate_cartesian, obj, *args, **kwargs(c))
    require(len(out) == 6 and all(o.shape == shape for o in out), "shapes %s for points of shape %s", [o.shape for o in out], shape)
    out = [o.ravel() for o in out]
    require(all(np.all(np.isfinite(o)) for o in out), "not finite: %s", out)
    # Away from region boundaries, compare with the reference at the exact point; vectors do not depend on the azimuth on the axis.
    rho = np.sqrt(xyz[0] ** 2 + xyz[1] ** 2 + xyz[2] ** 2)
    sure = (np.abs(rho / c["rstar"] - 1) > 1e-9)
    th, ph = np.arctan2(np.hypot(xyz[0], xyz[1]), xyz[2]), np.arctan2(xyz[1], xyz[0])
    want = ref.pfss_field(gen.terms_pfss(c["c"]), rho, th, ph, c["rstar"], c["rstar"] * c["ratio"])
    wxyz = ref.to_cartesian(*want, th, ph)
    scale = scale_of(c) * max(1.0, max(e[0] for e in c["c"]))
    for k in range(3):
        require(gen.close(out[3 + k][sure], wxyz[sure, k], scale, 1e-6), "cartesian component %d is %s, expected %s", k, out[3 + k], wxyz[:, k])
    # The six outputs describe one vector.
    e = ref.unit_vectors(th, ph)
    again = out[0][:, None] * e[:, 0] + out[1][:, None] * e[:, 1] + out[2][:, None] * e[:, 2]
    have = np.stack(out[3:], -1)
    require(gen.close(have, again, scale, 1e-6), "spherical components %s do not match cartesian ones %s", again, have)


@st.composite
def linear_case(draw):
    c = draw(case())
    c["d"] = draw(gen.coeffs(1, 0, 10))
    c["k"] = draw(gen.small_float(5.0))
    return c


@facet("linear", linear_case, quick=150, thorough=15000, nontrivial=lambda c: gen.nonzero_count(c["c"]) and gen.nonzero_count(c["d"]))
def linear(c):
    from starwinds_magnetogram import pfss_magnetogram
    a, b = gen.table(c["c"]), gen.table(c["d"])
    keys = list(b) + [k for k in a if k not in b]
    mixed = []
    for k in keys:
        z = a.get(k, np.zeros(1, complex))[0] + c["k"] * b.get(k, np.zeros(1, complex))[0]
        mixed.append([k[0], k[1], [z.real, z.imag]])
    points = arrays(c)
    fa, fb, fm = (pfss_magnetogram.evaluate_spherical(gen.build(x, 1), *points, **kwargs(c)) for x in (c["c"], c["d"], mixed))
    scale = scale_of(c) + abs(c["k"]) * scale_of({"c": c["d"]})
    for name, x, y, z in zip(("radial", "polar", "azimuthal"), fa, fb, fm):
        require(gen.close(z, x + c["k"] * y, scale, 1e-10), "%s: %s, expected %s", name, z, x + c["k"] * y)


@st.composite
def big_case(draw):
    c = draw(case(2))
    c["c"] = draw(gen.big_coeffs(1, 0, 30))
    return c


@facet("large_sets", big_case, quick=10, thorough=1000, nontrivial=nontrivial, labels=labels)
def large_sets(c):
    value(c)


@st.composite
def many_case(draw):
    c = draw(case(6))
    c.update({"count": draw(st.sampled_from([300, 1200, 2600, 5200, 10400])), "columns": draw(st.sampled_from([1, 1, 2, 50])), "seed": draw(st.integers(0, 10 ** 6))})
    return c


@facet("many_points", many_case, quick=12, thorough=800, nontrivial=nontrivial, labels=lambda c: ["points=%d" % c["count"]],
       examples=[{"c": gen.full_set(1, 0, 4, False, 5), "points": [[1.0, 1.0, 1.0]], "default": True, "rstar": 1.0, "ratio": 2.5, "count": k, "columns": w, "seed": k}
                 for k, w in ((6000, 1), (12000, 100), (40000, 200))])
def many_points(c):
    """Thousands of points at once, spherical and cartesian."""
    from starwinds_magnetogram import pfss_magnetogram
    value(c)
    obj = gen.build(c["c"], 1)
    r, theta, phi = arrays(c)
    shape = (len(r) // c["columns"], c["columns"]) if c["columns"] > 1 else (len(r),)
    have = pfss_magnetogram.evaluate_spherical(obj, *(v.reshape(shape) for v in (r, theta, phi)), **kwargs(c))
    flat = pfss_magnetogram.evaluate_spherical(obj, r, theta, phi, **kwargs(c))
    require(all(h.shape == shape and gen.close(h.ravel(), f, scale_of(c), 1e-10) for h, f in zip(have, flat)), "%d points in rows of %d give another field", len(r), c["columns"])
    xyz = [v.reshape(shape) for v in (r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta))]
    sure = (np.abs(r / c["rstar"] - 1) > 1e-9)
    out = [o.ravel()[sure] for o in pfss_magnetogram.evaluate_cartesian(obj, *xyz, **kwargs(c))]
    want = ref.to_cartesian(*(f[sure] for f in flat), theta[sure], phi[sure])
    lmax = max(e[0] for e in c["c"])
    for k in range(3):
        require(gen.close(out[3 + k], want[:, k], scale_of(c) * max(1, lmax), 1e-6), "cartesian component %d of %d points is wrong", k, len(r))
