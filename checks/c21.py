"""C21: spherical and cartesian coordinates and vectors convert both ways."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "round trips in both directions and the definition of the local unit vectors"
RULE = ("A case is 1-8 points (special positions on the axes, near the poles and the azimuth jump, the origin, and general positions over many decades) with an array shape, and vectors at them; integer coordinates of several types. "
        "Non-trivial: at least one point that is not on a coordinate axis.")
ASSUMPTIONS = ["coordinates are arrays, lists or numbers, floating point or integer", "coordinates of one point differ in size by less than 1e9 and stay between 1e-210 and 1e210"]


def coordinate():
    return st.one_of(st.floats(-1, 1, allow_nan=False, allow_subnormal=False).map(lambda v: 0.0 if abs(v) < 1e-8 else v), st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-8, -1e-8]))


@st.composite
def points(draw):
    pts = []
    for _ in range(draw(st.integers(1, 8))):
        s = 10.0 ** draw(st.sampled_from([0, 0, 0, 0, 8, -8, 50, -50, 200, -200]))
        pts.append([s * draw(coordinate()) for _ in range(3)])
    pts = draw(gen.crowd(pts, 10, relative=True))
    return {"pts": pts, "shape": draw(st.sampled_from(["flat", "column", "block"])), "memory": draw(st.sampled_from(gen.MEMORY))}


def arranged(values, shape):
    values = np.array(values, dtype=float)
    if shape == "column":
        return values.reshape(-1, 1)
    if shape == "block" and len(values) % 2 == 0:
        return values.reshape(2, -1)
    return values


def labels(c):
    yield c["shape"]
    for p in c["pts"]:
        n = sum(x != 0 for x in p)
        yield ["origin", "axis", "plane", "general"][n]


@facet("points", points, quick=400, thorough=40000, nontrivial=lambda c: any(sum(x != 0 for x in p) > 1 for p in c["pts"]), labels=labels,
       examples=[{"pts": [[0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -2.0], [-1.0, 0.0, 0.0], [-1.0, -0.0, 0.0], [0.0, 3.0, 0.0]], "shape": "flat"}])
def points_round_trip(c):
    from starwinds_magnetogram import coordinate_transforms as ct
    x, y, z = gen.relay_all([arranged([p[i] for p in c["pts"]], c["shape"]) for i in range(3)], c.get("memory", "c"))
    kept = x.copy(), y.copy(), z.copy()
    r, t, p = primed(ct.spherical_coordinates_from_rectangular, x, y, z)
    require(all(np.array_equal(a, b) for a, b in zip(kept, (x, y, z))), "the coordinates passed in were modified")
    require(r.shape == t.shape == p.shape == x.shape, "shapes %s %s %s for points of shape %s", r.shape, t.shape, p.shape, x.shape)
    require(np.all(np.isfinite(r)) and np.all(np.isfinite(t)) and np.all(np.isfinite(p)), "not finite")
    require(np.all(r >= 0) and np.all((t >= 0) & (t <= np.pi)) and np.all((p >= -np.pi) & (p <= np.pi)), "out of range: %s %s %s", r, t, p)
    want_r = np.hypot(np.hypot(x, y), z)
    require(np.all(np.abs(r - want_r) <= 1e-12 * want_r), "radius %s, expected %s", r, want_r)
    off = np.hypot(x, y) > 0
    require(np.all(np.abs(np.sin(p) * np.hypot(x, y) - y)[off] <= 1e-12 * want_r[off]) and np.all(np.abs(np.cos(p) * np.hypot(x, y) - x)[off] <= 1e-12 * want_r[off]), "azimuth %s", p)
    inside = want_r > 0
    # The arc cosine loses half of the digits near the poles.
    want_t = np.arctan2(np.hypot(x, y), z)
    tol = 1e-12 / np.maximum(np.abs(np.sin(want_t)), 1e-6) * 1.0
    require(np.all((np.abs(t - want_t) <= np.maximum(tol, 0) + 3e-8 * (np.abs(np.sin(want_t)) < 1e-6))[inside]), "polar angle %s, expected %s", t, want_t)
    bx, by, bz = ct.rectangular_coordinates_from_spherical(r, t, p)
    for a, b, name in ((bx, x, "x"), (by, y, "y"), (bz, z, "z")):
        require(np.all(np.abs(a - b) <= 3e-8 * want_r), "%s is %s after conversion and back, was %s", name, a, b)
        general = np.abs(np.sin(want_t)) > 1e-3
        require(np.all((np.abs(a - b) <= 1e-11 * want_r)[general & inside]), "%s is %s after conversion and back, was %s", name, a, b)
    require(all(np.all(np.asarray(b)[~inside] == 0) for b in (bx, by, bz)), "the origin is moved")


@st.composite
def axis_case(draw):
    return {"pts": [[draw(st.sampled_from([1.0, -1.0])) * 10.0 ** draw(st.integers(-3, 3)), 10.0 ** draw(st.integers(-100, -2)), draw(st.one_of(st.floats(-3.14, 3.14), st.sampled_from([0.0, np.pi / 2, -np.pi / 2, 3.0])))]
                    for _ in range(draw(st.integers(1, 5)))], "scalar": draw(st.booleans())}


@facet("next_to_axis", axis_case, quick=80, thorough=5000, labels=lambda c: ["north" if p[0] > 0 else "south" for p in c["pts"]],
       examples=[{"pts": [[z, d, a] for a in (0.3, -2.0, 3.0)], "scalar": scalar} for z in (1.0, -1.0) for d in (1e-3, 1e-8, 1e-10, 1e-14, 1e-20) for scalar in (True, False)])
def next_to_axis(c):
    """The azimuth is defined by the other two coordinates, however small they are."""
    from starwinds_magnetogram import coordinate_transforms as ct
    z, d, a = np.array(c["pts"]).T
    x, y = d * np.cos(a), d * np.sin(a)
    if c["scalar"]:
        r, t, p = (np.ravel(v) for v in ct.spherical_coordinates_from_rectangular(float(x[0]), float(y[0]), float(z[0])))
        z, d, a = z[:1], d[:1], a[:1]
    else:
        r, t, p = ct.spherical_coordinates_from_rectangular(x, y, z)
    turn = (p - a) / (2 * np.pi)
    require(np.all(np.abs(turn - np.round(turn)) <= 1e-12), "azimuth %s, expected %s", p, a)
    require(np.all(np.abs(r - np.hypot(d, z)) <= 1e-12 * np.abs(z)), "radius %s, expected %s", r, np.abs(z))
    require(np.all(np.abs(t - np.arctan2(d, z)) <= 3e-8), "polar angle %s, expected %s", t, np.arctan2(d, z))


def sphericals():
    item = st.tuples(st.sampled_from([1.0, 1.0, 2.5, 1e-3, 1e9, 0.0]), st.one_of(st.floats(0, np.pi, allow_nan=False), st.sampled_from([0.0, np.pi, np.pi / 2, 0.01, 3.13])),
                     st.one_of(st.floats(-np.pi, np.pi, allow_nan=False), st.sampled_from([0.0, np.pi, -np.pi, np.pi / 2]), st.floats(-10, 10, allow_nan=False), st.floats(-200, 200, allow_nan=False)))
    return st.fixed_dictionaries({"pts": st.lists(item.map(list), min_size=1, max_size=6).flatmap(lambda pts: gen.crowd(pts, 8, lambda p: [max(p[0], 0.0), min(max(p[1], 0.0), np.pi), p[2]])), "shape": st.sampled_from(["flat", "column", "block"]), "memory": st.sampled_from(gen.MEMORY)})


@facet("spherical", sphericals, quick=300, thorough=30000, nontrivial=lambda c: any(p[0] > 0 and 0.01 < p[1] < 3.13 for p in c["pts"]), labels=lambda c: [c["shape"]])
def spherical(c):
    from starwinds_magnetogram import coordinate_transforms as ct
    r, t, p = gen.relay_all([arranged([q[i] for q in c["pts"]], c["shape"]) for i in range(3)], c.get("memory", "c"))
    kept = r.copy(), t.copy(), p.copy()
    x, y, z = primed(ct.rectangular_coordinates_from_spherical, r, t, p)
    require(all(np.array_equal(a, b) for a, b in zip(kept, (r, t, p))), "the coordinates passed in were modified")
    for got, want, name in ((x, r * np.sin(t) * np.cos(p), "x"), (y, r * np.sin(t) * np.sin(p), "y"), (z, r * np.cos(t), "z")):
        require(np.shape(got) == r.shape and np.all(np.abs(got - want) <= 1e-13 * r), "%s is %s, expected %s", name, got, want)
    br, bt, bp = ct.spherical_coordinates_from_rectangular(x, y, z)
    good = (r > 0) & (np.sin(t) > 5e-3)
    require(np.all(np.abs(br - r) <= 1e-12 * r), "radius %s returns as %s", r, br)
    require(np.all((np.abs(bt - t) <= 1e-10)[good]), "polar angle %s returns as %s", t, bt)
    turn = (bp - p) / (2 * np.pi)
    require(np.all((np.abs(turn - np.round(turn)) <= 1e-10)[good]), "azimuth %s returns as %s", p, bp)
    # Scalars as well.
    one = ct.rectangular_coordinates_from_spherical(1.0, float(t.flat[0]), float(p.flat[0]))
    require(abs(one[0] ** 2 + one[1] ** 2 + one[2] ** 2 - 1) < 1e-12, "a unit vector has other length")


@facet("vectors", sphericals, quick=300, thorough=30000, nontrivial=lambda c: any(0.01 < p[1] < 3.13 for p in c["pts"]), labels=lambda c: ["n=%d" % min(3, len(c["pts"]))])
def vectors(c):
    from starwinds_magnetogram import coordinate_transforms as ct
    t, p = gen.relay_all([np.array([q[i] for q in c["pts"]]) for i in (1, 2)], c.get("memory", "c"))
    kept = t.copy(), p.copy()
    out = primed(ct.spherical_to_rectangular_transformation_matrix, t, p)
    back = primed(ct.rectangular_to_spherical_transformation_matrix, t, p)
    require(np.array_equal(kept[0], t) and np.array_equal(kept[1], p), "the angles passed in were modified")
    require(out.shape == back.shape == (len(t), 3, 3), "shapes %s %s", out.shape, back.shape)
    st_, ct_, sp, cp = np.sin(t), np.cos(t), np.sin(p), np.cos(p)
    unit = {"radial": np.stack((st_ * cp, st_ * sp, ct_), -1), "polar": np.stack((ct_ * cp, ct_ * sp, -st_), -1), "azimuthal": np.stack((-sp, cp, 0 * sp), -1)}
    for i, name in enumerate(unit):
        require(np.all(np.abs(out[:, :, i] - unit[name]) < 1e-14), "the %s column is %s, expected %s", name, out[:, :, i], unit[name])
        require(np.all(np.abs(back[:, i, :] - unit[name]) < 1e-14), "the %s row is %s, expected %s", name, back[:, i, :], unit[name])
    eye = np.eye(3)
    require(np.all(np.abs(out @ back - eye) < 1e-13) and np.all(np.abs(back @ out - eye) < 1e-13), "the matrices are not inverse")
    require(np.all(np.abs(np.linalg.det(out) - 1) < 1e-13) and np.all(np.abs(np.linalg.det(back) - 1) < 1e-13), "the matrices are not right-handed")
    a, b = ct.spherical_to_rectangular_transformation_matrix(float(t[0]), float(p[0])), ct.rectangular_to_spherical_transformation_matrix(float(t[0]), float(p[0]))
    require(a.shape == b.shape == (1, 3, 3) and np.allclose(a[0], out[0], rtol=0, atol=1e-14) and np.allclose(b[0], back[0], rtol=0, atol=1e-14), "scalar angles give another matrix")


@facet("many_points", lambda: st.fixed_dictionaries({"count": st.sampled_from([200, 1000, 3000, 6000]), "seed": st.integers(0, 10 ** 6), "shape": st.sampled_from(["flat", "column", "block"]),
                                                     "memory": st.sampled_from(gen.MEMORY), "what": st.sampled_from(["cartesian", "spherical", "vectors"])}),
       quick=15, thorough=600, labels=lambda c: [c["what"]],
       examples=[{"count": 20000, "seed": 1, "shape": "flat", "memory": "c", "what": w} for w in ("cartesian", "spherical", "vectors")])
def many_points(c):
    """Thousands of points at once."""
    rng = np.random.default_rng(c["seed"])
    k = c["count"]
    if c["what"] == "cartesian":
        pts = rng.normal(size=(k, 3)) * 10.0 ** rng.integers(-8, 9, (k, 1))
        pts[::53, rng.integers(3)] = 0.0
        pts[::211, :2] = 0.0
    else:
        pts = np.stack((rng.uniform(0.1, 9, k), rng.uniform(0, np.pi, k), rng.uniform(-7, 14, k)), -1)
        pts[::211, 1] = 0.0
    {"cartesian": points_round_trip, "spherical": spherical, "vectors": vectors}[c["what"]]({"pts": pts.tolist(), "shape": c["shape"], "memory": c["memory"]})


@st.composite
def whole(draw):
    kind, top = draw(st.sampled_from([["int64", 2 * 10 ** 9], ["int64", 2 ** 53], ["int32", 2 ** 31 - 1], ["int16", 2 ** 15 - 1], ["int8", 127], ["list", 10 ** 12], ["int", 10 ** 15], ["float", 10 ** 6]]))
    number = st.one_of(st.integers(-top, top), st.integers(-9, 9), st.sampled_from([0, 1, -1, top, -top]))
    return {"kind": kind, "pts": [[draw(number) for _ in range(3)] for _ in range(1 if kind in ("int", "float") else draw(st.integers(1, 6)))]}


@facet("whole", whole, quick=150, thorough=10000, nontrivial=lambda c: any(sum(x != 0 for x in p) > 1 for p in c["pts"]), labels=lambda c: [c["kind"]])
def whole_numbers(c):
    """Integer coordinates, lists and single points convert as floating point arrays do."""
    from starwinds_magnetogram import coordinate_transforms as ct
    want = ct.spherical_coordinates_from_rectangular(*np.array(c["pts"], dtype=float).T)
    columns = [list(x) for x in zip(*c["pts"])]
    if c["kind"] in ("int", "float"):
        columns = [{"int": int, "float": float}[c["kind"]](x[0]) for x in columns]
        want = [w[0] for w in want]
    elif c["kind"] != "list":
        columns = [np.array(x, dtype=c["kind"]) for x in columns]
    got = ct.spherical_coordinates_from_rectangular(*columns)
    for g, w, name in zip(got, want, ("radius", "polar angle", "azimuth")):
        require(np.shape(g) == np.shape(w) and np.all(np.abs(np.asarray(g) - w) <= 1e-12 * np.maximum(np.abs(w), 1e-300)), "%s %s of %s, with floating point %s", name, g, columns, w)
    points = np.array(c["pts"], dtype=float)
    back = np.stack([np.ravel(b) for b in ct.rectangular_coordinates_from_spherical(*got)], -1)
    require(np.all(np.abs(back - points) <= 3e-8 * np.hypot(np.hypot(points[:, :1], points[:, 1:2]), points[:, 2:])), "%s returns as %s", columns, back)
