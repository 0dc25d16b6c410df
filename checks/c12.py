"""C12: rotating a magnetogram rotates its field rigidly."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "metamorphic relation between the fields before and after an independently computed rotation matrix; group laws; conserved power"
RULE = ("A case is a coefficient set with 1-3 complex, real or integer components (positive and negative orders, degrees 0-8, up to 14, or one degree up to 32) and one or two rotations given as Euler angles or as a "
        "unit quaternion. Non-trivial: a nonzero coefficient of degree >= 1 and a rotation that is not the identity.")
ASSUMPTIONS = ["the rotation turns the coordinate axes: the field at azimuth phi moves to phi - alpha for a rotation by alpha about z",
               "unit quaternions", "agreement to 1e-8 of the sum of coefficient magnitudes times degree"]


def angle():
    return st.one_of(st.floats(-360, 360, allow_nan=False), st.floats(-2000, 2000, allow_nan=False), st.sampled_from([0.0, 90.0, 180.0, -90.0, 45.0, 30.0, 360.0, 1e-7, 450.0, -540.0, 720.0, 1080.0]))


@st.composite
def rotation(draw):
    if draw(st.booleans()):
        return {"euler": [draw(angle()) for _ in range(3)]}
    q = [draw(st.one_of(st.floats(-1, 1, allow_nan=False), st.sampled_from([0.0, 1.0, 0.0]))) for _ in range(4)]
    n = float(np.sqrt(sum(v * v for v in q)))
    return {"quaternion": [v / n for v in q] if n > 1e-3 else [1.0, 0.0, 0.0, 0.0]}


@st.composite
def case(draw, lmax=6, rotations=1):
    n = draw(st.sampled_from([1, 3, 3, 2]))
    return {"n": n, "c": draw(gen.coeffs(n, 0, lmax, draw(st.booleans()), 1, 20)), "points": draw(gen.angles(1, 4)),
            "rotations": [draw(rotation()) for _ in range(rotations)], "kind": draw(st.sampled_from(["complex", "complex", "real", "int"]))}


def typed(c):
    """The coefficients, real or whole numbers for the sets of those types."""
    kind = c.get("kind", "complex")
    if kind == "complex":
        return c["c"]
    part = (lambda v: v) if kind == "real" else lambda v: float(np.clip(np.round(v), -1e9, 1e9))
    return [[l, m, [0.0 if i % 2 else part(v) for i, v in enumerate(f)]] for l, m, f in c["c"]]


def build(c, table):
    obj = gen.build(table, c["n"])
    kind = c.get("kind", "complex")
    if kind == "complex":
        return obj
    from starwinds_magnetogram import coefficients as shc
    l, m, v = obj.as_arrays()
    return shc.from_arrays(l, m, v.real.astype(float if kind == "real" else int))


def Rz(t):
    return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.0]])


def Ry(t):
    return np.array([[np.cos(t), 0, np.sin(t)], [0, 1.0, 0], [-np.sin(t), 0, np.cos(t)]])


def matrix(r):
    if "euler" in r:
        a, b, g = np.deg2rad(r["euler"])
        return Rz(a) @ Ry(b) @ Rz(g)
    w, x, y, z = r["quaternion"]
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def to_quaternion(r):
    import quaternion
    if "euler" in r:
        return quaternion.from_euler_angles(np.deg2rad(r["euler"]))
    return quaternion.quaternion(*r["quaternion"])


def rotate(obj, r):
    from starwinds_magnetogram import rotate as rm
    if "euler" in r:
        if obj.size % 2:
            return primed(rm.rotate_magnetogram_euler_zyz_deg, obj, np.array(r["euler"], dtype=float))
        return rm.rotate_magnetogram_euler_zyz_deg(obj, r["euler"])
    return rm.rotate_magnetogram(obj, to_quaternion(r))


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1) and any(np.abs(matrix(r) - np.eye(3)).max() > 1e-3 for r in c["rotations"])


def labels(c):
    for r in c["rotations"]:
        yield "euler" if "euler" in r else "quaternion"
    yield "components=%d" % c["n"]
    yield c.get("kind", "complex")
    yield "negative-orders" if any(e[1] < 0 for e in c["c"]) else "positive-orders"


def magnitude(c):
    return sum(np.abs(f).sum() * (l + 1) * 2 for l, m, f in c["c"]) + 1e-30


def field(table, xyz):
    theta = np.arctan2(np.hypot(xyz[:, 0], xyz[:, 1]), xyz[:, 2])
    phi = np.arctan2(xyz[:, 1], xyz[:, 0])
    terms = [(l, m) + tuple(list(v) + [0j] * (3 - len(v))) for (l, m), v in table.items()]
    comps = ref.zdi_total(terms, theta, phi)
    return ref.to_cartesian(*comps, theta, phi)


def run(c):
    c = dict(c, c=typed(c))
    obj = build(c, c["c"])
    before = gen.snapshot(obj)
    r = c["rotations"][0]
    out = rotate(obj, r)
    require(gen.same_snapshot(before, gen.snapshot(obj)), "the original changed")
    require(out.default_coefficients.shape == (c["n"],), "%s components", out.default_coefficients.shape)
    got = gen.contents(out)
    scale = magnitude(c)
    M = matrix(r)
    theta, phi = np.array(c["points"]).T
    x = ref.unit_vectors(theta, phi)[:, 0]
    y = x @ M                                   # the inverse rotation applied to each point
    have, want = field(got, y), field(gen.table(c["c"]), x) @ M
    require(gen.close(have, want, scale, 1e-8), "rotated field %s, expected %s", have, want)
    # Each component rotates by itself, and power is conserved degree by degree.
    source = gen.table(c["c"])
    for l in range(max(k[0] for k in source) + 1):
        for k in range(c["n"]):
            a = sum(abs(v[k]) ** 2 for key, v in source.items() if key[0] == l)
            b = sum(abs(v[k]) ** 2 for key, v in got.items() if key[0] == l)
            require(abs(a - b) <= 1e-9 * (a + b) + 1e-25 * scale ** 2, "power of degree %d component %d goes from %r to %r", l, k, a, b)
    require(all(not np.any(v) for key, v in got.items() if key[0] > max(k[0] for k in source)), "higher degrees appear")


@facet("field", case, quick=150, thorough=15000, nontrivial=nontrivial, labels=labels)
def field_facet(c):
    run(c)


@st.composite
def near_case(draw):
    """The same set rotated again and again by nearly the same rotation, or a few turns more."""
    c = draw(case(6))
    base = c["rotations"][0]
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.sampled_from([1e-7, 1e-5, 1e-4, 1e-3, 3e-3, 0.01, 0.04, 0.1])) * draw(st.sampled_from([1, -1]))
        k = draw(st.integers(0, 3))
        if "euler" in base:
            turn = draw(st.sampled_from([0, 0, 0, 0, 90, 180, 360, 720]))
            angles = list(base["euler"])
            angles[k % 3] += np.rad2deg(d) + turn
            c["rotations"].append({"euler": angles})
        else:
            q = np.array(base["quaternion"])
            q[k] += d
            q = q / np.sqrt(np.sum(q ** 2)) * draw(st.sampled_from([1, 1, -1]))
            c["rotations"].append({"quaternion": [float(v) for v in q]})
    return c


@facet("near_rotations", near_case, quick=40, thorough=3000, nontrivial=nontrivial, labels=labels)
def near_rotations(c):
    for r in c["rotations"]:
        run(dict(c, rotations=[r]))


@facet("high_degree", lambda: case(14), quick=15, thorough=600, nontrivial=nontrivial, labels=labels)
def high_degree(c):
    run(c)


@st.composite
def single_degree(draw):
    l = draw(st.integers(9, 32))
    m = draw(st.lists(st.integers(-l, l), min_size=1, max_size=6, unique=True))
    n = draw(st.sampled_from([1, 3]))
    return {"n": n, "c": [[l, k, [draw(gen.small_float(5.0)) for _ in range(2 * n)]] for k in m], "points": draw(gen.angles(1, 3)), "rotations": [draw(rotation())], "kind": "complex"}


@facet("degrees", single_degree, quick=10, thorough=400, nontrivial=nontrivial, labels=lambda c: ["degree=%d" % c["c"][0][0]],
       examples=[{"n": 1, "c": [[l, m, [1.0 + abs(m) % 3, -0.5 * (m % 2)]] for m in range(-l, l + 1)], "points": [[1.1, 0.4], [2.0, 5.0], [0.2, 3.0]], "rotations": [{"euler": [20.0, 50.0, -70.0]}], "kind": "complex"}
                 for l in range(9, 33)] +
                [{"n": 1, "c": c, "points": [[1.1, 0.4], [2.0, 5.0], [0.2, 3.0]], "rotations": [{"quaternion": q}], "kind": "complex"}
                 for q in ([-1.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, -1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, -1.0], [0.0, 0.0, 0.0, 1.0])
                 for c in ([[1, 0, [1.0, 0.0]]], [[2, 1, [1.0, -0.5]]], [[1, -1, [1.0, 2.0]], [3, 2, [0.5, 0.0]]])])
def degrees(c):
    """Elements of one degree up to the largest degree the rotation library offers."""
    run(c)


def same(a, b, scale, what):
    keys = set(a) | set(b)
    for k in keys:
        require(k in a and k in b or not np.any(a.get(k, b.get(k))), "%s: element %s appears in one set only", what, k)
        if k in a and k in b:
            require(gen.close(a[k], b[k], scale, 1e-9), "%s: element %s is %s, expected %s", what, k, a[k], b[k])


@facet("group", lambda: case(5, 2), quick=120, thorough=10000, nontrivial=nontrivial, labels=labels)
def group(c):
    c = dict(c, c=typed(c))
    obj = build(c, c["c"])
    scale = magnitude(c)
    first, second = c["rotations"]
    identity = rotate(obj, {"euler": [0.0, 0.0, 0.0]})
    source = gen.table(c["c"])
    got = gen.contents(identity)
    for k, v in got.items():
        require(gen.close(v, source.get(k, np.zeros(c["n"], complex)), scale, 1e-12), "identity changes %s", k)
    require(set(source) <= set(got), "identity drops elements")
    q1, q2 = to_quaternion(first), to_quaternion(second)
    both = gen.contents(rotate(rotate(obj, first), second))
    from starwinds_magnetogram import rotate as rm
    once = gen.contents(rm.rotate_magnetogram(obj, q1 * q2))
    same(both, once, scale, "composition")
    back = gen.contents(rm.rotate_magnetogram(rotate(obj, first), q1.inverse()))
    for k, v in back.items():
        require(gen.close(v, source.get(k, np.zeros(c["n"], complex)), scale, 1e-9), "rotation and inverse: %s is %s, was %s", k, v, source.get(k))
    # Euler angles and the equivalent inverse.
    if "euler" in first:
        a, b, g = first["euler"]
        undone = gen.contents(rotate(rotate(obj, first), {"euler": [-g, -b, -a]}))
        for k, v in undone.items():
            require(gen.close(v, source.get(k, np.zeros(c["n"], complex)), scale, 1e-9), "inverse Euler angles: %s is %s, was %s", k, v, source.get(k))


@facet("linear", lambda: case(5, 1), quick=60, thorough=4000, nontrivial=nontrivial)
def linear(c):
    """Components and elements do not mix: rotating a part gives the part of the rotation."""
    r = c["rotations"][0]
    scale = magnitude(c)
    whole = gen.contents(rotate(gen.build(c["c"], c["n"]), r))
    for k in range(c["n"]):
        part = gen.contents(rotate(gen.build([[l, m, f[2 * k:2 * k + 2]] for l, m, f in c["c"]], 1), r))
        require(set(part) == set(whole), "elements differ")
        for key, v in part.items():
            require(gen.close(v, whole[key][k:k + 1], scale, 1e-10), "component %d alone gives %s at %s, in the set %s", k, v, key, whole[key])
