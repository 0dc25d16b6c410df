"""C20: facets tile the sphere."""
import hypothesis.strategies as st
import numpy as np

from vlib.harness import facet, require

ORACLE = "exact spherical areas and coordinates computed from the corner positions; subdivision of facets"
RULE = ("A case is a grid (numbers of corners, or explicit strictly increasing or decreasing corner positions covering all or part of the sphere) and viewing directions (of lengths 1e-200 to 1e200; arrays, integer arrays, lists). "
        "Non-trivial: at least 2 by 2 facets.")
ASSUMPTIONS = ["corner positions are strictly monotonic, polar within 0 to pi", "viewing directions are non-zero vectors of 3 numbers"]


# The type of integer directions and a factor.
WHOLE = [["list", 1], ["tuple", 10 ** 6], ["int64", 1], ["int64", 10 ** 10], ["int32", 10 ** 5], ["int8", 13], ["float32", 1]]


def increasing(lo, hi, full):
    @st.composite
    def corners(draw):
        n = draw(st.integers(1, 8))
        steps = np.array(draw(st.lists(st.floats(0.02, 1.0), min_size=n, max_size=n)))
        pos = np.concatenate(([0.0], np.cumsum(steps))) / np.sum(steps)
        if full:
            a, b = lo, hi
        else:
            a = draw(st.floats(lo, lo + 0.8 * (hi - lo)))
            small = draw(st.sampled_from([None, None, None, None, 1e-2, 1e-4]))
            b = draw(st.floats(a + 0.1 * (hi - lo), hi)) if small is None else a + small
        out = a + (b - a) * pos
        out[0], out[-1] = a, b
        return [float(x) for x in out]
    return corners()


def fine(n, top):
    """Many corners, uneven distances apart."""
    x = np.cumsum(np.random.default_rng(n).uniform(0.2, 1, n))
    return [float(v) for v in (x - x[0]) / (x[-1] - x[0]) * top]


@st.composite
def grids(draw):
    kind = draw(st.sampled_from(["counts", "count", "explicit", "explicit", "part", "part"]))
    dirs = draw(st.lists(st.tuples(st.floats(-1, 1), st.floats(-1, 1), st.floats(-1, 1), st.one_of(st.integers(-6, 6), st.sampled_from([-200, -160, 160, 200]))).filter(
        lambda d: max(abs(x) for x in d[:3]) > 1e-2), min_size=1, max_size=3))
    base = {"kind": kind, "dirs": [list(d) for d in dirs], "whole": draw(st.one_of(st.none(), st.tuples(st.lists(st.integers(-9, 9), min_size=3, max_size=3).filter(any).map(list),
            st.sampled_from(WHOLE)).map(list))), "count_type": draw(st.sampled_from(["int", "int", "int64", "int32"]))}
    if kind == "counts":
        return dict(base, p=draw(st.integers(2, 20)), a=draw(st.integers(2, 30)))
    if kind == "count":
        return dict(base, p=draw(st.integers(2, 16)), a=None)
    part = kind == "part"
    shift = draw(st.sampled_from([0.0, 0.0, -np.pi, 1.0])) if part else 0.0
    p = draw(increasing(0.0, np.pi, not part))
    a = draw(increasing(0.0, 2 * np.pi * (1 - 1e-12), not part)) if part else draw(increasing(0.0, 2 * np.pi, True))
    down = draw(st.sampled_from([[False, False], [False, False], [True, False], [False, True], [True, True]]))
    a = [x + shift for x in a]
    return dict(base, p=p[::-1] if down[0] else p, a=a[::-1] if down[1] else a)


def make(c):
    from starwinds_magnetogram.geometry import ZdiGeometry
    if c["kind"] == "default":
        return ZdiGeometry(), np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)
    number = {"int": int}.get(c.get("count_type", "int")) or getattr(np, c["count_type"])
    if c["kind"] == "counts":
        return ZdiGeometry(number(c["p"]), number(c["a"])), np.linspace(0, np.pi, c["p"]), np.linspace(0, 2 * np.pi, c["a"])
    if c["kind"] == "count":
        return ZdiGeometry(number(c["p"])), np.linspace(0, np.pi, c["p"]), np.linspace(0, 2 * np.pi, 2 * c["p"])
    p, a = np.array(c["p"]), np.array(c["a"])
    return ZdiGeometry(p.copy(), a.copy()), p, a


def order(c):
    return ["%s polar, %s azimuths" % tuple("decreasing" if isinstance(x, list) and x[-1] < x[0] else "increasing" for x in (c.get("p"), c.get("a")))]


def near(a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def size(c):
    return (64, 129) if c["kind"] == "default" else (c["p"] - 1, (c["a"] or 2 * c["p"]) - 1) if c["kind"] in ("count", "counts") else (len(c["p"]) - 1, len(c["a"]) - 1)


@facet("tiling", grids, quick=250, thorough=25000, nontrivial=lambda c: min(size(c)) >= 2, labels=lambda c: [c["kind"]] + order(c),
       examples=[{"kind": "default", "dirs": [[1.0, 0.0, 0.0, 0], [0.0, 0.0, -1.0, 3]]}, {"kind": "count", "p": 65, "a": None, "dirs": [[0.3, -0.2, 0.7, 0]]}] +
       [{"kind": "counts", "p": p, "a": a, "dirs": [[0.3, -0.2, 0.7, 0]], "count_type": t} for p, a, t in ((200, 520, "int"), (700, 12, "int64"), (5, 1500, "int32"), (182, 362, "int"))] +
       [{"kind": "explicit", "p": fine(p, np.pi), "a": fine(a, 2 * np.pi), "dirs": [[-0.3, 0.2, 0.7, 0]]} for p, a in ((300, 10), (7, 600), (190, 400))])
def tiling(c):
    grid, p, a = make(c)
    P, A = np.meshgrid(p, a)
    cp, ca = grid.corners()
    require(near(cp, P) and near(ca, A), "corners are not the corner positions")
    require(tuple(grid.shape) == P.shape, "shape %s", grid.shape)
    areas = grid.areas()
    exact = np.abs(np.outer(np.diff(a), np.cos(p[:-1]) - np.cos(p[1:])))
    require(areas.shape == exact.shape and np.all(areas > 0), "areas of shape %s, smallest %s", areas.shape, np.min(areas))
    require(near(areas, exact, 1e-13), "areas differ from the exact areas by up to %s", np.max(np.abs(areas - exact)))
    region = abs((a[-1] - a[0]) * (np.cos(p[0]) - np.cos(p[-1])))
    require(abs(np.sum(areas) - region) <= 1e-12 * 4 * np.pi, "areas sum to %.15g, the region is %.15g", np.sum(areas), region)
    mp, ma = grid.centers()
    MP, MA = np.meshgrid((p[:-1] + p[1:]) / 2, (a[:-1] + a[1:]) / 2)
    require(near(mp, MP) and near(ma, MA), "centers are not in the middle of the corners")

    def xyz(pp, aa):
        return np.stack((np.sin(pp) * np.cos(aa), np.sin(pp) * np.sin(aa), np.cos(pp)), axis=-1)

    require(near(np.stack(grid.corners_cartesian(), axis=-1), xyz(P, A)), "cartesian corners differ")
    require(near(np.stack(grid.centers_cartesian(), axis=-1), xyz(MP, MA)), "cartesian centers differ")
    normals = grid.unit_normals()
    require(near(normals, xyz(MP, MA)), "normals differ from the outward unit vectors through the centers")
    # Arrays that were returned are the caller's, who can do anything with them.
    for out in (areas, mp, ma, normals) + tuple(grid.centers_cartesian()) + tuple(grid.corners_cartesian()) + (grid.projected_visible_area_fraction(np.array([0.3, -1.0, 0.2])),):
        if out.flags.writeable:
            out[...] = -77.0
    areas, (mp, ma), normals = grid.areas(), grid.centers(), grid.unit_normals()
    require(near(areas, exact, 1e-13) and near(mp, MP) and near(ma, MA) and near(normals, xyz(MP, MA)) and near(np.stack(grid.centers_cartesian(), axis=-1), xyz(MP, MA))
            and near(np.stack(grid.corners_cartesian(), axis=-1), xyz(P, A)), "areas, centers, normals or cartesian coordinates are others after the returned arrays were overwritten")
    for x, y, z, e in c["dirs"]:
        d = np.array([x, y, z])
        unit = d / np.sqrt(np.dot(d, d))
        cosine = normals @ unit
        want = np.where(cosine > 0, cosine, 0)
        given = d * 10.0 ** e
        kept = given.copy()
        got = grid.projected_visible_area_fraction(given)
        require(near(got, want), "visible fraction differs by up to %s for direction %s", np.max(np.abs(got - want)), given)
        require(np.array_equal(given, kept), "the direction was modified")
    if c.get("whole"):
        numbers, (kind, factor) = c["whole"]
        numbers = [x * factor for x in numbers]
        unit = np.array(numbers, dtype=float) / np.linalg.norm(np.array(numbers, dtype=float))
        given = numbers if kind == "list" else tuple(numbers) if kind == "tuple" else np.array(numbers, dtype=kind)
        got = grid.projected_visible_area_fraction(given)
        cosine = normals @ unit
        require(near(got, np.where(cosine > 0, cosine, 0), 1e-5 if kind == "float32" else 1e-12), "visible fraction %s for direction %r", got, given)


@facet("subdivision", lambda: grids().filter(lambda c: c["kind"] in ("explicit", "part")), quick=80, thorough=5000, nontrivial=lambda c: min(size(c)) >= 2)
def subdivision(c):
    from starwinds_magnetogram.geometry import ZdiGeometry
    grid, p, a = make(c)

    def halve(x):
        out = np.sort(np.concatenate((x, (x[:-1] + x[1:]) / 2)))
        return out if x[-1] > x[0] else out[::-1]

    fine = ZdiGeometry(halve(p), halve(a)).areas()
    coarse = fine[::2, ::2] + fine[1::2, ::2] + fine[::2, 1::2] + fine[1::2, 1::2]
    require(near(coarse, grid.areas()), "the areas of four subfacets do not add up to the facet")
    # The disc seen from any direction covers pi on a fine grid of the whole sphere.
    x, y, z, _ = c["dirs"][0]
    full = ZdiGeometry(40, 80)
    seen = np.sum(full.areas() * full.projected_visible_area_fraction(np.array([x, y, z])))
    require(abs(seen - np.pi) < 0.02, "the visible disc has area %s", seen)


@st.composite
def overlaps(draw):
    p, a = draw(increasing(0.0, np.pi, draw(st.booleans()))), draw(increasing(0.0, 2 * np.pi, draw(st.booleans())))
    over = draw(st.sampled_from(["polar", "azimuth", "both"]))
    factor = draw(st.one_of(st.floats(1.001, 1.01), st.floats(1.01, 3.0), st.sampled_from([2.0, 1.5])))
    if over != "azimuth":
        p = [x * np.pi * factor / (p[-1] - p[0]) for x in p]
    if over != "polar":
        start = draw(st.sampled_from([0.0, -np.pi, 7.0]))
        a = [(x - a[0]) * 2 * np.pi * factor / (a[-1] - a[0]) + start for x in a]
    # The first and last corners alone may look fine.
    if draw(st.integers(0, 3)) == 0:
        p, a = [x[:-2] + [x[-1], x[-2]] if len(x) > 2 else x for x in (p, a)]
    down = draw(st.tuples(st.booleans(), st.booleans()))
    return {"over": over, "p": p[::-1] if down[0] else p, "a": a[::-1] if down[1] else a, "list": draw(st.booleans())}


@facet("overlap", overlaps, quick=100, thorough=5000, labels=lambda c: [c["over"]],
       examples=[{"over": "polar", "p": [0.0, 3.5, 3.0], "a": [0.0, 1.0, 2.0], "list": True}, {"over": "azimuth", "p": [0.0, 1.0, 2.0], "a": [0.0, 2.0, 6.5, 5.0], "list": False}])
def overlap(c):
    """Corners that cover a part of the sphere twice make no grid."""
    from starwinds_magnetogram.geometry import ZdiGeometry
    p, a = (c["p"], c["a"]) if c["list"] else (np.array(c["p"]), np.array(c["a"]))
    a_span, p_span = np.ptp(c["a"]), np.ptp(c["p"])
    try:
        grid = ZdiGeometry(p, a)
        areas = grid.areas()
    except Exception:
        return
    require(False, "corners over %s polar and %s azimuth make a grid with area %s", p_span, a_span, np.sum(areas))
