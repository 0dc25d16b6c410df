"""C22: the longitudinal field is the visible-area average along the line of sight."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "independent facet sum over the reference field, metamorphic relations (linearity, sign, rotation, bounds) and the analytical dipole"
RULE = ("A case is a ZDI magnetogram, a whole-sphere grid (uniform or uneven), an observer polar angle and a list of real or integer observer azimuths. "
        "Non-trivial: at least one non-zero coefficient of positive degree and two azimuths.")
ASSUMPTIONS = ["the grid covers the whole sphere", "the observer sees at least one facet", "non-negative orders"]


def azimuths():
    real = st.one_of(st.lists(st.floats(-7, 14, allow_nan=False), min_size=1, max_size=5), st.integers(6, 40).map(lambda n: [float(x) for x in np.linspace(0, 2 * np.pi, n)]),
                     st.lists(st.floats(-200, 200, allow_nan=False), min_size=1, max_size=3), st.lists(st.floats(-1e4, 1e4, allow_nan=False), min_size=1, max_size=3))
    whole = st.lists(st.integers(-6, 12), min_size=1, max_size=8)
    # Azimuths next to each other, or exactly or nearly a number of turns apart, in any order.
    near = st.builds(lambda a, steps: [a] + [a + k * 2 * np.pi + s * d for k, s, d in steps], st.floats(-7, 14, allow_nan=False),
                     st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, -1, 2]), st.sampled_from([1, -1]), st.sampled_from([0.0, 1e-5, 1e-4, 1e-3, 2e-3, 4e-3, 8e-3, 0.016, 0.05, 0.1])), min_size=1, max_size=5))
    real = st.one_of(real, near)
    return st.one_of(st.fixed_dictionaries({"kind": st.sampled_from(["array", "list"]), "v": real}), st.fixed_dictionaries({"kind": st.sampled_from(["array", "list"]), "v": whole}),
                     st.just({"kind": "default", "v": []}), st.fixed_dictionaries({"kind": st.just("one"), "v": st.tuples(st.one_of(st.floats(-7, 14, allow_nan=False), st.integers(-6, 12))).map(list)}))


@st.composite
def uneven(draw, top):
    n = draw(st.integers(3, 8))
    steps = np.array(draw(st.lists(st.floats(0.2, 1.0), min_size=n, max_size=n)))
    out = np.concatenate(([0.0], np.cumsum(steps))) / np.sum(steps) * top
    out[-1] = top
    return [float(x) for x in out]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["counts", "count", "uneven"]))
    grid = {"counts": lambda: [draw(st.integers(3, 12)), draw(st.integers(4, 16))], "count": lambda: [draw(st.integers(4, 12))],
            "uneven": lambda: [draw(uneven(np.pi)), draw(uneven(2 * np.pi))]}[kind]()
    if kind == "uneven" and draw(st.booleans()):
        k = draw(st.integers(0, 2))
        grid = [g[::-1] if k in (2, i) else g for i, g in enumerate(grid)]
    top = draw(st.sampled_from([5, 5, 5, 16]))
    return {"grid": grid, "c": draw(gen.coeffs(3, 0, top, False, 1, 8)), "d": draw(gen.coeffs(3, 0, 4, False, 1, 4)), "k": draw(st.sampled_from([2.0, -1.0, -0.5, 100.0])),
            "polar": draw(st.one_of(st.floats(0, np.pi, allow_nan=False), st.sampled_from([0.0, np.pi, np.pi / 2, 1, 2]))), "az": draw(azimuths())}


def make_grid(g):
    from starwinds_magnetogram.geometry import ZdiGeometry
    if len(g) == 1:
        return ZdiGeometry(g[0])
    if isinstance(g[0], int):
        return ZdiGeometry(g[0], g[1])
    return ZdiGeometry(np.array(g[0]), np.array(g[1]))


def observers(c, grid):
    if c["az"]["kind"] == "default":
        return None, np.linspace(0, 2 * np.pi, grid.shape[0])
    v = c["az"]["v"]
    if c["az"]["kind"] == "one":
        return v[0], np.array(v[0], dtype=float)
    return (list(v) if c["az"]["kind"] == "list" else np.array(v)), np.array(v, dtype=float)


def expected(terms, grid, polar, az):
    P, A = grid.corners()
    t, p = (P[:-1, :-1] + P[:-1, 1:]) / 2, (A[:-1, :-1] + A[1:, :-1]) / 2
    area = np.abs((np.cos(P[:-1, :-1]) - np.cos(P[:-1, 1:])) * (A[1:, :-1] - A[:-1, :-1]))
    br, bt, bp = ref.zdi_total(terms, t, p)
    top = np.max(np.sqrt(br ** 2 + bt ** 2 + bp ** 2)) if br.size else 0.0
    out = []
    for a in np.ravel(az):
        # The observer direction in the local frame of each facet.
        mu = np.cos(polar) * np.cos(t) + np.sin(polar) * np.sin(t) * np.cos(p - a)
        dt = -np.cos(polar) * np.sin(t) + np.sin(polar) * np.cos(t) * np.cos(p - a)
        dp = -np.sin(polar) * np.sin(p - a)
        weight = area * np.maximum(mu, 0)
        out.append(np.sum((br * mu + bt * dt + bp * dp) * weight) / np.sum(weight))
    return np.reshape(out, np.shape(az)), top


def curve(rows, grid, polar, az):
    from starwinds_magnetogram import longitudinal_field, zdi_magnetogram
    m = zdi_magnetogram.from_coefficients(gen.build(rows, 3))
    if az is None:
        return longitudinal_field.get_longitudinal_field_curve(grid, m, polar)
    return primed(longitudinal_field.get_longitudinal_field_curve, grid, m, polar, az)


def magnitude(rows):
    return sum(np.sum(np.abs(gen.complex_values(v))) * (2 * l + 1) for l, m, v in rows) + 1e-300


@facet("average", cases, quick=150, thorough=12000, nontrivial=lambda c: len(c["az"]["v"]) > 1 and any(any(v) and l > 0 for l, m, v in c["c"]),
       labels=lambda c: [c["az"]["kind"], "integers" if c["az"]["v"] and isinstance(c["az"]["v"][0], int) else "reals", "uneven" if isinstance(c["grid"][0], list) else "uniform"])
def average(c):
    from starwinds_magnetogram import longitudinal_field, zdi_magnetogram
    grid = make_grid(c["grid"])
    az, values = observers(c, grid)
    polar = c["polar"]
    got = np.asarray(curve(c["c"], grid, polar, az))
    want, top = expected(gen.terms3(c["c"]), grid, polar, values)
    scale = magnitude(c["c"])
    require(got.shape == want.shape, "%s values for azimuths %s", got.shape, values)
    require(gen.close(got, want, scale, 1e-10), "curve is %s, expected %s", got, want)
    require(np.all(np.abs(got) <= top + 1e-10 * scale), "value %s exceeds the largest strength %s", np.max(np.abs(got)), top)
    other = np.asarray(curve(c["d"], grid, polar, az))
    k = c["k"]
    both = [[l, m, list(np.array(v) * k)] for l, m, v in c["c"]]
    require(gen.close(curve(both, grid, polar, az), k * got, abs(k) * scale, 1e-10), "the curve is not proportional to the field (factor %s)", k)
    table = {(l, m): np.array(v) for l, m, v in both}
    for l, m, v in c["d"]:
        table[(l, m)] = table.get((l, m), 0) + np.array(v)
    total = [[l, m, list(v)] for (l, m), v in table.items()]
    require(gen.close(curve(total, grid, polar, az), k * got + other, abs(k) * scale + magnitude(c["d"]), 1e-10), "the curve is not linear in the field")
    # Each azimuth on its own.
    for a, w in list(zip(np.ravel(values), np.ravel(got)))[:2]:
        require(gen.close(np.asarray(curve(c["c"], grid, polar, [a])), np.array([w]), scale, 1e-10), "one azimuth alone gives another value")


@facet("shapes", lambda: st.tuples(cases(), st.integers(1, 3), st.integers(1, 3), st.floats(-7, 7)).map(lambda t: dict(t[0], rows=t[1], columns=t[2], start=t[3])), quick=30, thorough=2000,
       nontrivial=lambda c: c["rows"] > 1 and any(any(v) and l > 0 for l, m, v in c["c"]), labels=lambda c: ["%d by %d" % (c["rows"], c["columns"])])
def shapes(c):
    """A table of azimuths gives a table of values."""
    grid = make_grid(c["grid"])
    az = c["start"] + 0.7 * np.arange(c["rows"] * c["columns"]).reshape(c["rows"], c["columns"])
    got = np.asarray(curve(c["c"], grid, c["polar"], az))
    want, _ = expected(gen.terms3(c["c"]), grid, c["polar"], az)
    require(got.shape == az.shape, "%s values for %s azimuths", got.shape, az.shape)
    require(gen.close(got, want, magnitude(c["c"]), 1e-10), "values %s, expected %s", got, want)


@facet("plot", cases, quick=30, thorough=1500, nontrivial=lambda c: any(any(v) and l > 0 for l, m, v in c["c"]), labels=lambda c: [c["az"]["kind"]])
def plot(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import longitudinal_field, zdi_magnetogram
    grid = make_grid(c["grid"])
    az, values = observers(c, grid)
    want, _ = expected(gen.terms3(c["c"]), grid, c["polar"], values)
    m = zdi_magnetogram.from_coefficients(gen.build(c["c"], 3))
    fig, ax = plt.subplots()
    try:
        args = () if az is None else (az,)
        _, stack = longitudinal_field.plot_longitudinal_field_curve(ax, grid, m, c["polar"], *args)
        scale = magnitude(c["c"])
        require(np.shape(stack) == (2,) + np.shape(values), "returned shape %s", np.shape(stack))
        require(gen.close(stack[0], values, 20, 1e-12) and gen.close(stack[1], want, scale, 1e-10), "returned %s, expected %s", stack, want)
        want, values = np.atleast_1d(want), np.atleast_1d(values)
        lines = [l for l in ax.get_lines() if len(l.get_xdata()) == len(want) and gen.close(np.asarray(l.get_ydata(), float), want, scale, 1e-10)
                 and gen.close(np.asarray(l.get_xdata(), float), np.rad2deg(values), 1000, 1e-12)]
        require(lines, "no line shows the curve against the azimuth in degrees")
        level = [l for l in ax.get_lines() if len(l.get_xdata()) == 2 and l not in lines and gen.close(np.asarray(l.get_ydata(), float), np.full(2, np.mean(want)), scale, 1e-10)]
        require(level or len(want) == 2, "no line shows the mean of the curve")
        if np.max(np.abs(want)) > 1e-8 * scale:
            lo, hi = ax.get_ylim()
            require(lo <= np.min(want) and np.max(want) <= hi, "limits %s to %s do not contain the curve", lo, hi)
    finally:
        plt.close(fig)


def turns():
    return st.fixed_dictionaries({"c": gen.coeffs(3, 0, 5, False, 1, 8), "p": st.integers(4, 10), "a": st.integers(4, 14), "turn": st.integers(1, 13),
                                  "polar": st.floats(0, np.pi, allow_nan=False), "az": st.lists(st.floats(-4, 8, allow_nan=False), min_size=1, max_size=3)})


@facet("turned_star", turns, quick=100, thorough=8000, nontrivial=lambda c: any(any(v) and m > 0 for l, m, v in c["c"]) and c["turn"] % (c["a"] - 1))
def turned_star(c):
    """Turning the star by a number of facets is the same as turning the observer back."""
    grid = make_grid([c["p"], c["a"]])
    angle = c["turn"] * 2 * np.pi / (c["a"] - 1)
    turned = []
    for l, m, v in c["c"]:
        z = gen.complex_values(v) * np.exp(-1j * m * angle)
        turned.append([l, m, [x for w in z for x in (w.real, w.imag)]])
    a = curve(turned, grid, c["polar"], np.array(c["az"]) + angle)
    b = curve(c["c"], grid, c["polar"], np.array(c["az"]))
    require(gen.close(a, b, magnitude(c["c"]), 1e-10), "turned star %s, turned observer %s", a, b)


def dipoles():
    return st.fixed_dictionaries({"A": st.floats(-100, 100, allow_nan=False).map(lambda v: round(v, 3)), "B": st.floats(-100, 100, allow_nan=False).map(lambda v: round(v, 3)),
                                  "C": st.floats(-50, 50, allow_nan=False).map(lambda v: round(v, 3)),
                                  "axis": st.tuples(st.floats(0, np.pi, allow_nan=False), st.floats(0, 6.3, allow_nan=False)).map(list),
                                  "tilt": st.one_of(st.just(0.0), st.floats(0, np.pi, allow_nan=False)), "n": st.sampled_from([12, 20, 33])})


@facet("dipole", dipoles, quick=80, thorough=4000, nontrivial=lambda c: c["A"] != 0 and 0.1 < c["axis"][0] < 3, labels=lambda c: ["along the axis" if c["tilt"] == 0 else "tilted"],
       examples=[{"A": 10.0, "B": 10.0, "C": 0.0, "axis": [0.0, 0.0], "tilt": 0.0, "n": 60}, {"A": 10.0, "B": -4.0, "C": 3.0, "axis": [1.0, 2.0], "tilt": 0.0, "n": 60}])
def dipole(c):
    t, p = c["axis"]
    n10, n11 = np.sqrt(3 / (4 * np.pi)), np.sqrt(3 / (8 * np.pi))
    rows = []
    for m, f in ((0, np.cos(t) / n10), (1, -np.sin(t) * np.exp(-1j * p) / n11)):
        vals = []
        for k in (c["A"], c["B"], c["C"]):
            vals += [float(np.real(k * f)), float(np.imag(k * f))]
        rows.append([1, m, vals])
    n = c["n"]
    # The radial part averages to 1/2, the potential part to -1/4 and the toroidal part to 0 of their largest values,
    # times the cosine of the angle between the observer and the dipole axis.
    observer = t - c["tilt"]
    want = (c["A"] / 2 - c["B"] / 4) * np.cos(c["tilt"])
    size = abs(c["A"]) + abs(c["B"]) + abs(c["C"])
    errors = []
    for k in (n, 2 * n):
        got = curve(rows, make_grid([k + 1, 2 * k + 1]), observer, np.array([p]))[0]
        errors.append(abs(got - want))
        require(errors[-1] <= 2.5 * (np.pi / k) ** 2 * size + 1e-9, "%d facets from pole to pole give %s, expected %s", k, got, want)
