"""C24: the numerical description states the field's true maxima, means and RMS."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.harness import facet, require

ORACLE = "direct sums over facets of the reference field with exact areas; energies of the expansion for fine grids"
RULE = ("A case is a ZDI magnetogram and a whole-sphere grid (uniform or uneven, corners running either way, up to 300 facets around; the default grid), or a magnetogram and a fine grid. Non-trivial: at least two non-zero coefficient rows.")
ASSUMPTIONS = ["the grid covers the whole sphere", "non-negative orders", "coefficients between 1e-12 and 1e14 in size"]

DIRS = ("radial", "polar", "azimuthal")


@st.composite
def uneven(draw, top):
    n = draw(st.integers(2, 8))
    steps = np.array(draw(st.lists(st.floats(0.2, 1.0), min_size=n, max_size=n)))
    out = np.concatenate(([0.0], np.cumsum(steps))) / np.sum(steps) * top
    out[-1] = top
    return [float(x) for x in out]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["counts", "count", "uneven", "uneven", "wide"]))
    grid = {"wide": lambda: [draw(st.sampled_from([3, 5])), draw(st.integers(100, 300))], "counts": lambda: [draw(st.integers(3, 12)), draw(st.integers(3, 16))], "count": lambda: [draw(st.integers(3, 12))],
            "uneven": lambda: [draw(uneven(np.pi)), draw(uneven(2 * np.pi))]}[kind]()
    if kind == "uneven":
        down = draw(st.sampled_from([[False, False], [False, False], [True, False], [False, True], [True, True]]))
        grid = [g[::-1] if d else g for g, d in zip(grid, down)]
    return {"grid": grid, "c": draw(gen.coeffs(3, 0, 6, False, 1, 8)), "dest": draw(st.booleans())}


def make_grid(g):
    from starwinds_magnetogram.geometry import ZdiGeometry
    if not g:
        return ZdiGeometry()
    if len(g) == 1:
        return ZdiGeometry(g[0])
    if isinstance(g[0], int):
        return ZdiGeometry(g[0], g[1])
    return ZdiGeometry(np.array(g[0]), np.array(g[1]))


def statistics(values, area):
    a = np.abs(values)
    mean = np.sum(a * area) / np.sum(area)
    return {"max": np.max(a), "mean": mean, "rms": np.sqrt(np.sum(a ** 2 * area) / np.sum(area)), "std": np.sqrt(np.sum((a - mean) ** 2 * area) / np.sum(area))}


@facet("statistics", cases, quick=150, thorough=15000, nontrivial=lambda c: gen.nonzero_count(c["c"]) > 1,
       
       examples=[{"grid": g, "dest": False, "c": [[l, 0, [v, 0.0, 0.0, 0.0, 0.0, 0.0]] for l, v in rows]}
                 for rows in ([(1, 1.0)], [(3, -2.0), (0, 0.5)], [(2, 3.0), (1, -1.0)]) for g in ([], [65, 130], [3, 3000], [200, 100])],
       labels=lambda c: ["uneven" if c["grid"] and isinstance(c["grid"][0], list) else "uniform", "zero" if not gen.nonzero_count(c["c"]) else "field"])
def statistics_facet(c):
    from starwinds_magnetogram import geometry, zdi_magnetogram
    grid = make_grid(c["grid"])
    m = zdi_magnetogram.from_coefficients(gen.build(c["c"], 3))
    dest = {"other": 1} if c["dest"] else None
    if c["dest"] and len(c["c"]) % 2:
        # Left over from another magnetogram.
        dest.update({k: -7.0 for k in geometry.numerical_description(make_grid([3]), m)})
    got = geometry.numerical_description(grid, m, dest) if c["dest"] else geometry.numerical_description(grid, m)
    if c["dest"]:
        require(got is dest and dest["other"] == 1, "the given dictionary is not filled")
    P, A = grid.corners()
    t, p = (P[:-1, :-1] + P[:-1, 1:]) / 2, (A[:-1, :-1] + A[1:, :-1]) / 2
    area = np.abs((np.cos(P[:-1, :-1]) - np.cos(P[:-1, 1:])) * (A[1:, :-1] - A[:-1, :-1]))
    parts, _ = ref.zdi_components(gen.terms3(c["c"]), t, p)
    fields = {"%s-%s" % k: v for k, v in parts.items()}
    for d in DIRS:
        fields[d] = parts[(d, "poloidal")] + parts[(d, "toroidal")]
    fields["field strength"] = np.sqrt(sum(fields[d] ** 2 for d in DIRS))
    scale = sum(np.sum(np.abs(gen.complex_values(v))) * (2 * l + 1) for l, _, v in c["c"]) + 1e-300
    for name, values in fields.items():
        want = statistics(values, area)
        for key, w in want.items():
            full = "magnetogram.%s.abs.%s" % (name, key)
            require(full in got, "%s is missing", full)
            # The standard deviation of a constant is the square root of rounding errors.
            tol = 1e-6 if key == "std" else 1e-9
            require(np.ndim(got[full]) == 0 and abs(got[full] - w) <= tol * scale, "%s is %s, expected %s", full, got[full], w)
    total = got["magnetogram.field strength.abs.rms"] ** 2
    parts_sum = sum(got["magnetogram.%s.abs.rms" % d] ** 2 for d in DIRS)
    require(abs(total - parts_sum) <= 1e-9 * scale ** 2, "squared RMS of the strength %s, sum over the components %s", total, parts_sum)


def fine():
    return st.fixed_dictionaries({"c": gen.coeffs(3, 0, 5, False, 1, 8), "n": st.sampled_from([40, 60])})


@facet("energy", fine, quick=25, thorough=600, nontrivial=lambda c: gen.nonzero_count(c["c"]) > 1)
def energy(c):
    from starwinds_magnetogram import geometry, zdi_magnetogram
    n = c["n"]
    m = zdi_magnetogram.from_coefficients(gen.build(c["c"], 3))
    errors = []
    e = m.energy(dest={}) if any(any(v) for _, _, v in c["c"]) else [np.zeros(1)] * 3
    want = sum(np.sum(x) for x in e) / (4 * np.pi)
    scale = sum(np.sum(np.abs(gen.complex_values(v)) ** 2) for l, _, v in c["c"]) + 1e-300
    lmax = max(l for l, _, _ in c["c"]) + 1
    for k in (n, 2 * n):
        got = geometry.numerical_description(make_grid([k + 1, 2 * k + 1]), m)["magnetogram.field strength.abs.rms"] ** 2
        require(abs(got - want) <= 4 * scale * len(c["c"]) * (lmax / k) ** 2 + 1e-12 * scale, "squared RMS %s on a grid of %d, energy per area %s", got, k, want)
        errors.append(abs(got - want))
