"""C14: coefficients recovered from a sampled field reproduce that field."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "sample a reference field and compare recovered with true coefficients, with a second-order error bound and Richardson extrapolation over two grids"
RULE = ("A case is a ZDI coefficient set (degrees 0-6, or every order of one degree up to 20, orders >= 0, three components), a regular whole-sphere grid with any azimuth origin and its refinement, a maximum "
        "degree at least that of the set, and optionally a cell area. Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["cell-centered grid, uniform in both angles, covering the sphere, with more azimuth cells than twice the degrees involved",
               "the quadrature error is of second order in the polar spacing"]


@st.composite
def case(draw, lmax=6):
    c = draw(gen.coeffs(3, 0, lmax, False, 1, 20))
    # Parts that carry no field cannot be recovered.
    c = [[l, m, [0.0 if (m == 0 and i % 2) or (l == 0 and i >= 2) else v for i, v in enumerate(f)]] for l, m, f in c]
    top = max(e[0] for e in c)
    extra = draw(st.sampled_from([0, 0, 1, 2]))
    n = draw(st.integers(20, 32))
    return {"c": c, "max_degree": top + extra, "n": n, "naz": draw(st.integers(2 * (top + extra) + 3, 48)),
            "origin": draw(st.sampled_from([0.0, 0.0, 1.0, -np.pi, 3.3])), "area": draw(st.sampled_from(["none", "none", "given"])),
            "object": draw(st.booleans()), "flip": draw(st.sampled_from([[False, False], [False, False], [True, False], [False, True], [True, True]])),
            "memory": draw(st.sampled_from(gen.MEMORY))}


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def labels(c):
    yield "area-" + c["area"]
    yield "magnetogram" if c["object"] else "coefficients"
    yield "decreasing" if any(c.get("flip", [])) else "increasing"
    yield "extra-degrees" if c["max_degree"] > max(e[0] for e in c["c"]) else "same-degree"


def grid(n, naz, origin, flip):
    """Angles may run either way."""
    theta = (np.arange(n) + 0.5) * np.pi / n
    phi = origin + (np.arange(naz) + 0.5) * 2 * np.pi / naz
    theta, phi = theta[::-1] if flip[0] else theta, phi[::-1] if flip[1] else phi
    pl, az = np.meshgrid(theta, phi)
    return pl, az


def recover(c, n, naz, fields=None, area=None):
    from starwinds_magnetogram import converter
    pl, az = grid(n, naz, c["origin"], c.get("flip", [False, False]))
    if fields is None:
        fields = ref.zdi_total(gen.terms3(c["c"]), pl, az)
    pl, az, *fields = gen.relay_all([pl, az] + list(fields), c.get("memory", "c"))
    kwargs = {"max_degree": c["max_degree"]}
    if area is not None:
        kwargs["area"] = area
    keep = [v.copy() for v in [pl, az] + fields]
    if c["object"]:
        mag = primed(converter.convert_latlon_to_zdi, pl, az, *fields, **kwargs)
        out = {(int(l), int(m)): np.array([a, b, g]) for l, m, a, b, g in zip(mag.degrees_l, mag.orders_m, mag.alpha, mag.beta, mag.gamma)}
        require(len(out) == len(mag.degrees_l), "repeated elements")
    else:
        out = gen.contents(primed(converter.convert_latlon_to_zdi_coeffs, pl, az, *fields, **kwargs))
    require(all(np.array_equal(a, b) for a, b in zip(keep, [pl, az] + fields)), "the sampled arrays changed")
    want = {(l, m) for l in range(c["max_degree"] + 1) for m in range(l + 1)}
    require(set(out) == want, "elements: missing %s, extra %s", sorted(want - set(out))[:5], sorted(set(out) - want)[:5])
    return out, fields


@facet("recovery", case, quick=120, thorough=10000, nontrivial=nontrivial, labels=labels,
       examples=[{"c": [[l, m, [1.0, -0.5 * (m > 0), 0.7 * (l > 0), 0.2 * (m > 0), -0.3 * (l > 0), 0.9 * (m > 0)]]], "max_degree": 3, "n": 24, "naz": 20,
                  "origin": 0.0, "area": "none", "object": False} for l in range(4) for m in range(l + 1)])
def recovery(c):
    n = c["n"]
    cell = (lambda k: np.pi / k * 2 * np.pi / c["naz"]) if c["area"] == "given" else (lambda k: None)
    coarse, _ = recover(c, n, c["naz"], area=cell(n))
    fine, _ = recover(c, 2 * n, c["naz"], area=cell(2 * n))
    true = gen.table(c["c"])
    size = [sum(abs(v[k]) * np.sqrt(2 * l + 1.0) for (l, m), v in true.items()) for k in range(3)]
    size = [size[0], size[1] + size[2], size[1] + size[2]]
    for (l, m), have in fine.items():
        want = true.get((l, m), np.zeros(3, complex))
        for k, name in enumerate(("radial", "poloidal", "toroidal")):
            bound = size[k] * np.sqrt(2 * l + 1.0) + 1e-30
            e1, e2 = abs(coarse[(l, m)][k] - want[k]), abs(have[k] - want[k])
            require(np.isfinite(e2) and e2 <= 3.0 * bound / (2 * n) ** 2 + 1e-9 * bound,
                    "%s (%d, %d) is %s, true value %s, on a grid of %d (quadrature bound %.3g)", name, l, m, have[k], want[k], 2 * n, 3 * bound / (2 * n) ** 2)
            rich = (4 * have[k] - coarse[(l, m)][k]) / 3
            require(abs(rich - want[k]) <= 30 * (l + 2) ** 2 * bound / n ** 4 + 1e-9 * bound,
                    "%s (%d, %d) tends to %s on refinement, true value %s (errors %.3g and %.3g)", name, l, m, rich, want[k], e1, e2)


@st.composite
def degree_case(draw):
    return {"l": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 10 ** 6)), "extra": draw(st.sampled_from([0, 0, 1])),
            "scale": draw(st.sampled_from(gen.SCALES)), "object": draw(st.booleans())}


@facet("degrees", degree_case, quick=10, thorough=400, labels=lambda c: ["degree=%d" % c["l"]],
       examples=[{"l": l, "seed": l, "extra": 0, "scale": 1.0, "object": bool(l % 2)} for l in (1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20)])
def degrees(c):
    """Every order of one degree, on grids fine enough for the second-order error to be extrapolated away."""
    l = c["l"]
    rows = [[l, m, [0.0 if m == 0 and i % 2 else v for i, v in enumerate(f)]] for _, m, f in gen.full_set(3, l, l, False, c["seed"], c["scale"])]
    true = gen.table(rows)
    size = max(np.max(np.abs(v)) for v in true.values())
    n = max(6 * l, 30)
    case_ = {"c": rows, "max_degree": l + c["extra"], "origin": 0.0, "object": c["object"]}
    coarse, fine = (recover(case_, k * n, 2 * (l + c["extra"]) + 3)[0] for k in (1, 2))
    for key, have in fine.items():
        want = true.get(key, np.zeros(3, complex))
        rich = (4 * have - coarse[key]) / 3
        require(gen.close(rich, want, size, 2e-4), "%s tends to %s on refinement, true value %s", key, rich, want)


@facet("high_degrees", lambda: st.fixed_dictionaries({"l": st.integers(13, 40), "seed": st.integers(0, 10 ** 6), "int64": st.booleans()}), quick=3, thorough=200, labels=lambda c: ["degree=%d" % c["l"]],
       examples=[{"l": l, "seed": l, "int64": bool(l % 2)} for l in (22, 26, 31, 36, 41, 46)])
def high_degrees(c):
    """Every order of one high degree, asked for by itself."""
    from starwinds_magnetogram import converter
    l = c["l"]
    rows = [[l, m, [0.0 if m == 0 and i % 2 else v for i, v in enumerate(f)]] for _, m, f in gen.full_set(3, l, l, False, c["seed"])]
    true = gen.table(rows)
    size = max(np.max(np.abs(v)) for v in true.values())
    found = []
    ls, ms = [l] * (l + 1), list(range(l + 1))
    if c["int64"]:
        ls, ms = np.array(ls), np.array(ms)
    for k in (1, 2):
        pl, az = grid(6 * l * k, 2 * l + 3, 0.0, [False, False])
        found.append(gen.contents(converter.get_zdi_coeffs(pl, az, ls, ms, *ref.zdi_total(gen.terms3(rows), pl, az))))
    require(set(found[1]) == set(true), "elements %s", sorted(found[1])[:5])
    for key, want in true.items():
        rich = (4 * found[1][key] - found[0][key]) / 3
        require(gen.close(rich, want, size, 2e-4), "%s tends to %s on refinement, true value %s", key, rich, want)


@st.composite
def linear_case(draw):
    c = draw(case(5))
    # Grids of any size, also with fewer cells than degrees.
    c["n"], c["naz"] = draw(st.integers(2, 24)), draw(st.integers(2, 40))
    c["max_degree"] = draw(st.integers(0, 12))
    c["seed"] = draw(st.integers(0, 10 ** 6))
    c["amplitude"] = draw(st.sampled_from([1.0, 1.0, 1e-12, 1e12]))
    c["k"] = draw(gen.small_float(5.0))
    return c


@facet("linear", linear_case, quick=80, thorough=6000, nontrivial=lambda c: c["k"] != 0)
def linear(c):
    """Any sampled field, not only band-limited ones."""
    rng = np.random.default_rng(c["seed"])
    pl, az = grid(c["n"], c["naz"], c["origin"], c.get("flip", [False, False]))
    f = [rng.normal(size=pl.shape) * c.get("amplitude", 1.0) for _ in range(3)]
    g = list(ref.zdi_total(gen.terms3(c["c"]), pl, az))
    a, _ = recover(c, c["n"], c["naz"], f)
    b, _ = recover(c, c["n"], c["naz"], g)
    s, _ = recover(c, c["n"], c["naz"], [x + c["k"] * y for x, y in zip(f, g)])
    scale = 40 * c.get("amplitude", 1.0) + abs(c["k"]) * 40 * sum(np.abs(e[2]).sum() for e in c["c"])
    for key in s:
        require(gen.close(s[key], a[key] + c["k"] * b[key], scale, 1e-10), "%s: %s, expected %s", key, s[key], a[key] + c["k"] * b[key])
    # Radial coefficients depend on the radial field only, the others on the tangential field only.
    only, _ = recover(c, c["n"], c["naz"], [f[0], 0 * f[1], 0 * f[2]])
    for key in only:
        require(gen.close(only[key][:1], a[key][:1], scale, 1e-10) and gen.close(only[key][1:], np.zeros(2), scale, 1e-10),
                "radial and tangential parts mix at %s: %s, %s", key, only[key], a[key])
    # The given area is used as it is.
    cell = np.pi / c["n"] * 2 * np.pi / c["naz"]
    given, _ = recover(c, c["n"], c["naz"], f, area=2.5 * cell)
    for key in given:
        require(gen.close(given[key], 2.5 * a[key], scale, 1e-10), "with 2.5 times the area: %s, expected %s", given[key], 2.5 * a[key])


@st.composite
def chosen_case(draw):
    c = draw(case(5))
    c["max_degree"] = draw(st.integers(0, 14))
    c["naz"] = 2 * c["max_degree"] + 3
    c["seed"] = draw(st.integers(0, 10 ** 6))
    every = [[l, m] for l in range(c["max_degree"] + 1) for m in range(l + 1)]
    c["chosen"] = draw(st.one_of(st.just(every), st.lists(st.sampled_from(every), min_size=1, max_size=8, unique_by=tuple)))
    if draw(st.booleans()):
        c["chosen"] = draw(st.permutations(c["chosen"]))
    c["integers"] = draw(st.sampled_from(["list", "tuple", "int64", "int64", "int32", "int16", "int8", "uint8", "uint64"] + (["number"] if len(c["chosen"]) == 1 else [])))
    return c


@facet("chosen", chosen_case, quick=60, thorough=4000, labels=lambda c: [c["integers"]],
       examples=[{"c": [[1, 0, [1.0, 0.0, 0.5, 0.0, 2.0, 0.0]]], "max_degree": 13, "n": 20, "naz": 29, "origin": 0.0, "area": "none", "object": False, "seed": 5,
                  "chosen": [[13, 2], [1, 0], [12, 12], [0, 0]], "integers": t} for t in ("int8", "uint8", "list", "uint64")])
def chosen(c):
    """Any selection of degrees and orders, in any order and integer type, gets the values it has among all of them."""
    from starwinds_magnetogram import converter
    rng = np.random.default_rng(c["seed"])
    pl, az = grid(c["n"], c["naz"], c["origin"], c.get("flip", [False, False]))
    field = [rng.normal(size=pl.shape) for _ in range(3)]
    every, _ = recover(c, c["n"], c["naz"], field)
    form = {"list": list, "tuple": tuple, "number": lambda v: v[0]}.get(c["integers"], lambda v: np.array(v, dtype=c["integers"]))
    some = gen.contents(converter.get_zdi_coeffs(pl, az, form([k[0] for k in c["chosen"]]), form([k[1] for k in c["chosen"]]), *field))
    require(set(some) == {tuple(k) for k in c["chosen"]}, "elements %s, expected %s", sorted(some), sorted(map(tuple, c["chosen"])))
    for key in some:
        require(gen.close(some[key], every[key], 40.0, 1e-10), "%s alone is %s, among all degrees and orders %s", key, some[key], every[key])
