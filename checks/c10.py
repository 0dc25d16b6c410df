"""C10: ZDI field components follow the published spherical harmonics expansion."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "independent expansion built on separately derived Legendre recurrences; layout, sum, norm and cartesian relations"
RULE = ("A case is a ZDI coefficient set with 1-3 components (positive and negative orders), 1-6 points (poles and near-polar ones included) and an "
        "array layout. Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["agreement to 1e-7 of a bound on the summands", "degrees up to 30 in most facets, up to 110 (and orders up to 60 above degree 84, not below zero above degree 80) in one", "points are given as arrays"]


@st.composite
def case(draw, lmax=10, negative=None):
    n = draw(st.sampled_from([3, 3, 3, 1, 2]))
    negative = draw(st.booleans()) if negative is None else negative
    return {"n": n, "c": draw(gen.coeffs(n, 0, lmax, negative, 1, 25)), "points": draw(gen.angles(1, 6)),
            "shape": draw(st.sampled_from(["line", "column", "row", "cube", "four", "block", "grid"])), "memory": draw(st.sampled_from(gen.MEMORY))}


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def labels(c):
    yield "components=%d" % c["n"]
    yield "negative-orders" if any(e[1] < 0 for e in c["c"]) else "positive-orders"
    yield "shape:" + c["shape"]
    yield "memory:" + c.get("memory", "c")
    for t, p in c["points"]:
        yield "pole" if abs(np.sin(t)) < 1e-3 else "off-axis"


def points(c):
    return tuple(gen.relay_all(plain_points(c), c.get("memory", "c")))


def plain_points(c):
    if "count" in c:
        rng = np.random.default_rng(c["seed"])
        theta, phi = rng.uniform(0, np.pi, c["count"]), rng.uniform(-3, 7, c["count"])
        theta[::97] = 0.0
        return (theta, phi) if c["columns"] == 1 else (theta.reshape(-1, c["columns"]), phi.reshape(-1, c["columns"]))
    theta = np.array([p[0] for p in c["points"]], dtype=float)
    phi = np.array([p[1] for p in c["points"]], dtype=float)
    n = len(theta)
    if "pool" in c:
        t, p = (np.array(w).reshape(c["pool"]["shape"]) for w in c["pool"]["which"])
        return theta[t], phi[p]
    if c["shape"] == "column":
        return theta.reshape(n, 1), phi.reshape(n, 1)
    if c["shape"] == "row":
        return theta.reshape(1, n), phi.reshape(1, n)
    if c["shape"] == "cube":
        return theta.reshape(1, n, 1), phi.reshape(1, n, 1)
    if c["shape"] == "four":
        return np.stack([theta, theta[::-1]]).reshape(2, 1, n, 1), np.stack([phi, phi]).reshape(2, 1, n, 1)
    if c["shape"] == "block":
        return np.stack([theta, theta[::-1]]), np.stack([phi, phi])
    if c["shape"] == "grid":
        phi, theta = np.meshgrid(phi, theta, indexing="ij")
        return theta, phi
    return theta, phi


def run(c):
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    theta, phi = points(c)
    terms = gen.terms3(c["c"])
    want, scales = ref.zdi_components(terms, theta, phi)
    scale = sum(scales.values()) + 1e-30
    lmax = max(e[0] for e in c["c"])
    parts = {}
    methods = mag.get_all()
    require(set(methods) == {"radial", "polar", "azimuthal"} and all(set(v) == {"poloidal", "toroidal"} for v in methods.values()), "get_all names %s", methods)
    for direction in ("radial", "polar", "azimuthal"):
        for term in ("poloidal", "toroidal"):
            value = primed(methods[direction][term], theta, phi)
            parts[(direction, term)] = value
            require(np.isrealobj(value), "%s %s is complex", direction, term)
            require(gen.close(value, want[(direction, term)], scales[(direction, term)] + 1e-30, 1e-7),
                    "%s %s is %s, expected %s", direction, term, value, want[(direction, term)])
    require(np.all(parts[("radial", "toroidal")] == 0), "the toroidal field has a radial component")
    full = {"radial": primed(mag.get_radial_field, theta, phi), "polar": primed(mag.get_polar_field, theta, phi), "azimuthal": primed(mag.get_azimuthal_field, theta, phi)}
    for d, value in full.items():
        require(gen.close(value, parts[(d, "poloidal")] + parts[(d, "toroidal")], scale, 1e-12), "%s is not the sum of its parts", d)
    strength = primed(mag.get_field_strength, theta, phi)
    norm = np.sqrt(sum(v ** 2 for v in full.values()))
    require(gen.close(strength, norm, scale, 1e-10), "strength %s, norm %s", strength, norm)
    for name, method, terms_ in (("full", mag.get_cartesian_field, ("poloidal", "toroidal")),
                                 ("poloidal", mag.get_cartesian_poloidal_field, ("poloidal",)),
                                 ("toroidal", mag.get_cartesian_toroidal_field, ("toroidal",))):
        have = primed(method, theta, phi)
        comp = [sum(want[(d, t)] for t in terms_) for d in ("radial", "polar", "azimuthal")]
        w = ref.to_cartesian(*comp, theta, phi)
        require(have.shape == theta.shape + (3,), "%s cartesian field has shape %s for points of shape %s", name, have.shape, theta.shape)
        require(gen.close(have, w, scale, 1e-7), "%s cartesian field is %s, expected %s", name, have, w)
    require(mag.degree() == lmax, "degree() is %s", mag.degree())


@facet("components", case, quick=350, thorough=40000, nontrivial=nontrivial, labels=labels,
       examples=[{"n": 3, "c": [[l, m, [1.0, -0.5, 0.7, 0.2, -0.3, 0.9]]], "points": [[1.1, 0.4], [0.0, 1.0], [np.pi, 2.0], [2.0, 5.0]], "shape": "line"}
                 for l in range(5) for m in range(-l, l + 1)])
def components(c):
    run(c)


@st.composite
def pool_case(draw):
    """Points whose coordinates take only two values each, so that rows, columns or all of them can be alike."""
    c = draw(case(6))
    shape = draw(st.sampled_from([[2, 2], [2, 3], [3, 2], [3, 3], [2, 2, 2], [1, 4], [4, 1], [6]]))
    c["points"], c["pool"] = [draw(gen.angles(1, 1))[0], draw(gen.angles(1, 1))[0]], {"shape": shape, "which": [draw(st.lists(st.integers(0, 1), min_size=int(np.prod(shape)), max_size=int(np.prod(shape)))) for _ in range(2)]}
    return c


@facet("alike", pool_case, quick=80, thorough=6000, nontrivial=nontrivial, labels=lambda c: ["shape %s" % c["pool"]["shape"]],
       examples=[{"n": 3, "c": [[1, 1, [1.0, 0.5, -2.0, 0.25, 0.75, -1.0]], [2, -1, [1.0, 0.5, -2.0, 0.25, 0.75, -1.0]]], "points": [[0.4, 1.0], [2.0, -1.0]], "shape": "line", "memory": "c", "pool": {"shape": shape, "which": which}}
                 for shape, which in (([2, 2], [[0, 0, 0, 1], [0, 1, 0, 0]]), ([2, 2], [[0, 1, 1, 0], [0, 0, 0, 1]]), ([2, 2], [[0, 0, 1, 0], [0, 0, 1, 0]]), ([2, 2], [[0, 1, 0, 0], [1, 0, 0, 0]]), ([2, 3], [[0, 1, 0, 0, 1, 1], [1, 1, 1, 0, 1, 0]]))])
def alike(c):
    run(c)


@facet("high_degree", lambda: case(30), quick=25, thorough=3000, nontrivial=nontrivial, labels=labels,
       examples=[{"n": 3, "c": gen.one_degree(l, 3, neg), "points": [[1.1, 0.4], [0.0, 1.0], [np.pi, 2.0], [2.0, 5.0], [0.2, 3.0]], "shape": "line"}
                 for l in range(31) for neg in (False, True)])
def high_degree(c):
    run(c)


@st.composite
def very_high_case(draw):
    c = draw(case(2))
    top, rng, negative = draw(st.integers(31, 110)), np.random.default_rng(draw(st.integers(0, 10 ** 6))), draw(st.booleans())
    pairs = {(int(l), int(rng.integers(-min(l, 60) if l <= 80 and negative else 0, min(l, 84 if l <= 84 else 60) + 1))) for l in rng.integers(0, top + 1, draw(st.integers(1, 12)))} | {(top, min(top, 60))}
    c["c"] = [[l, m, [float(v) for v in np.round(rng.normal(size=2 * c["n"]), 6)]] for l, m in sorted(pairs)]
    return c


@facet("very_high_degree", very_high_case, quick=20, thorough=1500, nontrivial=nontrivial, labels=lambda c: ["degree=%d" % (max(e[0] for e in c["c"]) // 20 * 20)],
       examples=[{"n": 3, "c": gen.one_degree(l, 3, neg), "points": [[1.1, 0.4], [0.0, 1.0], [np.pi, 2.0], [2.0, 5.0], [0.2, 3.0]], "shape": "line"} for l in (32, 40, 50, 60, 70, 80) for neg in (False, True)] +
       [{"n": 3, "c": gen.one_degree(l, 3)[:61], "points": [[1.1, 0.4], [0.0, 1.0], [np.pi, 2.0], [2.0, 5.0], [0.2, 3.0]], "shape": "line"} for l in (86, 90, 100, 110)] +
       [{"n": 3, "c": gen.one_degree(l, 3, scale=s), "points": [[1.1, 0.4], [0.3, 1.0], [2.0, 5.0]], "shape": "line"} for l in (35, 45, 70) for s in (1e-15, 1e15)] +
       [{"n": 3, "c": [[l, m, [1.0, -0.5, 0.7, 0.2, -0.3, 0.9]]], "points": [[1.1, 0.4], [1.4, 1.0], [2.0, 5.0]], "shape": "line"} for l, m in ((86, 80), (90, 78), (100, 71), (120, 52))])
def very_high_degree(c):
    run(c)


@st.composite
def linear_case(draw):
    c = draw(case(8))
    c["d"] = draw(gen.coeffs(c["n"], 0, 8, True))
    c["k"] = draw(gen.small_float(5.0))
    return c


@facet("linear", linear_case, quick=100, thorough=10000, nontrivial=lambda c: gen.nonzero_count(c["c"]) and gen.nonzero_count(c["d"]))
def linear(c):
    from starwinds_magnetogram import zdi_magnetogram
    a, b = gen.table(c["c"]), gen.table(c["d"])
    zero = np.zeros(c["n"], complex)
    mixed = []
    for k in list(b) + [k for k in a if k not in b]:
        z = a.get(k, zero) + c["k"] * b.get(k, zero)
        mixed.append([k[0], k[1], [float(x) for v in z for x in (v.real, v.imag)]])
    theta, phi = points(c)
    fields = [zdi_magnetogram.from_coefficients(gen.build(x, c["n"])).get_cartesian_field(theta, phi) for x in (c["c"], c["d"], mixed)]
    scale = sum(np.max(np.abs(f)) * 40 for _, _, f in c["c"]) + abs(c["k"]) * sum(np.max(np.abs(f)) * 40 for _, _, f in c["d"]) + 1e-30
    require(gen.close(fields[2], fields[0] + c["k"] * fields[1], scale, 1e-9), "field %s, expected %s", fields[2], fields[0] + c["k"] * fields[1])


@st.composite
def big_case(draw):
    c = draw(case(2))
    c["c"] = draw(gen.big_coeffs(c["n"], 0, 30, draw(st.booleans())))
    return c


@facet("large_sets", big_case, quick=10, thorough=1000, nontrivial=nontrivial, labels=labels)
def large_sets(c):
    run(c)


@st.composite
def many_case(draw):
    c = draw(case(6))
    c.update({"count": draw(st.sampled_from([300, 1200, 2600, 5200, 10400])), "columns": draw(st.sampled_from([1, 1, 2, 50])), "seed": draw(st.integers(0, 10 ** 6)), "shape": "line"})
    return c


@facet("many_points", many_case, quick=12, thorough=800, nontrivial=nontrivial, labels=lambda c: ["points=%d" % c["count"]],
       examples=[{"n": 3, "c": gen.full_set(3, 0, 4, True, 5), "points": [[1.0, 1.0]], "shape": "line", "count": k, "columns": w, "seed": k} for k, w in ((6000, 1), (12000, 100), (40000, 200))])
def many_points(c):
    """Thousands of points at once."""
    run(c)


@st.composite
def form_case(draw):
    c = draw(case(8, draw(st.booleans())))
    if c["n"] == 1 and draw(st.booleans()):
        c["c"] = c["c"][:1]
    c.update({"shape": "line", "memory": "c", "form": draw(st.sampled_from(["list", "tuple", "array", "mixed"] + (["number"] if len(c["c"]) == 1 else []))),
              "given": draw(st.sampled_from([["alpha"], ["alpha", "beta"], ["alpha", "gamma"], ["alpha", "beta", "gamma"]])), "real": draw(st.booleans()),
              "integers": draw(st.sampled_from(["int64", "int64", "int32", "int16", "int8", "float64"] + (["uint8", "uint64"] if min(e[1] for e in c["c"]) >= 0 else [])))})
    return c


@facet("forms", form_case, quick=150, thorough=8000, nontrivial=nontrivial, labels=lambda c: ["form:" + c["form"], "given:" + "+".join(c["given"])] + ([c["integers"]] if c["form"] in ("array", "mixed") else []),
       examples=[{"n": 3, "c": [[l, m, [1.0, 0.5, -2.0, 0.25, 0.75, -1.0]] for l in (2, 6, 13, 15) for m in (0, 1, l)], "points": [[0.4, 1.0], [2.0, -1.0]], "shape": "line", "memory": "c", "form": "array",
                  "given": ["alpha", "beta", "gamma"], "real": False, "integers": t} for t in ("int8", "uint8", "int16", "uint64", "float64")])
def forms(c):
    """A magnetogram made directly from degrees, orders and coefficients in any form; coefficients that are not given are zero."""
    from starwinds_magnetogram import zdi_magnetogram
    rows = gen.terms3(c["c"])
    if c["real"]:
        rows = [(l, m, a.real, b.real, g.real) for l, m, a, b, g in rows]
    form = {"list": list, "tuple": tuple, "array": np.array, "mixed": list, "number": lambda v: v[0]}[c["form"]]
    plain = (lambda v: np.array(v, dtype=c.get("integers", "int64"))) if c["form"] in ("mixed", "array") else form
    columns = {"alpha": [r[2] for r in rows], "beta": [r[3] for r in rows], "gamma": [r[4] for r in rows]}
    mag = zdi_magnetogram.ZdiMagnetogram(plain([r[0] for r in rows]), plain([r[1] for r in rows]), *[form(columns["alpha"])], **{k + "_lm": form(columns[k]) for k in c["given"] if k != "alpha"})
    terms = [(l, m, a, b if "beta" in c["given"] else 0j, g if "gamma" in c["given"] else 0j) for l, m, a, b, g in rows]
    theta, phi = plain_points(c)
    want, scales = ref.zdi_components(terms, theta, phi)
    scale = sum(scales.values()) + 1e-30
    for d, value in (("radial", mag.get_radial_field(theta, phi)), ("polar", mag.get_polar_field(theta, phi)), ("azimuthal", mag.get_azimuthal_field(theta, phi))):
        require(gen.close(value, want[(d, "poloidal")] + want[(d, "toroidal")], scale, 1e-7), "%s field of %s %s is %s, expected %s", d, c["form"], c["given"], value, want)
    same = zdi_magnetogram.from_coefficients(gen.build([[l, m, [x for z in v for x in (np.real(z), np.imag(z))]] for l, m, *v in terms], 3))
    for a, b in zip(mag.energy(dest={}), same.energy(dest={})):
        require(gen.close(np.sort(a), np.sort(b), scale ** 2, 1e-12), "energies of %s %s are %s, expected %s", c["form"], c["given"], a, b)
    for a, b in zip(mag.energy_matrix(), same.energy_matrix()):
        require(a.shape == b.shape and gen.close(a, b, scale ** 2, 1e-12), "the energy matrices of %s %s are %s, expected %s", c["form"], c["given"], a, b)
    require(mag.degree() == max(r[0] for r in rows), "degree() is %s", mag.degree())
    part = mag.as_restricted(degree_l_range=(2, 4))
    kept = [t for t in terms if 2 <= t[0] <= 4]
    inner, _ = ref.zdi_components(kept, theta, phi)
    require(gen.close(part.get_radial_field(theta, phi), inner["radial", "poloidal"], scale, 1e-7), "degrees 2 to 4 of %s have another field", c["form"])


def factor_case():
    return st.integers(0, 60).flatmap(lambda l: st.fixed_dictionaries({"l": st.just(l), "form": st.sampled_from(["number", "list", "array"]), "method": st.sampled_from(["default", "low_order", "other"])}))


@facet("factors", factor_case, quick=60, thorough=1000, labels=lambda c: [c["method"], c["form"]], nontrivial=lambda c: c["l"] > 1,
       examples=[{"l": l, "form": f, "method": m} for l in (0, 1, 2, 5, 20, 40, 60) for f, m in (("number", "default"), ("array", "low_order"), ("list", "other"), ("array", "other"))])
def factors(c):
    """The normalisation against exact integer arithmetic."""
    from fractions import Fraction
    from math import factorial
    from starwinds_magnetogram import zdi_magnetogram
    kwargs = {} if c["method"] == "default" else {"method": c["method"]}
    l = c["l"]
    ms = list(range(-l, l + 1))
    want = []
    for m in ms:
        ratio_ = Fraction(factorial(l - m), factorial(l + m))
        want.append(np.sqrt((2 * l + 1) / (4 * np.pi)) * np.exp(0.5 * (log_int(ratio_.numerator) - log_int(ratio_.denominator))))
    if c["form"] == "number":
        have = [zdi_magnetogram.get_c_lm(l, m, **kwargs) for m in ms]
        require(all(np.ndim(h) == 0 for h in have), "the factor of one element is not a number")
    elif c["form"] == "list":
        have = zdi_magnetogram.get_c_lm([l] * len(ms), ms, **kwargs)
    else:
        have = zdi_magnetogram.get_c_lm(np.full(len(ms), l), np.array(ms), **kwargs)
    have = np.array(have, dtype=float)
    require(have.shape == (len(ms),), "shape %s", have.shape)
    for m, h, w in zip(ms, have, want):
        require(abs(h - w) <= 1e-9 * w, "the factor of (%d, %d) is %r, expected %r", l, m, h, w)


def log_int(n):
    shift = max(0, n.bit_length() - 900)
    return np.log(float(n >> shift)) + shift * np.log(2.0)


def derivative_case():
    return st.fixed_dictionaries({"c": gen.coeffs(3, 0, 6, False, 1, 10), "n": st.sampled_from([60, 101]), "phi": st.lists(st.floats(-3, 7, allow_nan=False), min_size=1, max_size=3)})


@facet("numerical_derivative", derivative_case, quick=20, thorough=1000, nontrivial=lambda c: any(any(f) and l >= 1 for l, m, f in c["c"]))
def numerical_derivative(c):
    """The older method of the polar poloidal field approaches the analytical one as the grid is refined."""
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], 3))
    errors = []
    terms = gen.terms3(c["c"])
    for n in (c["n"], 2 * c["n"]):
        theta = np.linspace(0.3, np.pi - 0.3, n)
        T, P = np.meshgrid(theta, np.array(c["phi"]), indexing="xy")
        have = mag.get_polar_poloidal_field(T, P)
        want, scales = ref.zdi_components(terms, T, P)
        require(have.shape == T.shape and np.isrealobj(have), "shape %s", have.shape)
        errors.append(np.max(np.abs(have - want["polar", "poloidal"])[:, (theta > 0.6) & (theta < np.pi - 0.6)]) / (np.max(scales["polar", "poloidal"]) + 1e-30))
    require(errors[0] <= 0.1 and errors[1] <= 0.35 * errors[0] + 1e-6, "the error goes from %s to %s when the points are doubled", *errors)
