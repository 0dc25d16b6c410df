"""C06: ZDI -> PFSS conversion preserves the radial surface field."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "radial field of both representations compared with each other and with an independent harmonic sum; linearity relations"
RULE = ("A case is a radial coefficient set (orders >= 0), surface points including the poles, stellar and source surface radii, "
        "or two sets and a real factor. Non-trivial: a nonzero coefficient with degree >= 1.")
ASSUMPTIONS = ["double precision: agreement to 1e-7 of the sum of coefficient magnitudes", "degrees up to 80 for sets evaluated at points, up to 1000 for the factor of a single coefficient"]


@st.composite
def case(draw, lmax=12):
    return {"c": draw(gen.coeffs(1, 0, lmax, False, 1, 25)), "points": draw(gen.angles(1, 5)),
            "rstar": draw(st.one_of(st.just(1.0), st.floats(0.2, 5.0))),
            "ratio": draw(st.one_of(st.just(2.5), st.floats(1.05, 20.0)))}


def scale_of(c):
    return sum(np.hypot(f[0], f[1]) * np.sqrt(2 * l + 1.0) for l, m, f in c) + 1e-30


def labels(c):
    for p in c["points"]:
        yield "pole" if abs(np.sin(p[0])) < 1e-3 else "off-axis"
    yield "lmax=%d-%d" % ((max(e[0] for e in c["c"]) // 5) * 5, (max(e[0] for e in c["c"]) // 5) * 5 + 4)


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def check_field(c):
    from starwinds_magnetogram import converter, pfss_magnetogram, zdi_magnetogram
    zdi = gen.build(c["c"], 1)
    pfss = converter.convert_zdi_to_pfss(zdi)
    theta = np.array([p[0] for p in c["points"]])
    phi = np.array([p[1] for p in c["points"]])
    scale = scale_of(c["c"])
    want = ref.zdi_total([(l, m, f[0] + 1j * f[1], 0, 0) for l, m, f in c["c"]], theta, -phi)[0]
    direct = primed(zdi_magnetogram.from_coefficients(zdi).get_radial_field, theta, -phi)
    require(gen.close(direct, want, scale, 1e-7), "ZDI radial field is %s, expected %s", direct, want)
    r, rss = c["rstar"], c["rstar"] * c["ratio"]
    br, _, _ = primed(pfss_magnetogram.evaluate_spherical, pfss, r * np.ones_like(theta), theta, phi, radius_star=r, radius_source_surface=rss)
    require(gen.close(br, direct, scale, 1e-7), "PFSS radial field %s, ZDI radial field at the mirrored azimuth %s", br, direct)
    got = gen.contents(pfss)
    require(set(got) == {(l, m) for l, m, _ in c["c"]}, "degrees and orders became %s", sorted(got)[:8])
    # Element by element: converting one element alone gives the same element.
    for l, m, f in c["c"]:
        one = converter.convert_zdi_to_pfss(gen.build([[l, m, f]], 1))
        have = one.get(l, m)
        require(gen.close(have, got[(l, m)], abs(f[0]) + abs(f[1]), 1e-12 * (2 * l + 1)), "(%d, %d) alone gives %s, in the set %s", l, m, have, got[(l, m)])


@facet("surface_field", case, quick=350, thorough=30000, labels=labels, nontrivial=nontrivial,
       examples=[{"c": [[l, m, [1.0, -2.0]]], "points": [[1.0, 0.7], [0.0, 0.3], [2.5, 4.0]], "rstar": 1.0, "ratio": 2.5}
                 for l in range(0, 6) for m in range(0, l + 1)])
def surface_field(c):
    check_field(c)


@facet("high_degree", lambda: case(30), quick=25, thorough=3000, labels=labels, nontrivial=nontrivial,
       examples=[{"c": gen.one_degree(l, scale=s), "points": [[0.9, 0.7], [0.0, 0.3], [2.2, 4.0]], "rstar": 1.0, "ratio": 2.5} for l in range(31) for s in ((1.0, 1e-12) if l % 6 == 1 else (1.0,))])
def high_degree(c):
    check_field(c)


@st.composite
def pair(draw):
    return {"a": draw(gen.coeffs(1, 0, 12)), "b": draw(gen.coeffs(1, 0, 12)), "k": draw(gen.small_float(5.0))}


@facet("linear", pair, quick=150, thorough=15000, nontrivial=lambda c: gen.nonzero_count(c["a"]) and gen.nonzero_count(c["b"]))
def linear(c):
    from starwinds_magnetogram import converter
    a, b = gen.table(c["a"]), gen.table(c["b"])
    keys = list(a) + [k for k in b if k not in a]
    mixed = [[l, m, [float(v) for z in (a.get((l, m), 0 * 1j) + c["k"] * b.get((l, m), 0 * 1j),)
                     for v in (np.ravel(z)[0].real, np.ravel(z)[0].imag)]] for l, m in keys]
    fa = gen.contents(converter.convert_zdi_to_pfss(gen.build(c["a"], 1)))
    fb = gen.contents(converter.convert_zdi_to_pfss(gen.build(c["b"], 1)))
    fm = gen.contents(converter.convert_zdi_to_pfss(gen.build(mixed, 1)))
    require(set(fm) == set(keys), "keys differ")
    for k in keys:
        want = fa.get(k, 0) + c["k"] * fb.get(k, 0)
        scale = np.max(np.abs(fa.get(k, 0))) + np.max(np.abs(c["k"] * fb.get(k, 0)))
        require(gen.close(fm[k], np.atleast_1d(want), scale, 1e-12), "%s: %s, expected %s", k, fm[k], want)


@st.composite
def big_case(draw, lmax=30):
    c = draw(case(2))
    c["c"] = draw(gen.big_coeffs(1, 0, lmax))
    return c


def high_case():
    return st.tuples(case(2), st.lists(st.integers(31, 80).flatmap(lambda l: st.tuples(st.just(l), st.one_of(st.just(l), st.integers(0, l)), gen.small_float(5.0), gen.small_float(5.0))),
                                       min_size=1, max_size=3, unique_by=lambda e: e[:2])).map(lambda t: dict(t[0], c=[[l, m, [x, y]] for l, m, x, y in t[1]]))


@facet("very_high_degree", high_case, quick=25, thorough=2000, labels=labels, nontrivial=nontrivial,
       examples=[{"c": [[l, m, [1.0, -2.0]]], "points": [[1.0, 0.7], [0.0, 0.3], [2.5, 4.0]], "rstar": 1.0, "ratio": 2.5} for l in (35, 50, 65, 80) for m in (0, 1, l // 2, l - 1, l)])
def very_high_degree(c):
    check_field(c)


@st.composite
def factor_case(draw):
    l = draw(st.one_of(st.integers(0, 30), st.integers(0, 1000)))
    return {"c": draw(st.lists(st.integers(0, l).flatmap(lambda k: st.tuples(st.just(k), st.integers(0, k), gen.small_float(5.0), gen.small_float(5.0))), min_size=1, max_size=8, unique_by=lambda e: e[:2])),
            "type": draw(st.sampled_from(["complex128", "complex128", "float64", "int64", "int32", "float32", "complex64"]))}


@facet("factors", factor_case, quick=80, thorough=6000, nontrivial=lambda c: any(e[0] >= 1 and (e[2] or e[3]) for e in c["c"]), labels=lambda c: [c["type"], "degree=%d" % (max(e[0] for e in c["c"]) // 200 * 200)],
       examples=[{"c": [[l, m, 3.0, -2.0] for m in sorted({0, 1, l // 2, l})], "type": t} for l, t in ((3, "complex128"), (3, "int64"), (3, "float64"), (90, "complex128"), (101, "complex128"), (180, "int32"), (300, "complex128"), (720, "float64"))])
def factors(c):
    """The factor between the two normalisations in closed form, which needs no field and so reaches any degree; coefficients of any type."""
    from starwinds_magnetogram import coefficients, converter
    kind = np.dtype(c["type"])
    obj = coefficients.Coefficients(np.zeros(1, kind))
    want = {}
    for l, m, x, y in c["c"]:
        v = np.asarray([complex(x, y) if kind.kind == "c" else x]).astype(kind)
        obj.append(l, m, v)
        want[(l, m)] = complex(v[0]) * (-1) ** m * np.sqrt((2 * l + 1) / (4 * np.pi * (2 if m else 1)))
    before = gen.snapshot(obj)
    got = gen.contents(converter.convert_zdi_to_pfss(obj))
    require(gen.same_snapshot(before, gen.snapshot(obj)), "the argument changed")
    require(set(got) == set(want), "elements %s instead of %s", sorted(got), sorted(want))
    for k, v in want.items():
        require(gen.close(got[k], np.array([v]), abs(v), 1e-5 if c["type"] in ("float32", "complex64") else 1e-11), "%s becomes %s, expected %s", k, got[k], v)


@facet("large_sets", big_case, quick=12, thorough=1500, labels=labels, nontrivial=nontrivial)
def large_sets(c):
    check_field(c)
