"""C07: PFSS -> ZDI conversion reproduces the full surface field vector."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "surface vector field of both representations compared with each other and with an independent potential field; round trip"
RULE = ("A case is a PFSS coefficient set (degrees 0-30, orders >= 0) and surface points including the poles. "
        "Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["the converted field refers to a source surface at three stellar radii", "agreement to 1e-7 of the sum of coefficient magnitudes times degree", "single coefficients are compared with the closed form to degree 600"]


@st.composite
def case(draw, lmax=12):
    return {"c": draw(gen.coeffs(1, 0, lmax, False, 1, 25)), "points": draw(gen.angles(1, 5))}


def labels(c):
    for p in c["points"]:
        yield "pole" if abs(np.sin(p[0])) < 1e-3 else "off-axis"
    yield "sets"


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def run(c):
    from starwinds_magnetogram import converter, pfss_magnetogram, zdi_magnetogram
    pfss = gen.build(c["c"], 1)
    zdi = converter.convert_pfss_to_zdi(pfss)
    got = gen.contents(zdi)
    require(zdi.default_coefficients.shape == (3,), "converted set has shape %s", zdi.default_coefficients.shape)
    require(set(got) == {(l, m) for l, m, _ in c["c"]}, "degrees and orders became %s", sorted(got)[:8])
    require(all(v[2] == 0 for v in got.values()), "toroidal coefficients are not zero")
    theta = np.array([p[0] for p in c["points"]])
    phi = np.array([p[1] for p in c["points"]])
    scale = sum(np.hypot(f[0], f[1]) * (l + 1) * 2 for l, m, f in c["c"]) + 1e-30
    mag = zdi_magnetogram.from_coefficients(zdi)
    mirrored = -phi
    have = (primed(mag.get_radial_field, theta, mirrored), primed(mag.get_polar_field, theta, mirrored), -primed(mag.get_azimuthal_field, theta, mirrored))
    want = ref.pfss_field(gen.terms_pfss(c["c"]), np.ones_like(theta), theta, phi, 1.0, 3.0)
    other = primed(pfss_magnetogram.evaluate_spherical, pfss, np.ones_like(theta), theta, phi, radius_star=1, radius_source_surface=3)
    for name, h, w, o in zip(("radial", "polar", "azimuthal"), have, want, other):
        require(gen.close(h, w, scale, 1e-7), "%s: ZDI %s, potential field %s", name, h, w)
        require(gen.close(h, o, scale, 1e-7), "%s: ZDI %s, extrapolation %s", name, h, o)
    back = converter.convert_zdi_to_pfss(_radial(zdi))
    for (l, m), w in gen.table(c["c"]).items():
        require(gen.close(back.get(l, m), w, abs(w[0]), 1e-12), "(%d, %d) came back as %s, was %s", l, m, back.get(l, m), w)


def _radial(zdi):
    from starwinds_magnetogram import coefficients
    return coefficients.hsplit(zdi)[0]


@facet("surface_vector", case, quick=350, thorough=30000, labels=labels, nontrivial=nontrivial,
       examples=[{"c": [[l, m, [1.0, -2.0]]], "points": [[1.0, 0.7], [0.0, 0.3], [np.pi, 1.0], [2.5, 4.0]]}
                 for l in range(0, 6) for m in range(0, l + 1)])
def surface_vector(c):
    run(c)


@facet("high_degree", lambda: case(30), quick=25, thorough=3000, labels=labels, nontrivial=nontrivial,
       examples=[{"c": gen.one_degree(l, scale=s), "points": [[0.9, 0.7], [0.0, 0.3], [2.2, 4.0]]} for l in range(31) for s in ((1.0, 1e-12) if l % 6 == 1 else (1.0,))])
def high_degree(c):
    run(c)


@st.composite
def factor_case(draw):
    top = draw(st.sampled_from([30, 300, 600]))
    rows = st.integers(0, top).flatmap(lambda l: st.tuples(st.just(l), st.integers(0, l), gen.small_float(5.0), gen.small_float(5.0)))
    return {"c": draw(st.lists(rows, min_size=1, max_size=8, unique_by=lambda e: e[:2])), "type": draw(st.sampled_from(["complex128", "complex128", "float64", "int64", "int32"]))}


@facet("factors", factor_case, quick=80, thorough=6000, nontrivial=lambda c: any(e[0] >= 1 and (e[2] or e[3]) for e in c["c"]), labels=lambda c: [c["type"], "degree=%d" % (max(e[0] for e in c["c"]) // 200 * 200)],
       examples=[{"c": [[l, m, 3.0, -2.0] for m in sorted({0, 1, l // 2, l})], "type": t} for l, t in ((3, "complex128"), (3, "int64"), (3, "float64"), (90, "complex128"), (101, "complex128"), (180, "int32"), (300, "complex128"))])
def factors(c):
    """The factors between the normalisations in closed form, which need no field and so reach any degree; coefficients of any type."""
    from starwinds_magnetogram import coefficients, converter
    kind = np.dtype(c["type"])
    obj = coefficients.Coefficients(np.zeros(1, kind))
    want = {}
    for l, m, x, y in c["c"]:
        v = np.asarray([complex(x, y) if kind.kind == "c" else x]).astype(kind)
        obj.append(l, m, v)
        alpha = complex(v[0]) * (-1) ** m * np.sqrt(4 * np.pi * (2 if m else 1) / (2 * l + 1))
        # The ratio of the surface field components for a source surface at three radii.
        beta = alpha * (l + 1) * (1 - 3.0 ** -(2 * l + 1)) / (l + 1 + l * 3.0 ** -(2 * l + 1))
        want[(l, m)] = np.array([alpha, beta, 0])
    before = gen.snapshot(obj)
    got = gen.contents(converter.convert_pfss_to_zdi(obj))
    require(gen.same_snapshot(before, gen.snapshot(obj)), "the argument changed")
    require(set(got) == set(want), "elements %s instead of %s", sorted(got), sorted(want))
    for k, v in want.items():
        require(gen.close(got[k], v, np.abs(v[0]), 1e-11), "%s becomes %s, expected %s", k, got[k], v)


@st.composite
def big_case(draw, lmax=30):
    c = draw(case(2))
    c["c"] = draw(gen.big_coeffs(1, 0, lmax))
    return c


@facet("large_sets", big_case, quick=12, thorough=1500, labels=labels, nontrivial=nontrivial)
def large_sets(c):
    run(c)
