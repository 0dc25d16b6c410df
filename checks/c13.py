"""C13: folding negative orders onto positive ones leaves the field unchanged."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.harness import facet, require

ORACLE = "field before and after folding at generated points, closed form per element, idempotence and linearity"
RULE = ("A case is a single-component coefficient set with any mix of negative and positive orders and points (poles included). "
        "Non-trivial: a nonzero negative-order coefficient.")
ASSUMPTIONS = ["agreement to 1e-9 of the sum of coefficient magnitudes", "single-component sets"]


@st.composite
def case(draw, lmax=10):
    return {"c": draw(gen.coeffs(1, 0, lmax, True, 1, 25)), "points": draw(gen.angles(1, 5)),
            "d": draw(gen.coeffs(1, 0, 6, True, 1, 12)), "k": draw(gen.small_float(5.0))}


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if m < 0)


def labels(c):
    signs = {np.sign(m) for l, m, f in c["c"] if any(f)}
    yield "both-signs" if {1, -1} <= signs else "negative-only" if -1 in signs else "positive-only"


def scale_of(c):
    return sum(np.hypot(f[0], f[1]) * np.sqrt(2 * l + 1.0) for l, m, f in c) + 1e-30


def values(obj, theta, phi):
    terms = [(l, m, v[0], 0, 0) for (l, m), v in gen.contents(obj).items()]
    return ref.zdi_total(terms, theta, phi)[0]


@facet("folding", case, quick=350, thorough=30000, nontrivial=nontrivial, labels=labels,
       examples=[{"c": [[l, m, [1.0, -0.5]]], "points": [[1.0, 0.4], [2.0, 4.0]], "d": [[1, -1, [1.0, 2.0]]], "k": -2.0}
                 for l in range(4) for m in range(-l, l + 1)])
def folding(c):
    fold(c)


@st.composite
def big_case(draw):
    c = draw(case(3))
    c["c"] = draw(gen.big_coeffs(1, 0, 30, True))
    return c


@facet("large_sets", big_case, quick=12, thorough=1500, nontrivial=nontrivial, labels=labels,
       examples=[{"c": gen.one_degree(l, 1, neg), "points": [[1.0, 0.4], [0.0, 1.0], [2.0, 4.0]], "d": [[1, -1, [1.0, 2.0]]], "k": -2.0} for l in list(range(31)) + [35, 41, 45, 50, 60] for neg in ((True, False) if l % 5 == 4 else (True,))])
def large_sets(c):
    fold(c)


def fold(c):
    from starwinds_magnetogram import converter, zdi_magnetogram
    obj = gen.build(c["c"], 1)
    before = gen.snapshot(obj)
    folded = converter.map_to_positive_orders(obj)
    require(gen.same_snapshot(before, gen.snapshot(obj)), "folding changed its argument")
    got = gen.contents(folded)
    require(all(m >= 0 for l, m in got), "negative orders remain: %s", sorted(got)[:6])
    theta, phi = np.array(c["points"]).T
    scale = scale_of(c["c"])
    require(gen.close(values(folded, theta, phi), values(obj, theta, phi), scale, 1e-9), "field %s, was %s", values(folded, theta, phi), values(obj, theta, phi))
    own = zdi_magnetogram.from_coefficients(folded).get_radial_field(theta, phi)
    was = zdi_magnetogram.from_coefficients(obj).get_radial_field(theta, phi)
    require(gen.close(own, was, scale, 1e-7), "radial field %s, was %s", own, was)
    source = gen.table(c["c"])
    top = max(l for l, m in source)
    zero = np.zeros(1, complex)
    for l in range(top + 1):
        for m in range(l + 1):
            want = source.get((l, m), zero)
            if m:
                want = want + (-1) ** m * np.conj(source.get((l, -m), zero))
            s = np.abs(source.get((l, m), zero)) + np.abs(source.get((l, -m), zero))
            require(gen.close(got.get((l, m), zero), want, s, 1e-12), "(%d, %d) is %s, expected %s", l, m, got.get((l, m)), want)
    require(all(l <= top for l, m in got), "higher degrees appear")
    twice = gen.contents(converter.map_to_positive_orders(folded))
    require(set(twice) == set(got) and all(gen.close(twice[k], got[k], np.abs(got[k]), 1e-12) for k in got), "folding twice differs from once")
    for o in (folded, converter.map_to_positive_orders(folded)):
        for _, v in o.contents():
            v += 1e6
        o.set(top + 3, 1, np.ones(1))
    require(gen.same_snapshot(before, gen.snapshot(obj)), "changing the folded set changed the original")
    # Linearity over real factors.
    other = gen.build(c["d"], 1)
    total = gen.contents(converter.map_to_positive_orders(obj + other * c["k"]))
    of = gen.contents(converter.map_to_positive_orders(other))
    s = scale + abs(c["k"]) * scale_of(c["d"])
    for k in set(total) | set(got) | set(of):
        want = got.get(k, zero) + c["k"] * of.get(k, zero)
        require(gen.close(total.get(k, zero), want, s, 1e-12), "sum folds to %s at %s, expected %s", total.get(k), k, want)
