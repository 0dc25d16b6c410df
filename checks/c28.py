"""C28: restricted magnetograms partition the full magnetogram."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "the generated table filtered by range, the reference field of the kept terms, and sums of fields and energies of complementary restrictions"
RULE = ("A case is a ZDI magnetogram of 1-3 components, ranges (a pair or a single number) of degree and order, a dividing degree and order, and surface points. "
        "Non-trivial: the restriction keeps some but not all elements.")
ASSUMPTIONS = ["ranges are given as integers", "energies are compared where some coefficient is not zero"]

GETTERS = ("get_radial_field", "get_polar_field", "get_azimuthal_field", "get_radial_poloidal_field", "get_polar_poloidal_field_new", "get_azimuthal_poloidal_field",
           "get_radial_toroidal_field", "get_polar_toroidal_field", "get_azimuthal_toroidal_field_new")


@st.composite
def spans(draw, present):
    """Ranges whose limits are mostly present values or next to them."""
    values = sorted({v + d for v in present for d in (-1, 0, 0, 1)})
    pick = st.sampled_from(values)
    kind = draw(st.sampled_from(["none", "none", "pair", "pair", "pair", "single", "one"]))
    if kind == "none":
        return None
    if kind in ("single", "one"):
        v = draw(pick)
        return v if kind == "single" else [v]
    return sorted([draw(pick), draw(pick)])


@st.composite
def cases(draw):
    n = draw(st.sampled_from([3, 3, 3, 1, 2]))
    c = draw(gen.coeffs(n, 0, 7, draw(st.sampled_from([False, False, True])), draw(st.sampled_from([1, 3, 6])), 20))
    return {"n": n, "c": c, "l": draw(spans([e[0] for e in c])), "m": draw(spans([e[1] for e in c])),
            "cut_l": draw(st.integers(0, 7)), "cut_m": draw(st.integers(-2, 6)), "points": draw(gen.angles(1, 4)), "array": draw(st.booleans())}


def rows_of(m):
    return {(int(l), int(o)): np.array([a, b, g], dtype=complex) for l, o, a, b, g in zip(m.degrees_l, m.orders_m, m.alpha, m.beta, m.gamma)}


def same_rows(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def full_table(c):
    return {k: np.concatenate((v, np.zeros(3 - len(v)))) for k, v in gen.table(c["c"]).items()}


def limits(span, lo, hi):
    if span is None:
        return lo, hi
    if isinstance(span, int):
        return span, span
    return span[0], span[-1]


def kept(c):
    (l0, l1), (m0, m1) = limits(c["l"], 0, 10 ** 6), limits(c["m"], -10 ** 6, 10 ** 6)
    return {k: v for k, v in full_table(c).items() if l0 <= k[0] <= l1 and m0 <= k[1] <= m1}


def fields(m, t, p):
    return [primed(getattr(m, g), t, p) for g in GETTERS]


def expected_fields(table, t, p):
    parts, _ = ref.zdi_components([(l, m) + tuple(v) for (l, m), v in table.items()], t, p)
    pol = [parts[(d, "poloidal")] for d in ("radial", "polar", "azimuthal")]
    tor = [parts[(d, "toroidal")] for d in ("radial", "polar", "azimuthal")]
    return [a + b for a, b in zip(pol, tor)] + pol + tor


def compare(what, m, table, t, p, scale):
    for name, got, want in zip(GETTERS, fields(m, t, p), expected_fields(table, t, p)):
        require(gen.close(got, want, scale, 1e-9), "%s: %s is %s, expected %s", what, name, got, want)


@st.composite
def changing(draw):
    c = draw(cases())
    c["steps"] = draw(st.lists(st.tuples(st.sampled_from(["alpha", "beta", "gamma"]), st.sampled_from(["replace", "in place", "one"]), st.sampled_from([2.0, -1.0, 0.0, 1e-3]), st.integers(0, 19)).map(list), min_size=1, max_size=3))
    return c


@facet("changed", changing, quick=60, thorough=4000, nontrivial=lambda c: gen.nonzero_count(c["c"]) > 0, labels=lambda c: [s[0] + " " + s[1] for s in c["steps"]])
def changed(c):
    """Fields, energies and derived magnetograms are those of the coefficients that the magnetogram holds at the time."""
    from starwinds_magnetogram import zdi_magnetogram
    m = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    t, p = (np.array([q[i] for q in c["points"]]) for i in (0, 1))
    table = full_table(c)
    scale = 3 * sum(np.sum(np.abs(v)) * (2 * k[0] + 1) for k, v in table.items()) + 1e-300
    compare("first", m, table, t, p, scale)
    m.energy(dest={}), m.energy_matrix(), m.as_poloidal(), m.get_field_strength(t, p)
    for name, how, factor, k in c["steps"]:
        values = getattr(m, name)
        k %= len(values)
        where = {"alpha": 0, "beta": 1, "gamma": 2}[name]
        keys = list(zip(m.degrees_l, m.orders_m))
        if how == "replace":
            setattr(m, name, values * factor)
        elif how == "in place":
            values *= factor
        else:
            values[k] *= factor
        for i, key in enumerate(keys):
            if how != "one" or i == k:
                table[tuple(int(x) for x in key)][where] *= factor
        require(same_rows(rows_of(m), table), "the magnetogram holds other coefficients")
        compare("changed", m, table, t, p, scale)
        fresh = zdi_magnetogram.from_coefficients(gen.build([[l, o, [x for z in table[l, o] for x in (z.real, z.imag)]] for l, o in (tuple(int(x) for x in key) for key in keys)], 3))
        order = [list(zip(fresh.degrees_l, fresh.orders_m)).index(key) for key in keys]
        for a, b in zip(m.energy(dest={}), fresh.energy(dest={})):
            require(gen.close(a, b[order], scale ** 2, 1e-13), "energies %s, of the same coefficients in a new magnetogram %s", a, b[order])
        for a, b in zip(m.energy_matrix(), fresh.energy_matrix()):
            require(gen.close(a, b, scale ** 2, 1e-13), "energy matrix %s, of the same coefficients in a new magnetogram %s", a, b)
        strength = np.sqrt(sum(f ** 2 for f in expected_fields(table, t, p)[:3]))
        require(gen.close(m.get_field_strength(t, p), strength, scale, 1e-9), "field strength %s, expected %s", m.get_field_strength(t, p), strength)
        compare("toroidal", m.as_toroidal(), {k_: v * np.array([0, 0, 1]) for k_, v in table.items()}, t, p, scale)
        compare("copy", m.copy(), table, t, p, scale)


@facet("restricted", cases, quick=400, thorough=20000, nontrivial=lambda c: 0 < len(kept(c)) < len(c["c"]),
       labels=lambda c: ["degree" if c["l"] is not None else "any degree", "order" if c["m"] is not None else "any order", "negative" if any(m < 0 for _, m, _ in c["c"]) else "non-negative"],
       examples=[{"n": 3, "c": [[1, -1, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0]], [1, 0, [1.0, 0.0, 1.0, 0.0, 1.0, 0.0]], [2, 1, [1.0] * 6]], "l": [1, 1], "m": None, "cut_l": 1, "cut_m": 0,
                  "points": [[1.0, 2.0]], "array": False}] +
                [{"n": 3, "c": gen.full_set(3, 0, 26, False, 9, shuffle=True), "l": span, "m": None, "cut_l": 13, "cut_m": 4, "points": [[1.0, 2.0]], "array": True} for span in ([1, 25], [24, 40])])
def restricted(c):
    from starwinds_magnetogram import zdi_magnetogram
    m = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    table = full_table(c)
    before = rows_of(m)
    require(same_rows(before, table), "the magnetogram holds other coefficients than the set it was made from")
    t, p = (np.array([q[i] for q in c["points"]]) for i in (0, 1))
    scale = sum(np.sum(np.abs(v)) * (2 * k[0] + 1) for k, v in table.items()) + 1e-300
    kwargs = {}
    for key, name in (("l", "degree_l_range"), ("m", "order_m_range")):
        if c[key] is not None:
            kwargs[name] = c[key] if isinstance(c[key], int) else np.array(c[key]) if c["array"] else tuple(c[key])
    want = kept(c)
    r = m.as_restricted(**kwargs)
    require(same_rows(rows_of(r), want), "restricting to %s keeps %s, expected %s", kwargs, sorted(rows_of(r)), sorted(want))
    compare("restricted", r, want, t, p, scale)
    dipole = m.as_dipole()
    compare("dipole", dipole, {k: v for k, v in table.items() if k[0] == 1}, t, p, scale)
    require(same_rows(rows_of(dipole), {k: v for k, v in table.items() if k[0] == 1}), "the dipole holds %s", sorted(rows_of(dipole)))
    # Complementary ranges add up.
    cut, mcut = c["cut_l"], c["cut_m"]
    pieces = [m.as_restricted(degree_l_range=a, order_m_range=b) for a in ((0, cut), (cut + 1, 99)) for b in ((-99, mcut), (mcut + 1, 99))]
    require(sum(len(rows_of(x)) for x in pieces) == len(table), "the pieces hold %d elements of %d", sum(len(rows_of(x)) for x in pieces), len(table))
    for name, whole, *parts in zip(GETTERS, fields(m, t, p), *[fields(x, t, p) for x in pieces]):
        require(gen.close(sum(parts), whole, scale, 1e-10), "%s of the pieces does not add up", name)
    if all(o >= 0 for _, o in table):
        # The three energies, from the coefficients.
        whole = [np.sum(x) for x in m.energy(dest={})]
        parts = [[np.sum(x) for x in piece.energy(dest={})] for piece in pieces]
        esum = np.sum(np.array(parts), axis=0)
        require(gen.close(esum, np.array(whole), scale ** 2, 1e-12), "energies of the pieces %s, of the whole %s", esum, whole)
    # Poloidal and toroidal versions and copies.
    pol, tor, copy = m.as_poloidal(), m.as_toroidal(), m.copy()
    require(same_rows(rows_of(pol), {k: v * np.array([1, 1, 0]) for k, v in table.items()}), "the poloidal version holds other coefficients")
    require(same_rows(rows_of(tor), {k: v * np.array([0, 0, 1]) for k, v in table.items()}), "the toroidal version holds other coefficients")
    require(same_rows(rows_of(copy), table), "the copy holds other coefficients")
    compare("poloidal", pol, {k: v * np.array([1, 1, 0]) for k, v in table.items()}, t, p, scale)
    compare("toroidal", tor, {k: v * np.array([0, 0, 1]) for k, v in table.items()}, t, p, scale)
    compare("copy", copy, table, t, p, scale)
    for name, a, b, whole in zip(GETTERS, fields(pol, t, p), fields(tor, t, p), fields(m, t, p)):
        require(gen.close(a + b, whole, scale, 1e-10), "%s of the poloidal and toroidal versions does not add up", name)
    if len(want):
        degrees = [k[0] for k in want]
        require(r.degree() == max(degrees), "the restricted magnetogram reports degree %s", r.degree())
    # Independence of the original, both ways.
    for other in (r, dipole, pol, tor, copy) + tuple(pieces):
        for array in (other.alpha, other.beta, other.gamma):
            array += 1000.0
        other.degrees_l[...] = 3
        other.orders_m[...] = 0
    require(same_rows(rows_of(m), before), "changing a derived magnetogram changed the original")
    compare("original", m, table, t, p, scale)
    derived = [m.copy(), m.as_poloidal(), m.as_toroidal(), m.as_restricted(**kwargs)]
    states = [rows_of(x) for x in derived]
    for array in (m.alpha, m.beta, m.gamma):
        array += 1000.0
    m.degrees_l[...] = 3
    m.orders_m[...] = 0
    require(all(same_rows(rows_of(x), s) for x, s in zip(derived, states)), "changing the original changed a derived magnetogram")
    compare("copy", derived[0], table, t, p, scale)


@st.composite
def table_case(draw):
    top = draw(st.sampled_from([10, 40, 130, 200, 300]))
    n = draw(st.integers(1, 400))
    rng = draw(st.integers(0, 10 ** 6))
    return {"top": top, "n": n, "seed": rng, "negative": draw(st.booleans()), "l": sorted([draw(st.integers(0, top)), draw(st.integers(0, top))]), "m": sorted([draw(st.integers(-top, top)), draw(st.integers(-top, top))]),
            "which": draw(st.sampled_from(["l", "m", "both"]))}


@facet("tables", table_case, quick=150, thorough=10000, nontrivial=lambda c: c["n"] > 20, labels=lambda c: ["degrees to %d" % c["top"], c["which"]],
       examples=[{"top": 200, "n": 3000, "seed": 1, "negative": neg, "l": [3, 150], "m": [-130, 190], "which": w} for neg in (True, False) for w in ("l", "m", "both")])
def tables(c):
    """Coefficients of any degree, also those too high for the fields to be computed: the derived magnetograms hold the right ones in the right order."""
    from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
    rng = np.random.default_rng(c["seed"])
    l = rng.integers(0, c["top"] + 1, c["n"])
    m = np.array([rng.integers(-k if c["negative"] else 0, k + 1) for k in l])
    l, m = np.array(sorted(set(zip(l, m)))).T if c["seed"] % 2 else np.array(list(dict.fromkeys(zip(l.tolist(), m.tolist())))).T
    values = rng.normal(size=(3, len(l))) + 1j * rng.normal(size=(3, len(l)))
    whole = ZdiMagnetogram(l.copy(), m.copy(), *[v.copy() for v in values])
    keep = np.ones(len(l), dtype=bool)
    kwargs = {}
    if c["which"] in ("l", "both"):
        kwargs["degree_l_range"] = tuple(c["l"])
        keep &= (c["l"][0] <= l) & (l <= c["l"][1])
    if c["which"] in ("m", "both"):
        kwargs["order_m_range"] = tuple(c["m"])
        keep &= (c["m"][0] <= m) & (m <= c["m"][1])
    zero = np.zeros(len(l))
    one = np.ones(len(l), dtype=bool)
    for name, have, which, parts in (("restricted", whole.as_restricted(**kwargs), keep, values), ("dipole", whole.as_dipole(), l == 1, values), ("copy", whole.copy(), one, values),
                                     ("poloidal", whole.as_poloidal(), one, [values[0], values[1], zero]), ("toroidal", whole.as_toroidal(), one, [zero, zero, values[2]])):
        for part, want in zip(("degrees_l", "orders_m", "alpha", "beta", "gamma"), [l, m] + list(parts)):
            require(np.array_equal(getattr(have, part), np.asarray(want)[which]), "%s of the %s magnetogram: %s, expected %s", part, name, getattr(have, part), np.asarray(want)[which])
