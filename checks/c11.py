"""C11: magnetic energies equal the surface integral of the squared field."""
import contextlib
import io
import re

import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.harness import facet, require

ORACLE = "exact quadrature of the squared field (reference expansion and the package's own components) and recomputed ratios"
RULE = ("A case is a ZDI coefficient set with 1-3 components, of positive and negative orders (not both signs of one order), possibly without some degrees, without an axial dipole, purely poloidal or "
        "purely toroidal. Non-trivial: at least two elements with a nonzero value.")
ASSUMPTIONS = ["Gauss-Legendre quadrature exact for the degrees used", "an order and its negative are not both present at one degree", "ratios with a zero denominator are not a number",
               "values below 1e-6 of the largest are zero"]

QUIET = ["magnetogram.total.energy.B2"]


@st.composite
def case(draw, lmax=9):
    n = draw(st.sampled_from([3, 3, 3, 1, 2]))
    c = draw(gen.coeffs(n, 0, lmax, draw(st.sampled_from([False, False, True])), 1, 25))
    c = [e for i, e in enumerate(c) if e[1] == 0 or not any(d[:2] == [e[0], -e[1]] for d in c[:i])]
    largest = max(abs(v) for e in c for v in e[2])
    kind = draw(st.sampled_from(["mixed", "mixed", "poloidal", "toroidal", "no-dipole"])) if n == 3 else "mixed"
    out = []
    for l, m, f in c:
        f = [0.0 if abs(v) < 1e-6 * largest else v for v in f]
        if m == 0:      # The imaginary part is without effect, but limits the precision.
            f = [0.0 if k % 2 == 0 and abs(v) < 0.02 * abs(f[k + 1]) else v for k, v in enumerate(f)]
        if kind == "poloidal":
            f = f[:4] + [0.0, 0.0]
        if kind == "toroidal":
            f = [0.0] * 4 + f[4:]
        if kind == "no-dipole" and l == 1:
            continue
        out.append([l, m, f])
    return {"n": n, "c": out or [[2, 1, [1.0, 2.0] * n]], "kind": kind}


def nontrivial(c):
    return gen.nonzero_count(c["c"]) >= 2


def labels(c):
    yield c["kind"]
    yield "negative-orders" if any(e[1] < 0 for e in c["c"]) else "positive-orders"
    yield "components=%d" % c["n"]
    yield "axial-dipole" if any(e[:2] == [1, 0] for e in c["c"]) else "no-axial-dipole"


def reference(c):
    """[(l, m, radial, poloidal without radial, toroidal)] by quadrature of the reference expansion, element by element."""
    lmax = max(e[0] for e in c["c"])
    theta, phi, w = ref.sphere_quadrature(lmax + 1)
    out = []
    for l, m, a, b, g in gen.terms3(c["c"]):
        f, _ = ref.zdi_components([(l, m, a, b, g)], theta, phi)
        out.append((l, m, np.sum(w * f["radial", "poloidal"] ** 2),
                    np.sum(w * (f["polar", "poloidal"] ** 2 + f["azimuthal", "poloidal"] ** 2)),
                    np.sum(w * (f["polar", "toroidal"] ** 2 + f["azimuthal", "toroidal"] ** 2))))
    return out


def eq(have, want, scale):
    return np.isfinite(have) and abs(have - want) <= 1e-9 * scale + 1e-300


def sizes(rows):
    """A small part of the squared coefficients, which include parts without effect."""
    return {(e[0], e[1]): 1e-5 * sum(x * x for x in e[2]) for e in rows}


def ratio(have, num, den, total, name):
    if den <= 1e-12 * total or den == 0:
        return
    require(np.isfinite(have) and abs(have - num / den) <= 1e-8 * max(1.0, total / den), "%s is %r, expected %r", name, have, num / den)


@facet("energy", case, quick=250, thorough=25000, nontrivial=nontrivial, labels=labels,
       examples=[{"n": 3, "c": [[l, m, [1.0, -0.5, 0.7, 0.2, -0.3, 0.9]], [3, 1, [0.3, 0.2, 0.1, 0.4, 0.6, -0.8]]], "kind": "mixed"}
                 for l in range(3) for m in range(l + 1)])
def energy(c):
    check_energy(c)


def check_energy(c):
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    named = {}
    ea, eb, eg = mag.energy(dest=named)
    printed = mag.energy()
    printed2 = mag.energy(show_fractions=True)
    refs = reference(c)
    total = sum(r + p + t for _, _, r, p, t in refs)
    scale = total + 1e-30
    where = {(int(l), int(m)): i for i, (l, m) in enumerate(zip(mag.degrees_l, mag.orders_m))}
    require(len(where) == len(c["c"]) and len(ea) == len(eb) == len(eg) == len(where), "%d energies for %d elements", len(ea), len(c["c"]))
    size = sizes(c["c"])
    for l, m, r, p, t in refs:
        i = where[(l, m)]
        for name, have, want in (("radial", ea[i], r), ("other poloidal", eb[i], p), ("toroidal", eg[i], t)):
            require(eq(have, want, r + p + t + size[l, m]), "%s energy of (%d, %d) is %r, the integral is %r", name, l, m, have, want)
    for other in (printed, printed2):
        require(all(np.array_equal(x, y) for x, y in zip(other, (ea, eb, eg))), "printing changes the returned energies")

    def add(select, *columns):
        return sum(sum(row[k] for k in columns) for row in refs if select(row[0], row[1]))

    every = (lambda l, m: True)
    pol, tor, rad = add(every, 2, 3), add(every, 4), add(every, 2)
    require(eq(named["magnetogram.total.energy.B2"], total, scale), "total energy %r, expected %r", named["magnetogram.total.energy.B2"], total)
    want = {
        "magnetogram.radial.energy.fraction": (rad, total),
        "magnetogram.poloidal.energy.fraction": (pol, total),
        "magnetogram.toroidal.energy.fraction": (tor, total),
        "magnetogram.total.energy.axisymmetric.fraction": (add(lambda l, m: m == 0, 2, 3, 4), total),
        "magnetogram.total.energy.radial.axisymmetric.fraction": (add(lambda l, m: m == 0, 2), pol),
        "magnetogram.total.energy.poloidal.axisymmetric.fraction": (add(lambda l, m: m == 0, 2, 3), pol),
        "magnetogram.total.energy.toroidal.axisymmetric.fraction": (add(lambda l, m: m == 0, 4), tor),
        "magnetogram.total.energy.dipole.axisymmetric.fraction": (add(lambda l, m: m == 0 and l == 1, 2, 3), add(lambda l, m: l == 1, 2, 3)),
    }
    for d, name in ((1, "dipole"), (2, "quadrupole"), (3, "octopole")):
        want["magnetogram.total.energy.%s.fraction" % name] = (add(lambda l, m: l == d, 2, 3), pol)
        want["magnetogram.total.energy.toroidal.l%d.fraction" % d] = (add(lambda l, m: l == d, 4), tor)
    for d in range(1, 16):
        want["magnetogram.pol.energy.l%d.fraction" % d] = (add(lambda l, m: l == d, 2, 3), pol)
        want["magnetogram.tor.energy.l%d.fraction" % d] = (add(lambda l, m: l == d, 4), tor)
    for name, (num, den) in want.items():
        require(name in named, "%s is not reported", name)
        ratio(named[name], num, den, total, name)
    # Other calculations on the same dictionary keep what is there.
    kept = {"unrelated": 1}
    mag.energy(dest=kept)
    require(kept.pop("unrelated") == 1 and set(kept) == set(named), "the dictionary's other values are lost")
    # A dictionary that holds the energies of another magnetogram.
    used = {}
    zdi_magnetogram.from_coefficients(gen.build([[l, m, [x * (l + 1.5) + 0.3 for x in f[::-1]]] for l, m, f in c["c"]] + [[k, 0, [1.0 + k] * (2 * c["n"])] for k in range(17) if all(e[0] != k for e in c["c"])], c["n"])).energy(dest=used)
    mag.energy(dest=used)
    require(set(used) >= set(named) and all(np.array_equal(used[k], named[k], equal_nan=True) for k in named), "a dictionary that was used before has other values: %s",
            [(k, used.get(k), named[k]) for k in named if k not in used or not np.array_equal(used[k], named[k], equal_nan=True)][:3])
    zeros = {k: -1.0 for k in named}
    mag.energy(dest=zeros)
    require(all(np.array_equal(zeros[k], named[k], equal_nan=True) for k in named), "values in the dictionary are not replaced")


@facet("degrees", lambda: st.fixed_dictionaries({"l": st.integers(1, 24), "seed": st.integers(0, 10 ** 6), "scale": st.sampled_from(gen.SCALES), "n": st.sampled_from([3, 3, 1, 2])}),
       quick=10, thorough=1000, labels=lambda c: ["degree=%d" % c["l"]], examples=[{"l": l, "seed": l, "scale": 1.0, "n": 3} for l in range(1, 31)])
def degrees(c):
    """Every order of one degree, of either sign."""
    rows = [[l, -m if (m + c["seed"]) % 3 == 0 else m, f] for l, m, f in gen.full_set(c["n"], c["l"], c["l"], False, c["seed"], c["scale"])]
    check_energy({"n": c["n"], "c": rows, "kind": "mixed"})
    check_matrix({"n": c["n"], "c": rows, "kind": "mixed"})


@facet("field_integral", lambda: case(6), quick=80, thorough=8000, nontrivial=nontrivial, labels=labels)
def field_integral(c):
    """The package's own field components integrate to the package's own energies."""
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    theta, phi, w = ref.sphere_quadrature(max(e[0] for e in c["c"]) + 1)
    f = mag.get_all()
    integral = {(d, t): np.sum(w * f[d][t](theta, phi) ** 2) for d in f for t in f[d]}
    ea, eb, eg = (np.sum(e) for e in mag.energy(dest={}))
    total = sum(integral.values())
    for name, have, want in (("radial", ea, integral["radial", "poloidal"]),
                             ("other poloidal", eb, integral["polar", "poloidal"] + integral["azimuthal", "poloidal"]),
                             ("toroidal", eg, integral["polar", "toroidal"] + integral["azimuthal", "toroidal"])):
        require(eq(have, want, total * 10), "%s energy %r, integral %r", name, have, want)
    strength = np.sum(w * mag.get_field_strength(theta, phi) ** 2)
    require(eq(ea + eb + eg, strength, total * 10), "total energy %r, integral of the squared strength %r", ea + eb + eg, strength)


@facet("matrix", case, quick=120, thorough=10000, nontrivial=nontrivial, labels=labels)
def matrix(c):
    check_matrix(c)


def check_matrix(c):
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    er, ep, et = mag.energy_matrix()
    top = max(e[0] for e in c["c"])
    refs = {(l, m): (r, p, t) for l, m, r, p, t in reference(c)}
    scale = sum(sum(v) for v in refs.values()) + 1e-30
    size = sizes(c["c"])
    for mat in (er, ep, et):
        require(mat.shape == (top + 1, 2 * top + 1), "matrix has shape %s for degree %d", mat.shape, top)
    for l in range(top + 1):
        for col in range(2 * top + 1):
            r, p, t = refs.get((l, col - top), (0.0, 0.0, 0.0))
            for name, have, want in (("radial", er[l, col], r), ("poloidal", ep[l, col], r + p), ("toroidal", et[l, col], t)):
                require(eq(have, want, r + p + t + 1e-12 * scale + size.get((l, col - top), 0.0)), "%s matrix at (%d, %d) is %r, expected %r", name, l, col - top, have, want)


# The words of a printed line and the value it states.
PRINTED = [(("radial", "energy"), "magnetogram.radial.energy.fraction"), (("poloidal", "energy"), "magnetogram.poloidal.energy.fraction"), (("toroidal", "energy"), "magnetogram.toroidal.energy.fraction"),
           (("dipole", "l1"), "magnetogram.total.energy.dipole.fraction"), (("quadrupole", "l2"), "magnetogram.total.energy.quadrupole.fraction"), (("octopole", "l3"), "magnetogram.total.energy.octopole.fraction"),
           (("toroidal", "l1"), "magnetogram.total.energy.toroidal.l1.fraction"), (("toroidal", "l2"), "magnetogram.total.energy.toroidal.l2.fraction"), (("toroidal", "l3"), "magnetogram.total.energy.toroidal.l3.fraction"),
           (("poloidal", "axisymmetric"), "magnetogram.total.energy.poloidal.axisymmetric.fraction"), (("toroidal", "axisymmetric"), "magnetogram.total.energy.toroidal.axisymmetric.fraction"),
           (("dipole", "axisymmetric"), "magnetogram.total.energy.dipole.axisymmetric.fraction"), (("axisymmetric",), "magnetogram.total.energy.axisymmetric.fraction")]
SUBJECTS = {"radial", "poloidal", "toroidal", "dipole", "quadrupole", "octopole", "l1", "l2", "l3", "axisymmetric", "energy"}


@facet("printed", case, quick=60, thorough=4000, nontrivial=nontrivial, labels=labels,
       examples=[{"n": 3, "c": [[l, m, [1.0 + l, -0.5, 0.7, 0.2 * m, -0.3, 0.9 / l]] for l in range(1, 5) for m in range(l + 1)], "kind": "mixed"}])
def printed(c):
    """The printed percentages are the named values."""
    from starwinds_magnetogram import zdi_magnetogram
    mag = zdi_magnetogram.from_coefficients(gen.build(c["c"], c["n"]))
    named, out = {}, io.StringIO()
    energies = mag.energy(dest=named)
    total = named["magnetogram.total.energy.B2"]
    if not total > 0:
        return
    with contextlib.redirect_stdout(out):
        mag.energy(show_fractions=True)
    stated, rows_, totals = {}, {}, 0
    for line in out.getvalue().splitlines():
        m = re.match(r"^([^%]*?)\s*:?\s*(\S+)%", line)
        row = re.match(r"^\s*(-?\d+)\s+(-?\d+)\s+(\S+)\s+(\S+)\s+(\S+)$", line)
        if m:
            words = frozenset(w for w in re.findall(r"[a-z0-9]+", m.group(1).lower()) if w in SUBJECTS)
            if words == {"poloidal", "dipole", "l1"} or words == {"poloidal", "quadrupole", "l2"} or words == {"poloidal", "octopole", "l3"}:
                words -= {"poloidal"}
            require(words not in stated, "two lines state the fraction of %s", sorted(words))
            stated[words] = float(m.group(2))
        elif row:
            rows_[int(row.group(1)), int(row.group(2))] = [float(x) for x in row.groups()[2:]]
        elif line.lower().startswith("total energy"):
            require(abs(float(line.split()[2]) - total) <= 0.006 * total, "the total energy %s is printed as %s", total, line)
            totals += 1
    require(totals == 1, "the total energy is printed %d times", totals)
    for words, name in PRINTED:
        have = stated.get(frozenset(words))
        require(have is not None, "the fraction of %s is not printed", " ".join(words))
        want = named[name] * 100
        require(abs(have - want) <= 0.051 or not np.isfinite(want) and not np.isfinite(have), "%s is printed as %s %%, expected %s", name, have, want)
    require(len(rows_) == len(c["c"]), "%d degrees and orders are printed of %d", len(rows_), len(c["c"]))
    for l, m, a, b, g in zip(mag.degrees_l, mag.orders_m, *energies):
        require(np.all(np.abs(np.array(rows_[int(l), int(m)]) - np.array([a, b, g]) / total) <= 2e-6), "the energies of (%d, %d) are printed as %s, expected %s", l, m, rows_[int(l), int(m)], [a / total, b / total, g / total])


def high_case():
    return st.fixed_dictionaries({"l": st.integers(31, 110), "n": st.sampled_from([3, 3, 1, 2]), "seed": st.integers(0, 10 ** 6), "scale": st.sampled_from(gen.SCALES), "count": st.integers(1, 40)})


@facet("high_degree", high_case, quick=20, thorough=2000, labels=lambda c: ["degree=%d" % (c["l"] // 20 * 20)], examples=[{"l": l, "n": 3, "seed": l, "scale": 1.0, "count": 40} for l in (32, 50, 64, 80, 100)])
def high_degree(c):
    """Degrees that are too high for the integrals of the other facets: the closed form of the integrals."""
    from starwinds_magnetogram import zdi_magnetogram
    rng = np.random.default_rng(c["seed"])
    pairs = sorted({(int(l), int(rng.integers(-l, l + 1))) for l in rng.integers(0, c["l"] + 1, c["count"])} | {(c["l"], int(rng.integers(-c["l"], c["l"] + 1)))})
    rows_ = [[l, m, [float(v) for v in rng.normal(size=2 * c["n"]) * c["scale"]]] for l, m in pairs]
    mag = zdi_magnetogram.from_coefficients(gen.build(rows_, c["n"]))
    want = {}
    for l, m, *v in gen.terms3(rows_):
        a, b, g = (x.real ** 2 if m == 0 else abs(x) ** 2 / 2 for x in v)
        want[l, m] = (a, b * l / (l + 1), g * l / (l + 1))
    energies, matrices, size = mag.energy(dest={}), mag.energy_matrix(), sizes(rows_)
    top = c["l"]
    require(all(len(e) == len(want) for e in energies), "%d energies for %d elements", len(energies[0]), len(want))
    for i, (l, m) in enumerate(zip(mag.degrees_l, mag.orders_m)):
        a, b, g = want[int(l), int(m)]
        for name, have, w in (("radial", energies[0][i], a), ("other poloidal", energies[1][i], b), ("toroidal", energies[2][i], g),
                              ("radial matrix", matrices[0][l, m + top], a), ("poloidal matrix", matrices[1][l, m + top], a + b), ("toroidal matrix", matrices[2][l, m + top], g)):
            require(eq(have, w, a + b + g + size[int(l), int(m)]), "%s energy of (%d, %d) is %r, expected %r", name, l, m, have, w)
    for k, mat in enumerate(matrices):
        total = [sum(w[0] for w in want.values()), sum(w[0] + w[1] for w in want.values()), sum(w[2] for w in want.values())][k]
        require(mat.shape == (top + 1, 2 * top + 1) and eq(np.sum(mat), total, total), "energies in the matrix add up to %s, expected %s", np.sum(mat), total)
