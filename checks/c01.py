"""C01: file write -> read round trip."""
import os
import tempfile

import hypothesis.strategies as st
import numpy as np

from vlib import files, gen
from vlib.harness import facet, require

ORACLE = "round trip through written files, compared with the generated table"
RULE = ("A case is a coefficient set (sparse, dense, axisymmetric, sectoral or single; 1-5 components; values over 60 "
        "decades; any insertion order) and writer options. Non-trivial: at least one nonzero value is written and read back, "
        "and at least two elements or two components are present.")
ASSUMPTIONS = ["two-digit or three-digit exponents of representable doubles", "POSIX text files"]


@st.composite
def case(draw, lmax=12, negative=False):
    n = draw(st.integers(1, 5))
    c = draw(gen.coeffs(n, 0, lmax, negative, min_size=1, max_size=20, value=gen.wide_float()))
    top = max(e[0] for e in c)
    degree_max = draw(st.one_of(st.none(), st.integers(0, top + 4)))
    low = min([e[1] for e in c] + [0])
    order_min = min(0, draw(st.sampled_from([0, 0, 0, low, -2, -top]))) if negative else 0
    if draw(st.integers(0, 5)) == 0:
        order_min = draw(st.integers(0, top if degree_max is None else degree_max))  # At least one element is written.
    return {"n": n, "c": c, "degree_max": degree_max, "order_min": order_min, "header": draw(st.booleans()), "over": draw(st.sampled_from([None, None, "longer", "shorter"])), "file": draw(files.names())}


def seven_digits(v):
    return float("%e" % v)


def expected_table(c, n, degree_max, order_min):
    values = gen.table(c)
    top = degree_max if degree_max is not None else max(l for l, m in values)
    out = {}
    for l in range(top + 1):
        for m in range(max(order_min, -l), l + 1):
            out[(l, m)] = values.get((l, m), np.zeros(n, complex))
    return out, top


def nontrivial(c):
    return gen.nonzero_count(c["c"]) > 0 and (len(c["c"]) > 1 or c["n"] > 1)


def labels(c):
    yield "components=%d" % c["n"]
    yield "header" if c["header"] else "plain"
    yield "replacing=%s" % c.get("over")
    yield "file given as %s" % c.get("file", {}).get("how", "text")
    top = max(e[0] for e in c["c"])
    d = c["degree_max"]
    yield "default" if d is None else "padded" if d > top else "truncated" if d < top else "same"
    if c["order_min"] < 0:
        yield "negative-orders-written"
    if c["order_min"] > 0:
        yield "low-orders-left-out"


def run(case_):
    from starwinds_magnetogram import reader_writer
    n = case_["n"]
    obj = gen.build(case_["c"], n)
    before = gen.snapshot(obj)
    kwargs = {}
    if case_["degree_max"] is not None:
        kwargs["degree_max"] = case_["degree_max"]
    if case_["order_min"] != 0:
        kwargs["order_min"] = case_["order_min"]
    if case_["header"]:
        kwargs["write_swmf_header"] = True
    with tempfile.TemporaryDirectory() as folder:
        file = case_.get("file", {"name": "out.dat", "how": "text"})
        path = files.spell(folder, file["name"], file["how"])
        if case_.get("over"):
            # The file replaces what was there.
            with open(path, "w") as f:
                f.write("old\n" + "".join("%d 0 1.0 2.0\n" % l for l in range(2000 if case_["over"] == "longer" else 1)))
        reader_writer.write_magnetogram_file(obj, path, **kwargs)
        back = reader_writer.read_magnetogram_file(path)
        # A second generation loses nothing at all.
        path2 = os.path.join(folder, "again.dat")
        if case_["order_min"] == 0:
            reader_writer.write_magnetogram_file(back, path2)
            back2 = reader_writer.read_magnetogram_file(path2)
        else:
            back2 = None
        # Relative paths need the current directory while it exists.
        require(os.path.isfile(os.path.join(folder, file["name"])), "no file %r in the folder", file["name"])
        os.chdir("/")
    require(gen.same_snapshot(before, gen.snapshot(obj)), "writing changed the coefficients")
    expected, top = expected_table(case_["c"], n, case_["degree_max"], case_["order_min"])
    got = gen.contents(back)
    require(back.default_coefficients.shape == (n,), "%d components became %s", n, back.default_coefficients.shape)
    require(set(got) == set(expected), "elements differ: missing %s, extra %s",
            sorted(set(expected) - set(got))[:5], sorted(set(got) - set(expected))[:5])
    require(back.degree_max == top, "degree_max %s, expected %s", back.degree_max, top)
    for key, values in expected.items():
        for k in range(n):
            for part in ("real", "imag"):
                want = float(getattr(values[k], part))
                have = float(getattr(got[key][k], part))
                require(have == seven_digits(want) or abs(have - want) <= 5.0001e-7 * abs(want),
                        "element %s component %d %s: wrote %r, read %r", key, k, part, want, have)
    if back2 is not None:
        got2 = gen.contents(back2)
        require(set(got2) == set(got) and all(np.array_equal(got[k], got2[k]) for k in got), "second round trip differs")


@facet("roundtrip", lambda: case(12), quick=500, thorough=40000, nontrivial=nontrivial, labels=labels,
       examples=[{"n": 1, "c": [[0, 0, [1.0, 2.0]]], "degree_max": None, "order_min": 0, "header": False},
                 {"n": 3, "c": [[3, 3, [1, -2, 3, -4, 5, -6]]], "degree_max": 5, "order_min": 0, "header": True},
                 {"n": 1, "c": [[2, 1, [1e-300, -1e300]]], "degree_max": None, "order_min": 0, "header": False},
                 {"n": 2, "c": [[2, 1, [1.0, 2.0, 3.0, 4.0]]], "degree_max": None, "order_min": 0, "header": False, "over": "longer"}])
def roundtrip(c):
    run(c)


@facet("negative_orders", lambda: case(8, True), quick=250, thorough=20000, nontrivial=nontrivial, labels=labels)
def negative_orders(c):
    run(c)


@facet("high_degree", lambda: case(120), quick=12, thorough=400, nontrivial=nontrivial, labels=labels)
def high_degree(c):
    run(c)


@st.composite
def full_case(draw):
    top = draw(st.integers(8, 45))
    return {"n": draw(st.integers(1, 4)), "lmin": draw(st.integers(0, 2)), "l": top, "negative": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from(gen.SCALES)),
            "shuffle": draw(st.booleans()), "sparse": draw(st.sampled_from([1.0, 1.0, 0.5])), "degree_max": draw(st.one_of(st.none(), st.integers(top - 8, top + 8))), "header": draw(st.booleans()),
            "file": draw(files.names())}


@facet("full_sets", full_case, quick=15, thorough=800, labels=lambda c: ["header" if c["header"] else "plain", "elements>=%d" % ((c["l"] ** 2 * (2 if c["negative"] else 1) // 2) // 500 * 500)])
def full_sets(c):
    """Files of hundreds or thousands of lines."""
    rows = gen.full_set(c["n"], c["lmin"], c["l"], c["negative"], c["seed"], c["scale"], False, c["shuffle"], c["sparse"])
    rows = [[l, m, list(v)] for l, m, v in rows]
    run({"n": c["n"], "c": rows, "degree_max": c["degree_max"], "order_min": -c["l"] if c["negative"] else 0, "header": c["header"], "file": c["file"]})
