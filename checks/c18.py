"""C18: splitting, stacking, array export and truncation of sets lose nothing."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen
from vlib.harness import facet, require

ORACLE = "round trips and element-by-element comparison with the generated table"
RULE = ("A case is 1-12 coefficient sets with 1-3 components each and different elements, or one set with split points, export limits, a permutation and a truncation degree. "
        "Non-trivial: at least two sets with different elements, or at least two elements.")
ASSUMPTIONS = ["default (missing) value zero"]


@st.composite
def stacks(draw):
    k = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 4, 7, 12]))
    sizes = [draw(st.integers(1, 3)) for _ in range(k)]
    return {"sizes": sizes, "sets": [draw(gen.coeffs(n, 0, 6, draw(st.booleans()), 1, 10)) for n in sizes], "empty": draw(st.sampled_from([None, None, 0, 1])),
            "tuple": draw(st.booleans()), "same": draw(st.integers(0, 3))}


@facet("stack_split", stacks, quick=250, thorough=25000,
       nontrivial=lambda c: len(c["sets"]) > 1 and len({tuple(sorted((l, m) for l, m, _ in s)) for s in c["sets"]}) > 1,
       labels=lambda c: ["sets=%d" % len(c["sizes"]), "unequal" if len(set(c["sizes"])) > 1 else "equal"],
       examples=[{"sizes": [1, 2, 1], "sets": [gen.full_set(1, 0, top, True, 1, shuffle=True), gen.full_set(2, 1, top, True, 2, sparse=0.7), gen.full_set(1, 0, top + 1, False, 3)],
                  "empty": None, "tuple": False, "same": 0} for top in (24, 40)])
def stack_split(c):
    from starwinds_magnetogram import coefficients as shc
    sizes, tables, objs = c["sizes"], [], []
    for i, (n, s) in enumerate(zip(sizes, c["sets"])):
        rows = [] if c["empty"] == i and len(sizes) > 1 else s
        objs.append(gen.build(rows, n))
        tables.append(gen.table(rows))
    if c.get("same"):                           # The same set more than once.
        objs, tables, sizes = objs + objs[:c["same"]], tables + tables[:c["same"]], sizes + sizes[:c["same"]]
    snaps = [gen.snapshot(o) for o in objs]
    stacked = shc.hstack(tuple(objs) if c["tuple"] else list(objs))
    union = set().union(*tables)
    got = gen.contents(stacked)
    require(stacked.default_coefficients.shape == (sum(sizes),), "stacked components %s", stacked.default_coefficients.shape)
    require(set(got) == union, "stacked elements missing %s, extra %s", sorted(union - set(got))[:5], sorted(set(got) - union)[:5])
    for key in union:
        want = np.concatenate([t.get(key, np.zeros(n, complex)) for t, n in zip(tables, sizes)])
        require(np.array_equal(got[key], want), "stacked %s is %s, expected %s", key, got[key], want)
    snap = gen.snapshot(stacked)
    parts = shc.hsplit(stacked, list(np.cumsum(sizes)[:-1]))
    require(len(parts) == len(sizes), "%d parts", len(parts))
    for part, t, n in zip(parts, tables, sizes):
        pc = gen.contents(part)
        require(part.default_coefficients.shape == (n,), "part has %s components, expected %d", part.default_coefficients.shape, n)
        require(set(pc) == union, "part elements differ")
        for key in union:
            require(np.array_equal(pc[key], t.get(key, np.zeros(n, complex))), "part at %s is %s, expected %s", key, pc[key], t.get(key))
    singles = stacked.hsplit()
    require(len(singles) == sum(sizes), "%d single components", len(singles))
    for j, s in enumerate(singles):
        sc = gen.contents(s)
        require(s.default_coefficients.shape == (1,) and set(sc) == union and all(np.array_equal(sc[key], got[key][j:j + 1]) for key in union), "component %d differs", j)
    again = gen.contents(shc.hstack(singles))
    require(set(again) == union and all(np.array_equal(again[key], got[key]) for key in union), "splitting and stacking differs")
    if sum(sizes) % 2 == 0:
        halves = shc.hsplit(stacked, 2)
        h = sum(sizes) // 2
        require(len(halves) == 2 and all(np.array_equal(gen.contents(x)[key], got[key][i * h:(i + 1) * h]) for i, x in enumerate(halves) for key in union), "halves differ")
    # Parts are independent of the whole and of each other.
    for part in parts + singles:
        for key, v in part.contents():
            v += 1e6
        part.set(20, 0, np.ones(part.default_coefficients.shape))
    require(gen.same_snapshot(snap, gen.snapshot(stacked)), "changing a part changed the whole")
    for key, v in stacked.contents():
        v += 1e6
    require(all(gen.same_snapshot(a, gen.snapshot(o)) for a, o in zip(snaps, objs)), "changing the stacked set changed its parts")


@st.composite
def default_case(draw):
    c = draw(stacks())
    c["defaults"] = [[draw(st.sampled_from([0.0, 1.0, -2.5])) for _ in range(2 * n)] for n in c["sizes"]]
    return c


@facet("defaults", default_case, quick=100, thorough=8000, nontrivial=lambda c: any(any(d) for d in c["defaults"]))
def defaults(c):
    """A default other than zero stands for the missing elements, before and after."""
    from starwinds_magnetogram import coefficients as shc
    objs, tables = [], []
    for n, s, d in zip(c["sizes"], c["sets"], c["defaults"]):
        obj = shc.Coefficients(gen.complex_values(d))
        for l, m, flat in s:
            obj.append(l, m, gen.complex_values(flat))
        objs.append(obj)
        tables.append(gen.table(s))
    given = [gen.complex_values(d) for d in c["defaults"]]
    stacked = shc.hstack(objs)
    require(np.array_equal(stacked.default_coefficients, np.concatenate(given)), "stacked default is %s", stacked.default_coefficients)
    union = set().union(*tables)
    got = gen.contents(stacked)
    require(set(got) == union and all(np.array_equal(got[k], np.concatenate([t.get(k, d) for t, d in zip(tables, given)])) for k in union), "stacked set is %s", got)
    for part, t, d in zip(shc.hsplit(stacked, list(np.cumsum(c["sizes"])[:-1])), tables, given):
        require(np.array_equal(part.default_coefficients, d) and np.array_equal(part.get(60, 0), d), "the part's default is %s, expected %s", part.default_coefficients, d)
        require(all(np.array_equal(v, t.get(k, d)) for k, v in part.contents()), "the part's values differ")
        for same in (part.copy(), part.truncated(99), shc.empty_like(part)):
            require(np.array_equal(same.default_coefficients, d), "the default of a copy is %s", same.default_coefficients)
        L, M, V = part.as_arrays(degree_l_max=3)
        require(all(np.array_equal(v, t.get((int(l), int(m)), d)) for l, m, v in zip(L, M, V)), "unset elements are exported as %s", V)


@facet("import_kinds", lambda: st.fixed_dictionaries({"rows": gen.coeffs(1, 0, 9, True, 1, 8), "kind": st.sampled_from(["real", "complex", "list", "scalar", "float32", "int orders", "tuple"])}),
       quick=60, thorough=3000, labels=lambda c: [c["kind"]])
def import_kinds(c):
    """Real values stay the real values they are, lists and scalars are accepted like arrays."""
    from starwinds_magnetogram import coefficients as shc
    kind = c["kind"]
    rows = c["rows"][:1] if kind == "scalar" else c["rows"]
    ls, ms = [r[0] for r in rows], [r[1] for r in rows]
    values = np.array([complex(*r[2]) for r in rows])
    if kind in ("real", "float32"):
        values = values.real.astype(np.float32 if kind == "float32" else float)
    want = {(l, m): complex(v) for l, m, v in zip(ls, ms, values)}
    if kind == "scalar":
        obj = shc.from_arrays(ls[0], ms[0], values[0])
    elif kind in ("list", "tuple"):
        make = list if kind == "list" else tuple
        obj = shc.from_arrays(make(ls), make(ms), make(values))
    else:
        obj = shc.from_arrays(np.array(ls, dtype=np.int32), np.array(ms, dtype=np.int64), values)
    got = gen.contents(obj)
    require(set(got) == set(want) and all(v.shape == (1,) and complex(v[0]) == want[k] for k, v in got.items()), "holds %s, expected %s", got, want)
    require(all(type(l) is int and type(m) is int for l, m in got), "keys are not integers: %s", list(got)[:3])
    L, M, V = obj.as_arrays(include_unset=False)
    require(V.shape == (len(rows), 1) and np.iscomplexobj(V) == np.iscomplexobj(values), "exported as %s of %s", V.dtype, values.dtype)
    try:
        shc.from_arrays(ls + [0], ms + [0], values)
    except Exception:
        pass
    else:
        require(False, "more degrees than values are accepted")


@st.composite
def export_case(draw):
    n = draw(st.integers(1, 3))
    c = draw(st.one_of(*[gen.coeffs(n, 0, 7, neg, 1, 15) for neg in (False, True)] * 2, gen.coeffs(n, 0, 20, True, 1, 10)))
    top = max(e[0] for e in c)
    limits = {}
    if draw(st.booleans()):
        limits["degree_l_min"] = draw(st.integers(0, top))
    if draw(st.booleans()):
        limits["degree_l_max"] = draw(st.one_of(st.integers(limits.get("degree_l_min", 0), top + 3), st.integers(0, top)))
    if draw(st.booleans()):
        limits["order_m_min"] = draw(st.integers(-top - 1, top + 1))
    if draw(st.booleans()):
        limits["order_m_max"] = draw(st.one_of(st.integers(-top - 1, top + 1), st.integers(max(0, limits.get("order_m_min", 0)), top + 1)))
    return {"n": n, "c": c, "limits": limits, "unset": draw(st.sampled_from([True, False, None])), "order": draw(st.permutations(list(range(len(c))))),
            "truncate": draw(st.integers(-1, top + 2)), "flat": draw(st.booleans())}


@facet("arrays", export_case, quick=300, thorough=30000, nontrivial=lambda c: len(c["c"]) > 1,
       labels=lambda c: list(c["limits"]) + ["unset=%s" % c["unset"]],
       examples=[{"n": n, "c": rows, "limits": limits, "unset": unset, "order": list(range(len(rows)))[::-1], "truncate": 38, "flat": False}
                 for n, rows in ((1, gen.full_set(1, 0, 40, True, 4)), (2, gen.full_set(2, 1, 47, True, 5, sparse=0.6)))
                 for limits, unset in (({}, True), ({}, False), ({"degree_l_min": 2, "degree_l_max": 39, "order_m_min": -33}, False))])
def arrays(c):
    from starwinds_magnetogram import coefficients as shc
    n = c["n"]
    table = gen.table(c["c"])
    keys = [(c["c"][i][0], c["c"][i][1]) for i in c["order"]]
    ls, ms = np.array([k[0] for k in keys]), np.array([k[1] for k in keys])
    vs = np.array([table[k] for k in keys])
    given = vs[:, 0] if n == 1 and c["flat"] else vs
    obj = shc.from_arrays(ls, ms, given)
    got = gen.contents(obj)
    require(set(got) == set(table) and all(np.array_equal(got[k], table[k]) for k in table), "from_arrays holds other values")
    require(obj.default_coefficients.shape == (n,) and not np.any(obj.default_coefficients), "default is %s", obj.default_coefficients)
    given[...] = -99.0
    require(all(np.array_equal(v, table[k]) for k, v in gen.contents(obj).items()), "the set shares the caller's array")
    kwargs = dict(c["limits"])
    if c["unset"] is not None:
        kwargs["include_unset"] = c["unset"]
    snap = gen.snapshot(obj)
    L, M, V = obj.as_arrays(**kwargs)
    top = c["limits"].get("degree_l_max", max(l for l, m in table))
    lo = c["limits"].get("degree_l_min", 0)
    m0, m1 = c["limits"].get("order_m_min", -top), c["limits"].get("order_m_max", top)
    want = [(l, m) for l in range(lo, top + 1) for m in range(max(-l, m0), min(l, m1) + 1)]
    if c["unset"] is False:
        want = [k for k in want if k in table]
    require([(int(l), int(m)) for l, m in zip(L, M)] == want, "exported %s, expected %s", list(zip(L, M))[:8], want[:8])
    require(len(V) == len(want), "%d values for %d elements", len(V), len(want))
    for k, v in zip(want, V):
        require(np.array_equal(v, table.get(k, np.zeros(n))), "%s exported as %s, expected %s", k, v, table.get(k))
    require(all(isinstance(x, np.ndarray) for x in (L, M, V)), "exported as %s", [type(x).__name__ for x in (L, M, V)])
    require(np.shape(V) == (len(want), n), "exported values have shape %s", np.shape(V))
    require(np.asarray(L).dtype.kind == "i" and np.asarray(M).dtype.kind == "i" and np.shape(L) == np.shape(M) == (len(want),), "degrees and orders are of type %s", np.asarray(L).dtype)
    V[...] = 5.0
    require(gen.same_snapshot(snap, gen.snapshot(obj)), "changing exported values changed the set")
    if want:
        L, M, V = obj.as_arrays(**kwargs)
        back = gen.contents(shc.from_arrays(L, M, V))
        require(set(back) == set(want) and all(np.array_equal(back[k], table.get(k, np.zeros(n))) for k in want), "export and import differ")
    t = obj.truncated(c["truncate"])
    tc = gen.contents(t)
    kept = {k for k in table if k[0] <= c["truncate"]}
    require(set(tc) == kept and all(np.array_equal(tc[k], table[k]) for k in kept), "truncation to %d keeps %s", c["truncate"], sorted(tc))
    require(t.degree_max == max([l for l, m in kept] + [0]) and t.default_coefficients.shape == (n,), "truncated set reports degree %s", t.degree_max)


@facet("noise", lambda: st.fixed_dictionaries({"lo": st.integers(0, 4), "span": st.integers(0, 8), "beta": st.sampled_from([0, 1, 2, 3, -1, -2, 0.5]), "seed": st.integers(0, 10 ** 6)}),
       quick=60, thorough=3000, nontrivial=lambda c: c["span"] > 0)
def noise(c):
    from starwinds_magnetogram import coefficients as shc
    lo = max(c["lo"], 1) if c["beta"] else c["lo"]
    hi = lo + c["span"]
    # Noise that is constant shows the amplitude of each degree.
    z0 = c["seed"] / 1e5 - 3.0
    obj = shc.noise(lo, hi, noise_fn=lambda size=None: np.full(size, z0) if size is not None else z0, beta=c["beta"])
    got = gen.contents(obj)
    want = [(l, m) for l in range(lo, hi + 1) for m in range(l + 1)]
    require(sorted(got) == want, "noise holds %s", sorted(got)[:6])
    for (l, m) in want:
        z = (z0 + 1j * z0) / (2 * l + 1) / (float(l) ** c["beta"] if l else 1.0)
        require(gen.close(got[(l, m)], np.array([z]), abs(z), 1e-12), "(%d, %d) is %s, expected %s", l, m, got[(l, m)], z)
    default = shc.noise()
    require([k for k, _ in default.contents()] == [(l, m) for l in range(1, 16) for m in range(l + 1)], "the default range is wrong")
    require(len({complex(v[0]) for _, v in default.contents()}) == default.size, "noise values repeat")
