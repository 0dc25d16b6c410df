"""C17: sums, products, powers and scaling of coefficient sets act element by element."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen
from vlib.harness import facet, require

ORACLE = "element-by-element model with missing elements zero; algebraic identities; snapshots of the operands"
RULE = ("A case is three coefficient sets with the same number of components (1-4) and overlapping or disjoint elements, a real or complex factor and an integer power. "
        "Non-trivial: the first two sets share an element and each has an element the other lacks.")
ASSUMPTIONS = ["double, integer or complex double values, agreement to 1e-12 of the operands", "no negative or fractional powers of sets made from real or integer arrays", "default (missing) value zero"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    a = draw(gen.coeffs(n, 0, draw(st.sampled_from([6, 6, 6, 20])), draw(st.booleans()), 1, 12))
    b = draw(gen.coeffs(n, 0, draw(st.sampled_from([6, 6, 6, 25])), draw(st.booleans()), 1, 12))
    if draw(st.booleans()):
        for l, m, f in a[:2]:
            if not any(e[0] == l and e[1] == m for e in b):
                b.append([l, m, [v + 1.0 for v in f]])
    return {"n": n, "a": a, "b": b, "d": draw(gen.coeffs(n, 0, draw(st.sampled_from([6, 6, 25])), True, 1, 8)), "k": [draw(gen.small_float(5.0)), draw(st.sampled_from([0.0, 0.0, 1.0, -2.5]))],
            "numpy": draw(st.booleans()), "power": draw(st.integers(1, 4)), "degree": draw(st.one_of(st.integers(-1, 7), st.integers(7, 20)))}


def nontrivial(c):
    a, b = ({(l, m) for l, m, _ in c[x]} for x in "ab")
    return bool(a & b and a - b and b - a)


def labels(c):
    a, b = ({(l, m) for l, m, _ in c[x]} for x in "ab")
    yield "disjoint" if not a & b else "equal-keys" if a == b else "overlapping"
    yield "complex-factor" if c["k"][1] else "real-factor"


def number(c):
    z = complex(*c["k"])
    if not z.imag:
        return np.float64(z.real) if c["numpy"] else z.real
    return np.complex128(z) if c["numpy"] else z


def match(obj, want, scale, what, n):
    got = gen.contents(obj)
    require(obj.default_coefficients.shape == (n,) and not np.any(obj.default_coefficients), "%s: default %s", what, obj.default_coefficients)
    require(set(got) == set(want), "%s: elements missing %s, extra %s", what, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5])
    for k in want:
        require(gen.close(got[k], want[k], scale[k], 1e-12), "%s: %s is %s, expected %s", what, k, got[k], want[k])
    require(obj.degree_max == max([l for l, m in want] + [0]) and obj.order_min == min([m for l, m in want] + [0]),
            "%s: degree_max %s, order_min %s", what, obj.degree_max, obj.order_min)


LARGE = [{"n": n, "a": gen.full_set(n, 0, top, True, 5, shuffle=True), "b": gen.full_set(n, 1, top + 3, True, 6, shuffle=True, sparse=0.8), "d": gen.full_set(n, 0, 5, True, 7),
          "k": [1.5, 0.0], "numpy": False, "power": 2, "degree": top - 3} for n, top in ((1, 16), (2, 47))]


@facet("elementwise", case, quick=350, thorough=40000, nontrivial=nontrivial, labels=labels, examples=LARGE)
def elementwise(c):
    from starwinds_magnetogram import coefficients as shc
    n = c["n"]
    A, B, D = (gen.build(c[x], n) for x in "abd")
    snaps = [gen.snapshot(x) for x in (A, B, D)]
    held = {(l, m): A.get(l, m) for l, m, _ in c["a"]}
    held_values = {k: v.copy() for k, v in held.items()}
    held_default = A.get(50, 0)
    a, b, d = (gen.table(c[x]) for x in "abd")
    zero = np.zeros(n, complex)
    k = number(c)
    union = set(a) | set(b)
    ga = lambda key: a.get(key, zero)
    gb = lambda key: b.get(key, zero)
    sc = {key: np.abs(ga(key)) + np.abs(gb(key)) for key in union}
    match(A + B, {key: ga(key) + gb(key) for key in union}, sc, "a + b", n)
    match(A - B, {key: ga(key) - gb(key) for key in union}, sc, "a - b", n)
    match(shc.add(A, B), {key: ga(key) + gb(key) for key in union}, sc, "add(a, b)", n)
    match(A * B, {key: ga(key) * gb(key) for key in union}, {key: np.abs(ga(key)) * np.abs(gb(key)) * 2 for key in union}, "a * b", n)
    E = shc.empty_like(A)
    for name, value in (("a * empty", A * E), ("empty * a", E * A)):
        got = gen.contents(value)
        require(set(got) <= set(a) and not any(np.any(v) for v in got.values()), "%s holds %s", name, got)
    for name, value in (("a + empty", A + E), ("empty + a", E + A), ("a - empty", A - E)):
        match(value, a, {key: np.abs(v) for key, v in a.items()}, name, n)
    for name, value in (("a * k", A * k), ("k * a", complex(k) * A if k.imag else float(k) * A), ("multiply(a, k)", shc.multiply(A, k))):
        match(value, {key: v * k for key, v in a.items()}, {key: np.abs(v) * abs(k) * 2 for key, v in a.items()}, name, n)
    if abs(k) > 1e-6:
        match(A / k, {key: v / k for key, v in a.items()}, {key: np.abs(v) / abs(k) * 2 for key, v in a.items()}, "a / k", n)
    p = c["power"]
    match(A ** p, {key: v ** p for key, v in a.items()}, {key: np.abs(v) ** p * 4 for key, v in a.items()}, "a ** %d" % p, n)
    for factor in (3, -7, 1000, 12345, 10 ** 7):
        match(A / factor, {key: v / factor for key, v in a.items()}, {key: np.abs(v) / abs(factor) * 2 for key, v in a.items()}, "a / %d" % factor, n)
        match(A * factor, {key: v * factor for key, v in a.items()}, {key: np.abs(v) * abs(factor) * 2 for key, v in a.items()}, "a * %d" % factor, n)
    x = y = w = z = A
    x += B
    match(x, {key: ga(key) + gb(key) for key in union}, sc, "a += b", n)
    y -= B
    match(y, {key: ga(key) - gb(key) for key in union}, sc, "a -= b", n)
    w *= k
    match(w, {key: v * k for key, v in a.items()}, {key: np.abs(v) * abs(k) * 2 for key, v in a.items()}, "a *= k", n)
    z **= 2
    match(z, {key: v ** 2 for key, v in a.items()}, {key: np.abs(v) ** 2 * 4 for key, v in a.items()}, "a **= 2", n)
    require(all(gen.same_snapshot(s, gen.snapshot(o)) for s, o in zip(snaps, (A, B, D))), "a += b, a -= b, a *= k or a **= 2 changed another name of a")
    fn = lambda l, m: (l + 1.5) * (1 if m >= 0 else -2) + 0.25 * m
    seen = []

    def record(l, m):
        seen.append((l, m))
        return fn(l, m)
    for q in (1, -1, 2):
        match(A.scale(record, q), {key: v * fn(*key) ** float(q) for key, v in a.items()}, {key: np.abs(v * fn(*key) ** float(q)) * 2 for key, v in a.items()},
              "scale to the power %d" % q, n)
    for q in (0.5, -1.5, 0.0):
        positive = lambda l, m: abs(fn(l, m)) + 0.5
        match(A.scale(positive, q), {key: v * positive(*key) ** q for key, v in a.items()}, {key: np.abs(v * positive(*key) ** q) * 2 for key, v in a.items()},
              "scale to the power %s" % q, n)
    match(shc.scale(A, record), {key: v * fn(*key) for key, v in a.items()}, {key: np.abs(v * fn(*key)) for key, v in a.items()}, "scale", n)
    require(set(seen) == set(a), "the scale function was called with %s", sorted(set(seen) ^ set(a))[:5])
    # Identities.
    match((A + B) + D, {key: ga(key) + gb(key) + d.get(key, zero) for key in union | set(d)},
          {key: np.abs(ga(key)) + np.abs(gb(key)) + np.abs(d.get(key, zero)) for key in union | set(d)}, "(a + b) + d", n)
    match((A + B) * k, {key: (ga(key) + gb(key)) * k for key in union}, {key: (np.abs(ga(key)) + np.abs(gb(key))) * abs(k) * 2 for key in union}, "(a + b) * k", n)
    # Copies are independent.
    C = A.copy()
    match(C, a, {key: np.abs(v) for key, v in a.items()}, "copy", n)
    C.set(40, 3, np.ones(n))
    l, m, _ = c["a"][0]
    C.set(l, m, np.full(n, 9e9))
    Z = shc.zeros_like(A)
    match(Z, {key: zero for key in a}, {key: 1.0 for key in a}, "zeros_like", n)
    S = A + B
    for key, v in S.contents():
        v += 1e6                                  # Results share nothing with the operands.
    T = A.truncated(c["degree"])
    match(T, {key: v for key, v in a.items() if key[0] <= c["degree"]}, {key: np.abs(v) for key, v in a.items()}, "truncated", n)
    for other in (A.copy(), A * 1.0, T, A + shc.empty_like(A), A.scale(lambda l, m: 1.0), A ** 1):
        for key, v in other.contents():
            v -= 1e6
    require(all(gen.same_snapshot(s, gen.snapshot(x)) for s, x in zip(snaps, (A, B, D))), "an operation changed an operand")
    require(all(np.array_equal(held[key], held_values[key]) for key in held) and not np.any(held_default), "an operation changed values obtained earlier")


@st.composite
def compare_case(draw):
    c = draw(case())
    c["change"] = draw(st.sampled_from(["none", "none", "value", "extra-zero", "extra", "tiny", "missing", "components", "empty"]))
    c["index"] = draw(st.integers(0, 30))
    return c


@facet("comparison", compare_case, quick=200, thorough=20000, labels=lambda c: [c["change"]])
def comparison(c):
    from starwinds_magnetogram import coefficients as shc
    n = c["n"]
    A = gen.build(c["a"], n)
    rows = [[l, m, list(f)] for l, m, f in c["a"]]
    i = c["index"] % len(rows)
    expect = True
    change = c["change"]
    if change == "value":
        rows[i][2][c["index"] % (2 * n)] += 1.0 + sum(abs(v) for v in rows[i][2])
        expect = False
    elif change == "tiny":
        rows[i][2] = [v * (1 + 1e-13) for v in rows[i][2]]
    elif change == "extra-zero":
        rows.append([30, 1, [0.0] * (2 * n)])
    elif change == "extra":
        rows.append([30, 1, [0.0] * (2 * n - 1) + [2.0]])
        expect = False
    elif change == "missing":
        expect = not any(abs(complex(*rows[i][2][2 * j:2 * j + 2])) > 1e-8 for j in range(n))
        near = any(1e-9 < abs(complex(*rows[i][2][2 * j:2 * j + 2])) <= 1e-7 for j in range(n))
        rows.pop(i)
        if near:
            return
    elif change == "components":
        require(shc.allclose(A, gen.build([[l, m, f + [0.0, 0.0]] for l, m, f in rows], n + 1)) is False or
                not shc.allclose(A, gen.build([[l, m, f + [0.0, 0.0]] for l, m, f in rows], n + 1)), "sets with different components are close")
        return
    elif change == "empty":
        E = shc.empty_like(A)
        require(shc.allclose(E, shc.empty_like(A)), "two empty sets are not close")
        expect = not any(abs(v) > 1e-8 for e in rows for v in gen.complex_values(e[2]))
        if any(1e-9 < abs(v) <= 1e-7 for e in rows for v in gen.complex_values(e[2])):
            return
        require(bool(shc.allclose(A, E)) == expect and bool(shc.allclose(E, A)) == expect, "comparison with an empty set is wrong")
        return
    order = rows[::-1]
    B = gen.build(order, n)
    require(bool(shc.allclose(A, B)) == expect and bool(shc.allclose(B, A)) == expect, "allclose is %s after %s", shc.allclose(A, B), change)
    close = shc.isclose(A, B)
    a, b = gen.table(c["a"]), gen.table(rows)
    got = {k: np.array(v) for k, v in close.contents()}
    require(set(got) == set(a) | set(b), "isclose holds %s", sorted(got))
    for k, v in got.items():
        want = np.isclose(a.get(k, np.zeros(n)), b.get(k, np.zeros(n)))
        require(np.array_equal(v.astype(bool), want), "isclose at %s is %s, expected %s", k, v, want)
    require(bool(shc.allclose(A, B, rtol=1e9, atol=1e18)), "tolerances are not passed on")


def typed_sets():
    kind = st.sampled_from(["complex", "float", "int"])
    return st.fixed_dictionaries({"a": gen.coeffs(2, 0, 4, True, 1, 6), "b": gen.coeffs(2, 0, 4, True, 1, 6), "ka": kind, "kb": kind,
                                  "k": st.one_of(st.integers(-5, 5).filter(bool), st.floats(0.1, 9, allow_nan=False)), "number": st.sampled_from(["plain", "numpy", "imaginary", "int32"]),
                                  "power": st.sampled_from([0, 1, 2, 3, -1, -2, 0.5])})


def typed(rows, kind):
    """A set made from arrays of the given type, and its values as complex numbers."""
    from starwinds_magnetogram import coefficients as shc
    values = np.array([gen.complex_values(v) for _, _, v in rows])
    if kind != "complex":
        values = values.real
    if kind == "int":
        values = np.round(np.fmod(values, 1000)).astype(int)
    obj = shc.from_arrays(np.array([r[0] for r in rows]), np.array([r[1] for r in rows]), values)
    return obj, {(l, m): v.astype(complex) for (l, m, _), v in zip(rows, values)}


@facet("types", typed_sets, quick=150, thorough=10000, nontrivial=lambda c: c["ka"] != c["kb"], labels=lambda c: ["%s and %s" % (c["ka"], c["kb"]), c["number"]],
       examples=[{"a": [[1, 0, [3.0, 1.0, 2.0, 1.0]]], "b": [[1, 0, [0.0, 2.0, 1.0, 1.0]], [2, 1, [0.0, 1.0, 0.5, 0.0]]], "ka": x, "kb": y, "k": 2, "number": "numpy", "power": 2}
                 for x in ("float", "int", "complex") for y in ("float", "complex")])
def types(c):
    """Sets of real or whole numbers hold complex numbers as well."""
    from starwinds_magnetogram import coefficients as shc
    (A, a), (B, b) = typed(c["a"], c["ka"]), typed(c["b"], c["kb"])
    zero = np.zeros(2, complex)
    union = set(a) | set(b)
    sizes = {key: np.abs(a.get(key, zero)) + np.abs(b.get(key, zero)) for key in union}
    match(A + B, {key: a.get(key, zero) + b.get(key, zero) for key in union}, sizes, "a + b", 2)
    match(A - B, {key: a.get(key, zero) - b.get(key, zero) for key in union}, sizes, "a - b", 2)
    match(A * B, {key: a.get(key, zero) * b.get(key, zero) for key in union}, {key: v ** 2 for key, v in sizes.items()}, "a * b", 2)
    k = {"plain": lambda v: v, "numpy": lambda v: np.asarray(v)[()], "imaginary": lambda v: v * 1j, "int32": lambda v: np.int32(round(v)) or np.int32(3)}[c["number"]](c["k"])
    big = {key: np.abs(v) * 10 for key, v in a.items()}
    match(A * k, {key: v * k for key, v in a.items()}, big, "a * %r" % k, 2)
    match(A / k, {key: v / complex(k) for key, v in a.items()}, {key: v / abs(k) for key, v in big.items()}, "a / %r" % k, 2)
    match(A.scale(lambda l, m: l + 0.5 + 1j * m), {key: v * (key[0] + 0.5 + 1j * key[1]) for key, v in a.items()}, big, "scale", 2)
    p = c["power"]
    if (p >= 1 or p == 0 or all(np.all(v != 0) for v in a.values())) and (c["ka"] == "complex" or p >= 0 and p != 0.5):
        match(A ** p, {key: v ** p for key, v in a.items()}, {key: np.abs(v ** p) * 4 for key, v in a.items()}, "a ** %s" % p, 2)
    stacked = gen.contents(shc.hstack((A, B)))
    require(set(stacked) == union, "stacked set holds %s", sorted(stacked))
    for key in union:
        require(np.array_equal(stacked[key], np.concatenate((a.get(key, zero), b.get(key, zero)))), "stacked %s is %s", key, stacked[key])
    l, m, v = c["b"][0]
    A.set(l, m, gen.complex_values(v))
    require(np.array_equal(A.get(l, m), gen.complex_values(v)), "%s was set to %s and is %s", (l, m), gen.complex_values(v), A.get(l, m))
    _, _, values = A.as_arrays(include_unset=False)
    require(np.array_equal(values[sorted(gen.contents(A)).index((l, m))], gen.complex_values(v)), "%s was set to %s and is exported as %s", (l, m), gen.complex_values(v), values)
