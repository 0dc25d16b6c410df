"""Strategies. Every strategy draws plain JSON data."""
import hypothesis.strategies as st
import numpy as np


def small_float(bound=100.0):
    return st.one_of(
        st.integers(-9, 9).map(float),
        st.floats(-bound, bound, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
            lambda v: 0.0 if abs(v) < 1e-9 else v),
    )


def wide_float():
    """Finite floats over many decades, as a mantissa and an exponent."""
    return st.one_of(
        st.just(0.0),
        st.builds(lambda m, e: m * 10.0 ** e, st.floats(-9.999999, 9.999999, allow_nan=False, allow_subnormal=False),
                  st.integers(-30, 30)),
        st.integers(-9999, 9999).map(float),
    )


@st.composite
def lm_pairs(draw, lmin=0, lmax=8, negative=False, min_size=1, max_size=25, dense_lmax=4):
    kind = draw(st.sampled_from(["sparse", "dense", "single", "axisymmetric", "sectoral"]))
    if kind == "dense":
        top = draw(st.integers(lmin, max(lmin, min(lmax, dense_lmax))))
        pairs = [(l, m) for l in range(lmin, top + 1) for m in range(-l if negative else 0, l + 1)]
        if len(pairs) > max_size:
            pairs = pairs[:max_size]
        if draw(st.booleans()):
            pairs = draw(st.permutations(pairs))
        if len(pairs) >= min_size:
            return list(pairs)
    if kind == "single":
        l = draw(st.integers(lmin, lmax))
        m = draw(st.integers(-l if negative else 0, l))
        if min_size <= 1:
            return [(l, m)]
    if kind == "axisymmetric":
        ls = draw(st.lists(st.integers(lmin, lmax), min_size=max(1, min_size), max_size=min(6, lmax - lmin + 1),
                           unique=True) if min_size <= min(6, lmax - lmin + 1) else st.just([]))
        if ls:
            return [(l, 0) for l in ls]
    if kind == "sectoral":
        ls = draw(st.lists(st.integers(lmin, lmax), min_size=max(1, min_size), max_size=min(6, lmax - lmin + 1),
                           unique=True) if min_size <= min(6, lmax - lmin + 1) else st.just([]))
        if ls:
            return [(l, l if not negative else draw(st.sampled_from([-l, l]))) for l in ls]
    pair = st.integers(lmin, lmax).flatmap(
        lambda l: st.tuples(st.just(l), st.integers(-l if negative else 0, l)))
    return draw(st.lists(pair, min_size=min_size, max_size=max(min_size, min(max_size, 12)), unique=True))


SCALES = [1.0, 1.0, 1.0, 1.0, 1e-3, 1e3, 1e-12, 1e12]


def full_set(n, lmin, lmax, negative, seed, scale=1.0, real_m0=False, shuffle=False, sparse=1.0):
    """Every degree and order of a triangle with seeded values: the large sets that element by element drawing cannot afford."""
    rng = np.random.default_rng(seed)
    pairs = [(l, m) for l in range(lmin, lmax + 1) for m in range(-l if negative else 0, l + 1)]
    if sparse < 1:
        pairs = [p for p in pairs if rng.random() < sparse] or pairs[:1]
    if shuffle:
        rng.shuffle(pairs)
    out = []
    for l, m in pairs:
        vals = np.round(rng.normal(size=2 * n), 6) * scale
        if real_m0 and m == 0:
            vals[1::2] = 0
        out.append([int(l), int(m), [float(v) for v in vals]])
    return out


def one_degree(l, n=1, negative=False, scale=1.0):
    """Every order of one degree."""
    return full_set(n, l, l, negative, l, scale)


@st.composite
def big_coeffs(draw, n=1, lmin=0, lmax=30, negative=False, lmin_top=9, real_m0=False):
    top = draw(st.integers(lmin_top, lmax))
    return full_set(n, draw(st.integers(lmin, min(lmin + 2, top))), top, negative, draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(SCALES)), real_m0,
                    draw(st.booleans()), draw(st.sampled_from([1.0, 1.0, 0.5])))


@st.composite
def coeffs(draw, n=1, lmin=0, lmax=8, negative=False, min_size=1, max_size=25, dense_lmax=4, value=None, real_m0=False):
    """[[l, m, [re, im, re, im, ...]], ...] in insertion order."""
    value = value if value is not None else small_float()
    pairs = draw(lm_pairs(lmin, lmax, negative, min_size, max_size, dense_lmax))
    scale = draw(st.sampled_from(SCALES))
    out = []
    for l, m in pairs:
        vals = []
        for _ in range(n):
            re, im = draw(value) * scale, draw(value) * scale
            vals += [re, 0.0 if (real_m0 and m == 0) else im]
        out.append([l, m, vals])
    return out


STEPS = [0.0, 0.0, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]


@st.composite
def crowd(draw, pts, limit=6, keep=lambda p: p, relative=False):
    """The points, and possibly copies of one of them that differ a little in some coordinates."""
    pts = [list(p) for p in pts]
    if not draw(st.integers(0, 2)) and len(pts) < limit:
        base = draw(st.sampled_from(pts))
        for _ in range(draw(st.integers(1, min(2, limit - len(pts))))):
            step = [draw(st.sampled_from(STEPS)) * draw(st.sampled_from([1, -1])) for _ in base]
            pts.insert(draw(st.integers(0, len(pts))), keep([x * (1 + d) if relative else x + d for x, d in zip(base, step)]))
    return pts


def stellar_radii():
    """Star radii in any unit: solar radii, metres, centimetres, parsecs."""
    return st.one_of(st.just(1.0), st.floats(0.2, 5.0), st.floats(0.2, 5.0), st.floats(0.2, 5.0), st.sampled_from([6.957e8, 6.957e10, 6.957e5, 2.2546e-8, 0.0046524726, 1e-3, 47.3]))


def surface_ratios():
    """Source surface radii in stellar radii."""
    return st.one_of(st.just(2.5), st.floats(1.1, 20.0), st.floats(1.1, 20.0), st.floats(1.1, 20.0), st.floats(20.0, 1000.0), st.sampled_from([1.00001, 1.001, 1.01, 1.05, 3000.0, 1e4]))


@st.composite
def angles(draw, min_size=1, max_size=6, poles=True):
    """[[theta, phi], ...]"""
    theta = st.floats(0.02, np.pi - 0.02, allow_nan=False)
    options = [theta, theta, theta, st.sampled_from([np.pi / 2, np.pi / 3, 1.0, 2.0])]
    if poles:
        options.append(st.sampled_from([0.0, np.pi, 1e-9, np.pi - 1e-9, 1e-5, np.pi - 1e-5, 1e-3]))
    th = st.one_of(*options)
    ph = st.one_of(st.floats(0, 2 * np.pi, allow_nan=False), st.floats(0, 2 * np.pi, allow_nan=False), st.floats(-7, 14, allow_nan=False), st.floats(-7, 14, allow_nan=False),
                   st.sampled_from([0.0, np.pi / 2, np.pi, 2 * np.pi]), st.sampled_from([0.0, np.pi / 2, np.pi, 2 * np.pi]), st.floats(-200, 200, allow_nan=False))
    pts = draw(st.lists(st.tuples(th, ph), min_size=min_size, max_size=max_size))
    return draw(crowd(pts, max_size, lambda p: [off_the_pole(min(max(p[0], 0.0 if poles else 0.01), np.pi if poles else np.pi - 0.01)), p[1]]))


def off_the_pole(theta):
    """cos(theta) is rounded to 1 within 1e-8 of the pole, where sin(theta), as the functions know it, is 0: keep to 1e-9, where that is lost in the tolerance, or go further out."""
    for pole, sign in ((0.0, 1), (np.pi, -1)):
        if 1.1e-9 < abs(theta - pole) < 2e-7:
            return pole + sign * 1e-9
    return theta


def complex_values(flat):
    flat = np.asarray(flat, dtype=float)
    return flat[0::2] + 1j * flat[1::2]


def build(case_coeffs, n):
    """A Coefficients object with n complex values per element."""
    from starwinds_magnetogram import coefficients as shc
    obj = shc.Coefficients(np.zeros(n, dtype=complex))
    for l, m, flat in case_coeffs:
        obj.append(l, m, complex_values(flat))
    return obj


def table(case_coeffs):
    return {(l, m): complex_values(flat) for l, m, flat in case_coeffs}


def terms3(case_coeffs, n=3):
    """(l, m, alpha, beta, gamma) with missing components zero."""
    out = []
    for l, m, flat in case_coeffs:
        v = list(complex_values(flat)) + [0j, 0j]
        out.append((l, m, v[0], v[1], v[2]))
    return out


def terms_pfss(case_coeffs):
    return [(l, m, flat[0], flat[1]) for l, m, flat in case_coeffs]


def contents(obj):
    """Public view of a Coefficients object as {(l, m): complex ndarray}."""
    return {k: np.array(v, copy=True) for k, v in obj.contents()}


def snapshot(obj):
    return (contents(obj), np.array(obj.default_coefficients), obj.degree_max, obj.order_min, obj.size)


def same_snapshot(a, b):
    return (a[0].keys() == b[0].keys() and all(np.array_equal(a[0][k], b[0][k]) for k in a[0])
            and np.array_equal(a[1], b[1]) and a[2:] == b[2:])


def close(actual, expected, scale, rtol=1e-9):
    """Compare with an absolute tolerance rtol*scale; non-finite values never compare equal."""
    actual, expected = np.asarray(actual), np.asarray(expected)
    if actual.shape != expected.shape:
        return False
    if not (np.all(np.isfinite(actual)) and np.all(np.isfinite(expected))):
        return False
    return bool(np.all(np.abs(actual - expected) <= rtol * scale + 1e-300))


def nonzero_count(case_coeffs):
    return sum(1 for _, _, flat in case_coeffs if any(flat))


MEMORY = ["c", "f", "transposed", "strided", "reversed", "readonly", "mixed"]


def relay(value, kind):
    """The same array, laid out in memory in another way."""
    value = np.array(value)
    if kind == "f":
        return np.asfortranarray(value)
    if kind == "transposed":
        return np.ascontiguousarray(value.T).T
    if kind == "strided":
        big = np.full(tuple(2 * n for n in value.shape), np.nan, dtype=value.dtype) if value.dtype.kind in "fc" else np.zeros(tuple(2 * n for n in value.shape), value.dtype)
        part = big[tuple(slice(None, None, 2) for _ in value.shape)]
        part[...] = value
        return part
    if kind == "reversed":
        back = tuple(slice(None, None, -1) for _ in value.shape)
        return np.ascontiguousarray(value[back])[back]
    if kind == "readonly":
        value.setflags(write=False)
    return value


def relay_all(values, kind):
    """Lay out several arrays; 'mixed' gives each its own layout."""
    if kind == "mixed":
        return [relay(v, k) for v, k in zip(values, ["f", "c", "reversed"] * len(values))]
    return [relay(v, kind) for v in values]
