"""C15: images and complex spherical harmonics convert both ways."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen, ref
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "independent complex harmonic sum, Richardson-extrapolated recovery, and histories compared with fresh evaluations"
RULE = ("A case is a complex coefficient set (degrees 0-6, all orders, or one degree up to 30) and an even or uneven grid whose corners run either way, or a history of 3-8 conversions on several grids in which returned arrays "
        "are overwritten. Non-trivial: a nonzero coefficient of degree >= 1.")
ASSUMPTIONS = ["recovery on whole-sphere grids, evenly or smoothly unevenly spaced; images on any grid", "the image conversion returns degrees below the requested one",
               "the quadrature error is of second order in the polar spacing"]


@st.composite
def case(draw, lmax=6):
    c = draw(gen.coeffs(1, 0, lmax, True, 1, 20))
    top = max(e[0] for e in c)
    return {"c": c, "n": draw(st.integers(20, 30)), "naz": draw(st.integers(2 * top + 6, 30)), "extra": draw(st.sampled_from([1, 1, 2])),
            "grid": draw(st.sampled_from(["default", "default", "square", "explicit", "arrays", "down", "westward", "reversed"]))}


def nontrivial(c):
    return any(any(f) for l, m, f in c["c"] if l >= 1)


def labels(c):
    yield c["grid"]
    yield "negative-orders" if any(e[1] < 0 for e in c["c"]) else "positive-orders"


def warped(n, top, eps):
    """Corners that are unevenly spaced, smoothly."""
    u = np.linspace(0, 1, n + 1)
    return top * (u + eps * np.sin(2 * np.pi * u) / (2 * np.pi))


def uneven(n, naz, seed):
    """Corners anywhere, over the whole sphere or a part of it."""
    rng = np.random.default_rng(seed)

    def corners(k, top):
        x = np.cumsum(rng.uniform(0.05, 1, k + 2))
        x = (x - x[0]) / (x[-1] - x[0]) * top
        return x[:-1] if rng.random() < 0.5 else np.concatenate((x[:-2], x[-1:]))
    return corners(n, np.pi), corners(naz, 2 * np.pi)


def bent(n, naz, seed):
    """Corners over the whole sphere, of which only the ones inside depend on the seed; centers next to the ends remain in place."""
    out = []
    for k, top in ((n, np.pi), (naz, 2 * np.pi)):
        x = np.linspace(0, top, k + 1)
        x[2:-2] += np.random.default_rng(seed).uniform(-0.4, 0.4, len(x[2:-2])) * top / k
        out.append(x)
    return out


CORNERS = {"uneven": uneven, "bent": bent}


def make_grid(n, naz, kind="explicit", seed=0):
    from starwinds_magnetogram import geometry
    if kind in CORNERS:
        return geometry.ZdiGeometry(*CORNERS[kind](n, naz, seed))
    if kind == "arrays":
        return geometry.ZdiGeometry(np.linspace(0, np.pi, n + 1), np.linspace(0, 2 * np.pi, naz + 1))
    if kind in FLIPS:
        p, a = np.linspace(0, np.pi, n + 1), np.linspace(0, 2 * np.pi, naz + 1)
        return geometry.ZdiGeometry(p[::-1] if FLIPS[kind][0] else p, a[::-1] if FLIPS[kind][1] else a)
    return geometry.ZdiGeometry(n + 1, naz + 1)


FLIPS = {"down": (1, 0), "westward": (0, 1), "reversed": (1, 1)}


def harmonic_sum(table, n, naz, kind="explicit", seed=0):
    theta, phi = (np.arange(n) + 0.5) * np.pi / n, (np.arange(naz) + 0.5) * 2 * np.pi / naz
    if kind in CORNERS:
        theta, phi = (0.5 * (x[1:] + x[:-1]) for x in CORNERS[kind](n, naz, seed))
    down = FLIPS.get(kind, (0, 0))
    theta, phi = theta[::-1] if down[0] else theta, phi[::-1] if down[1] else phi
    return sum_at(table, theta, phi)


def sum_at(table, theta, phi):
    tt, pp = np.meshgrid(theta, phi)
    N, _, _ = ref.legendre(max([l for l, m in table] + [0]), theta)
    out = np.zeros(tt.shape, complex)
    for (l, m), v in table.items():
        out += v * N[(l, m)][None, :] * np.exp(1j * m * pp)
    return out


def single(c):
    return {(l, m): complex(f[0], f[1]) for l, m, f in c}


def bound_of(c):
    return sum(np.hypot(f[0], f[1]) * np.sqrt(2 * l + 1.0) for l, m, f in c) + 1e-30


@facet("conversion", case, quick=80, thorough=8000, nontrivial=nontrivial, labels=labels,
       examples=[{"c": [[l, m, [1.0, -0.5]]], "n": 20, "naz": 16, "extra": 1, "grid": "default"} for l in range(3) for m in range(-l, l + 1)])
def conversion(c):
    from starwinds_magnetogram import image_converter
    obj = gen.build(c["c"], 1)
    table = single(c["c"])
    bound = bound_of(c["c"])
    lmax = max(l for l, m in table) + c["extra"]
    results = []
    for k in (1, 2):
        naz = k * c["n"] if c["grid"] == "square" else c["naz"]
        zg = make_grid(k * c["n"], naz, c["grid"])
        image = image_converter.to_image(obj, zg)
        want = harmonic_sum(table, k * c["n"], naz, c["grid"])
        require(gen.close(image, want, bound, 1e-9), "the image differs from the harmonic sum by %g", np.max(np.abs(image - want)) if image.shape == want.shape else np.nan)
        back, used = image_converter.from_image(want, lmax=lmax) if c["grid"] in ("default", "square") else image_converter.from_image(want, zg, lmax=lmax)
        require(all(np.allclose(a, b) for a, b in zip(used.centers(), zg.centers())) and used.centers()[0].shape == want.shape, "the grid returned is another one")
        got = gen.contents(back)
        keys = {(l, m) for l in range(lmax) for m in range(-l, l + 1)}
        require(set(got) == keys, "elements: missing %s, extra %s", sorted(keys - set(got))[:5], sorted(set(got) - keys)[:5])
        results.append(got)
    coarse, fine = results
    for (l, m), v in fine.items():
        true = table.get((l, m), 0)
        b = bound * np.sqrt(2 * l + 1.0)
        require(abs(v[0] - true) <= 3 * b / (2 * c["n"]) ** 2 + 1e-9 * b, "(%d, %d) comes back as %s, was %s", l, m, v[0], true)
        rich = (4 * v[0] - coarse[(l, m)][0]) / 3
        require(abs(rich - true) <= 30 * (l + 2) ** 2 * b / c["n"] ** 4 + 1e-9 * b, "(%d, %d) tends to %s, was %s", l, m, rich, true)


@st.composite
def degree_case(draw):
    return {"l": draw(st.integers(0, 30)), "seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(2, 12)), "naz": draw(st.integers(2, 16))}


@facet("degrees", degree_case, quick=20, thorough=2000, nontrivial=lambda c: c["l"] > 0, labels=lambda c: ["degree=%d" % c["l"]],
       examples=[{"l": l, "seed": l, "n": 7, "naz": 9} for l in list(range(31)) + [31, 35, 40, 46, 50, 57]])
def degrees(c):
    """Every order of one degree: harmonics, image, and the coefficients of the image as sums over the grid."""
    from starwinds_magnetogram import image_converter
    l = c["l"]
    rows = [[l, m, f] for _, m, f in gen.full_set(1, l, l, True, c["seed"])]
    zg = make_grid(c["n"], c["naz"], "uneven", c["seed"])
    theta, phi = zg.centers()
    N, _, _ = ref.legendre(l, theta)
    image = image_converter.to_image(gen.build(rows, 1), zg)
    want = sum(complex(*f) * N[(l, m)] * np.exp(1j * m * phi) for l, m, f in rows)
    require(gen.close(image, want, bound_of(rows), 1e-9), "image of degree %d differs from the harmonic sum by %g", l, np.max(np.abs(image - want)))
    for m in range(-l, l + 1):
        for cache in (True, False):
            have = image_converter.spherical_harmonic(m, l, theta * 0 + phi, theta, use_cache=cache)
            require(gen.close(have, N[(l, m)] * np.exp(1j * m * phi), np.sqrt(2 * l + 1.0), 1e-9), "harmonic (%d, %d) is wrong", l, m)
    corners = zg.corners()
    weight = np.sin(theta) * np.diff(corners[0][0])[None, :] * np.diff(corners[1][:, 0])[:, None]
    got = gen.contents(image_converter.from_image(want, zg, lmax=l + 1)[0])
    for m in range(-l, l + 1):
        w = np.sum(want * N[(l, m)] * np.exp(-1j * m * phi) * weight)
        require(gen.close(got[(l, m)], np.array([w]), 20 * bound_of(rows) * np.sqrt(2 * l + 1.0), 1e-9), "(%d, %d) is %s, the sum over the grid is %s", l, m, got[(l, m)], w)


@st.composite
def linear_case(draw):
    return {"a": draw(gen.coeffs(1, 0, 5, True, 1, 12)), "b": draw(gen.coeffs(1, 0, 5, True, 1, 12)), "k": draw(gen.small_float(5.0)),
            "n": draw(st.integers(3, 12)), "naz": draw(st.integers(3, 16)), "seed": draw(st.integers(0, 10 ** 6)), "complex": draw(st.booleans())}


@facet("linear", linear_case, quick=80, thorough=6000, nontrivial=lambda c: gen.nonzero_count(c["a"]) and gen.nonzero_count(c["b"]))
def linear(c):
    from starwinds_magnetogram import image_converter
    zg = make_grid(c["n"], c["naz"])
    a, b = single(c["a"]), single(c["b"])
    mixed = {k: a.get(k, 0) + c["k"] * b.get(k, 0) for k in set(a) | set(b)}
    obj = [gen.build(x, 1) for x in (c["a"], c["b"], [[l, m, [v.real, v.imag]] for (l, m), v in mixed.items()])]
    ia, ib, im = (image_converter.to_image(o, zg) for o in obj)
    scale = bound_of(c["a"]) + abs(c["k"]) * bound_of(c["b"])
    require(gen.close(im, ia + c["k"] * ib, scale, 1e-10), "images do not add")
    rng = np.random.default_rng(c["seed"])
    noise = rng.normal(size=ia.shape) + (1j * rng.normal(size=ia.shape) if c["complex"] else 0)
    keep = noise.copy()
    ca, cb, cm = (gen.contents(image_converter.from_image(x, zg, lmax=4)[0]) for x in (noise, ia, noise + c["k"] * ia))
    require(np.array_equal(noise, keep), "the image changed")
    for key in cm:
        require(gen.close(cm[key], ca[key] + c["k"] * cb[key], 40 + 40 * scale * (1 + abs(c["k"])), 1e-10), "coefficients do not add at %s", key)
        if not c["complex"]:
            l, m = key
            require(gen.close(ca[(l, -m)], (-1) ** m * np.conj(ca[key]), 100.0, 1e-10), "a real image gives %s and %s at order %d", ca[key], ca[(l, -m)], m)


@st.composite
def history(draw):
    grids = draw(st.lists(st.tuples(st.integers(2, 8), st.integers(2, 10), st.sampled_from(["explicit", "uneven", "bent"]), st.integers(0, 999)), min_size=2, max_size=4))
    if draw(st.booleans()):     # Grids of the same size.
        grids = [(max(grids[0][0], 4), max(grids[0][1], 4)) + tuple(g[2:]) for g in grids]
    steps = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["to_image", "from_image", "harmonic", "harmonic_direct"]), "grid": st.integers(0, len(grids) - 1),
        "l": st.integers(0, 3), "m": st.integers(-3, 3), "overwrite": st.booleans()}), min_size=3, max_size=8))
    return {"c": draw(gen.coeffs(1, 0, 3, True, 1, 10)), "grids": grids, "steps": steps}


@facet("history", history, quick=120, thorough=10000, nontrivial=lambda c: nontrivial(c),
       labels=lambda c: [s["op"] + ("+overwrite" if s["overwrite"] else "") for s in c["steps"]])
def history_facet(c):
    """Each result is the same as if it were the first call, whatever was done with earlier results."""
    from starwinds_magnetogram import image_converter
    obj = gen.build(c["c"], 1)
    table = single(c["c"])
    bound = bound_of(c["c"])
    for s in c["steps"]:
        n, naz, *where = c["grids"][s["grid"]]
        zg = make_grid(n, naz, *where)
        polar, azimuth = zg.centers()
        theta, phi = polar.copy(), azimuth.copy()
        if s["op"] == "to_image":
            out = image_converter.to_image(obj, zg)
            require(gen.close(out, harmonic_sum(table, n, naz, *where), bound, 1e-9), "image differs from the harmonic sum")
        elif s["op"] == "from_image":
            image = harmonic_sum(table, n, naz, *where)
            res, _ = primed(image_converter.from_image, image, zg, lmax=4)
            corners = zg.corners()
            cell = np.diff(corners[0][0])[None, :] * np.diff(corners[1][:, 0])[:, None]
            N, _, _ = ref.legendre(3, theta)
            for (l, m), v in gen.contents(res).items():
                want = np.sum(image * N[(l, m)] * np.exp(-1j * m * phi) * np.sin(theta) * cell)
                require(gen.close(v, np.array([want]), 20 * bound, 1e-9), "(%d, %d) is %s, the sum over the grid is %s", l, m, v, want)
            out = image
        else:
            l, m = s["l"], max(-s["l"], min(s["l"], s["m"]))
            if s["op"] == "harmonic":
                out = primed(image_converter.spherical_harmonic, m, l, azimuth, polar)
            else:
                out = image_converter.spherical_harmonic(m, l, azimuth, polar, use_cache=False)
            N, _, _ = ref.legendre(3, theta)
            require(gen.close(out, N[(l, m)] * np.exp(1j * m * phi), 1.0, 1e-9), "harmonic (%d, %d) is wrong", l, m)
        if s["overwrite"] and isinstance(out, np.ndarray) and out.flags.writeable:
            out *= 0
            out += 7


@st.composite
def warped_case(draw):
    c = draw(case(4))
    c["eps"] = [draw(st.floats(-0.7, 0.7)), draw(st.sampled_from([0.0, -0.6, 0.5]))]
    return c


@facet("warped", warped_case, quick=50, thorough=5000, nontrivial=lambda c: nontrivial(c) and any(abs(e) > 0.05 for e in c["eps"]),
       labels=lambda c: ["uneven-azimuths" if c["eps"][1] else "even-azimuths"])
def warped_facet(c):
    """Unevenly spaced grids: the error still vanishes on refinement."""
    from starwinds_magnetogram import geometry, image_converter
    table = single(c["c"])
    lmax = max(l for l, m in table) + c["extra"]
    got = []
    for k in (1, 2):
        polar, azimuth = warped(k * c["n"], np.pi, c["eps"][0]), warped(2 * k * c["naz"], 2 * np.pi, c["eps"][1])
        zg = geometry.ZdiGeometry(polar, azimuth)
        want = sum_at(table, 0.5 * (polar[1:] + polar[:-1]), 0.5 * (azimuth[1:] + azimuth[:-1]))
        image = image_converter.to_image(gen.build(c["c"], 1), zg)
        require(gen.close(image, want, bound_of(c["c"]), 1e-9), "the image differs from the harmonic sum")
        got.append(gen.contents(image_converter.from_image(image, zg, lmax=lmax)[0]))
    for (l, m), v in got[1].items():
        true = table.get((l, m), 0)
        b = bound_of(c["c"]) * np.sqrt(2 * l + 1.0)
        h = 1 / c["n"] ** 2 + 1 / (2 * c["naz"]) ** 2
        rich = (4 * v[0] - got[0][(l, m)][0]) / 3
        require(abs(v[0] - true) <= 0.5 * b * (l + 2) ** 2 * h + 1e-9 * b, "(%d, %d) comes back as %s, was %s", l, m, v[0], true)
        require(abs(rich - true) <= 2 * b * (l + 2) ** 4 * h ** 2 + 1e-9 * b, "(%d, %d) tends to %s, was %s", l, m, rich, true)
