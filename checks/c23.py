"""C23: the Parker wind is the transonic solution with conserved mass flux."""
import hypothesis.strategies as st
import numpy as np

from vlib import gen
from vlib.again import primed
from vlib.harness import facet, require

ORACLE = "independent bisection of the dimensionless Parker equation on the transonic branch, and conservation of mass flux"
RULE = ("A case is a star (radius, mass, temperature through the ratio of sonic to stellar radius, base density) and radii from below the surface to far outside, many near the sonic radius. "
        "Non-trivial: radii both inside and outside the sonic radius.")
ASSUMPTIONS = ["sonic radius between 1/20 and 50 stellar radii (the speed underflows for colder winds)", "radii up to 10 000 sonic radii"]


def factors():
    """Radius over sonic radius."""
    near = st.builds(lambda s, e: 1 + s * 10.0 ** e, st.floats(-1, 1, allow_nan=False), st.integers(-16, -1))
    return st.one_of(near, near, st.sampled_from([1.0, 0.5, 2.0]), st.floats(-1.9, 4.0, allow_nan=False).map(lambda e: 10.0 ** e), st.floats(0.02, 5, allow_nan=False))


@st.composite
def stars(draw):
    return {"ratio": draw(st.one_of(st.floats(0.05, 50, allow_nan=False), st.sampled_from([1.0, 3.9, 0.999, 1.001]))), "R": draw(st.sampled_from([6.9551e8, 1e8, 5e9, 1.0])),
            "M": draw(st.sampled_from([1.989e30, 1e29, 5e30])), "rho": draw(st.sampled_from([2.5e-13, 1.0, 1e-10, 1e-16])),
            "r": [p[0] for p in draw(st.lists(factors().map(lambda f: [f]), min_size=1, max_size=8).flatmap(lambda r: gen.crowd(r, 10, relative=True)))], "below": draw(st.lists(st.floats(0, 1, allow_nan=False), max_size=2)), "shape": draw(st.sampled_from(["flat", "flat", "column", "scalar", "list"]))}


def transonic(x):
    """Speed over sound speed at radius x = r / r_sonic - 1, by bisection."""
    rhs = 4 * (np.log1p(x) - x / (1 + x))
    if x == 0:
        return 1.0

    def lhs(u):      # v = 1 + u
        if abs(u) < 1e-3:
            return 2 * u * u - 2 * u ** 3 / 3 + u ** 4 / 2 - 2 * u ** 5 / 5
        return (1 + u) ** 2 - 1 - 2 * np.log1p(u)

    if abs(x) < 1e-3:
        rhs = 4 * (x * x / 2 - 2 * x ** 3 / 3 + 3 * x ** 4 / 4 - 4 * x ** 5 / 5)
    if x > 0:
        lo, hi = 0.0, 100.0
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if lhs(mid) < rhs else (lo, mid)
        return 1 + (lo + hi) / 2
    # Inside the sonic radius the speed spans many decades; bisect its logarithm.
    lo, hi = -800.0, 0.0
    for _ in range(200):
        mid = (lo + hi) / 2
        value = np.expm1(2 * mid) - 2 * mid if mid < -1e-3 else lhs(np.expm1(mid))
        lo, hi = (mid, hi) if value > rhs else (lo, mid)
    return np.exp((lo + hi) / 2)


def labels(c):
    for r in c["r"]:
        d = abs(r - 1)
        yield "at the sonic point" if d < 1e-12 else "near the sonic point" if d < 1e-3 else "inside" if r < 1 else "outside"
    yield c["shape"]
    yield "sonic radius inside the star" if c["ratio"] < 1 else "sonic radius outside the star"


@facet("wind", stars, quick=250, thorough=25000, labels=labels, nontrivial=lambda c: c["ratio"] > 1 and any(1 / c["ratio"] < r < 1 for r in c["r"]) and any(r > 1 for r in c["r"]),
       examples=[{"ratio": 3.9, "R": 6.9551e8, "M": 1.989e30, "rho": 2.5e-13, "r": [1.0, 1 - 1e-9, 1 + 1e-9, 0.3, 20.0, 1 + 3e-8, 1 - 3e-8], "below": [0.0, 0.5, 1.0], "shape": "flat"}])
def wind(c):
    import scipy.constants as const
    from starwinds_magnetogram.parker_solution import ParkerSolution
    sonic = c["ratio"] * c["R"]
    T = const.gravitational_constant * c["M"] * const.proton_mass / (4 * const.Boltzmann * sonic)
    wind_ = ParkerSolution(temperature=T, base_density=c["rho"], stellar_radius=c["R"], stellar_mass=c["M"])
    sound = np.sqrt(2 * const.Boltzmann * T / const.proton_mass)
    require(abs(wind_.radius_sonic / sonic - 1) < 1e-12, "sonic radius %s, expected %s", wind_.radius_sonic, sonic)
    require(abs(wind_.speed_sonic / sound - 1) < 1e-12, "sound speed %s, expected %s", wind_.speed_sonic, sound)
    radii = np.array([f * sonic for f in c["r"]] + [b * c["R"] for b in c["below"]])
    flux = float(np.squeeze(wind_.total_mass_flux))
    require(np.isfinite(flux) and flux > 0, "total mass flux %s", flux)

    def evaluate(fn):
        if c["shape"] == "scalar":
            parts = [np.asarray(fn(float(r))) for r in radii]
            require(all(p.size == 1 for p in parts), "one radius gives %s values", parts[0].size)
            return np.array([p.item() for p in parts])
        given = radii.reshape(-1, 1) if c["shape"] == "column" else list(radii) if c["shape"] == "list" else radii.copy()
        kept = np.array(given)
        out = np.asarray(primed(fn, given))
        require(np.array_equal(kept, np.array(given)), "the radii were modified")
        require(out.shape == np.shape(given), "values of shape %s for radii of shape %s", out.shape, np.shape(given))
        return out.ravel()

    speed, density = evaluate(wind_.speed), evaluate(wind_.density)
    require(speed.dtype.kind == "f" and density.dtype.kind == "f", "not real: %s", speed.dtype)
    require(np.all(np.isfinite(speed)) and np.all(speed > 0) and np.all(np.isfinite(density)), "speed %s", speed)
    outer = np.maximum(radii, c["R"])
    for r, o, v, d in zip(radii, outer, speed, density):
        x = (o - wind_.radius_sonic) / wind_.radius_sonic
        mach = v / sound
        want = transonic(x)
        require(abs(mach - want) <= 1e-7 * want, "at %.17g sonic radii the speed is %.12g sound speeds, expected %.12g", 1 + x, mach, want)
        if x > 1e-7:
            require(mach > 1, "subsonic outside the sonic radius (%s)", 1 + x)
        if x < -1e-7:
            require(mach < 1, "supersonic inside the sonic radius (%s)", 1 + x)
        through = 4 * np.pi * o ** 2 * d * v
        require(abs(through / flux - 1) < 1e-9, "mass flux at %s sonic radii is %s, total %s", 1 + x, through, flux)
    order = np.argsort(outer)
    for i, j in zip(order[:-1], order[1:]):
        require(speed[j] >= speed[i] * (1 - 1e-7), "the speed falls from %s to %s", speed[i], speed[j])
        if outer[j] > outer[i] * (1 + 1e-6):
            require(speed[j] > speed[i], "the speed does not increase between %s and %s sonic radii", outer[i] / sonic, outer[j] / sonic)
    base = np.asarray(wind_.density(c["R"])).item()
    require(abs(base / c["rho"] - 1) < 1e-12, "density at the surface %s, base density %s", base, c["rho"])
    v0 = np.asarray(wind_.speed(c["R"])).item()
    require(abs(np.asarray(wind_.speed(sonic)).item() / max(sound, v0) - 1) < 1e-6, "speed at the sonic radius")
    for b, v, d in zip(c["below"], speed[len(c["r"]):], density[len(c["r"]):]):
        require(abs(v / v0 - 1) < 1e-12 and abs(d / base - 1) < 1e-12, "below the surface (%s) the wind is %s, %s; at the surface %s, %s", b, v, d, v0, base)


@facet("many_radii", lambda: st.fixed_dictionaries({"ratio": st.floats(0.05, 50, allow_nan=False), "n": st.sampled_from([100, 1000, 5000, 20000]), "seed": st.integers(0, 10 ** 6), "order": st.sampled_from(["random", "outward", "inward"]),
       "column": st.booleans()}), quick=10, thorough=600, nontrivial=lambda c: c["n"] > 100, labels=lambda c: [c["order"], "radii=%d" % c["n"]],
       examples=[{"ratio": 3.9, "n": 30000, "seed": 1, "order": order_, "column": False} for order_ in ("outward", "random")])
def many_radii(c):
    """The wind along thousands of radii: each speed is that of the radius by itself, and the mass flux is the same everywhere."""
    import scipy.constants as const
    from starwinds_magnetogram.parker_solution import ParkerSolution
    rng = np.random.default_rng(c["seed"])
    R, M = 6.9551e8, 1.989e30
    sonic = c["ratio"] * R
    wind_ = ParkerSolution(temperature=const.gravitational_constant * M * const.proton_mass / (4 * const.Boltzmann * sonic), base_density=1e-12, stellar_radius=R, stellar_mass=M)
    radii = R * 10.0 ** rng.uniform(-0.05, 2.5, c["n"])
    radii = {"random": radii, "outward": np.sort(radii), "inward": np.sort(radii)[::-1].copy()}[c["order"]]
    given = radii.reshape(-1, 1) if c["column"] else radii.copy()
    speed, density = np.asarray(wind_.speed(given)), np.asarray(wind_.density(given))
    require(speed.shape == given.shape and density.shape == given.shape, "shapes %s and %s for %d radii", speed.shape, density.shape, c["n"])
    speed, density, outer = speed.ravel(), density.ravel(), np.maximum(radii, R)
    through = 4 * np.pi * outer ** 2 * density * speed / float(np.squeeze(wind_.total_mass_flux))
    require(np.all(np.abs(through - 1) < 1e-9), "mass flux from %s to %s times the total", np.min(through), np.max(through))
    along = np.argsort(outer)
    require(np.all(np.diff(speed[along]) >= -1e-7 * speed[along][1:]), "the speed falls with distance")
    some = np.concatenate((rng.integers(0, c["n"], 20), [0, c["n"] - 1], along[[0, -1]]))
    for i in some:
        want = transonic((outer[i] - wind_.radius_sonic) / wind_.radius_sonic) * wind_.speed_sonic
        require(abs(speed[i] - want) <= 1e-7 * want, "radius %d of %d (%s sonic radii): speed %s, expected %s", i, c["n"], outer[i] / sonic, speed[i], want)


@facet("dimensionless", lambda: st.lists(factors(), min_size=1, max_size=6), quick=150, thorough=10000, nontrivial=lambda c: any(r < 1 for r in c) and any(r > 1 for r in c))
def dimensionless(c):
    from starwinds_magnetogram.parker_solution import ParkerSolution
    wind_ = ParkerSolution()
    r = np.array(c)
    v = np.asarray(wind_.find_parker_analytic(r), dtype=float)
    residual = (v ** 2 - 1 - 2 * np.log(v)) - (4 * np.log(r) + 4 * (1 / r - 1))
    require(np.all(np.abs(residual) <= 1e-9 * (1 + 4 / r + v ** 2)), "the Parker equation is not satisfied: %s at %s", residual, r)
    sides = wind_.parker_lhs(v) - wind_.parker_rhs(r)
    require(np.all(np.abs(sides - residual) <= 1e-12 * (1 + 4 / r + v ** 2)), "the two sides of the Parker equation differ from their definition")
    below, above = (np.asarray(b, dtype=float) for b in wind_.find_parker_analytic(r, all_sols=True))
    for name, b in (("subsonic", below), ("supersonic", above)):
        require(b.shape == r.shape and np.all(np.isfinite(b)) and np.all(b >= 0), "%s solution %s", name, b)
        kept = b > 1e-150
        u = b[kept]
        residual = (u ** 2 - 1 - 2 * np.log(u)) - (4 * np.log(r) + 4 * (1 / r - 1))[kept]
        require(np.all(np.abs(residual) <= 1e-9 * (1 + 4 / r[kept] + u ** 2)), "the %s solution does not satisfy the Parker equation: %s at %s", name, residual, r[kept])
    require(np.all(below <= 1 + 1e-12) and np.all(above >= 1 - 1e-12), "both solutions: %s and %s", below, above)
    require(np.all(np.abs(np.where(r < 1, below, above) - v) <= 1e-9 * v), "the transonic solution is neither of both")
    for x, w in zip(r, v):
        require(abs(w - transonic(x - 1)) <= 1e-7 * w, "speed at %s is %s, expected %s", x, w, transonic(x - 1))
