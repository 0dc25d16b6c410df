"""C25: Fibonacci points are unit vectors spread evenly over the sphere."""
import hypothesis.strategies as st
import numpy as np
from scipy.spatial import cKDTree

from vlib.harness import facet, require

ORACLE = "geometric invariants of the point set: lengths, heights, distinctness, center of mass and nearest neighbours"
RULE = ("A case is a number of points, whether they are randomised, and the seed of the random generator. Non-trivial: at least ten points.")
ASSUMPTIONS = ["at least one point"]


def cases():
    n = st.one_of(st.integers(1, 30), st.integers(30, 300), st.sampled_from([1, 2, 3, 500, 800, 1023, 1024, 2000, 5000]), st.integers(300, 3000))
    return st.fixed_dictionaries({"n": n, "randomize": st.sampled_from([False, True, True]), "seed": st.integers(0, 2 ** 31)})


@facet("points", cases, quick=250, thorough=10000, nontrivial=lambda c: c["n"] >= 10, labels=lambda c: ["random" if c["randomize"] else "fixed"],
       examples=[{"n": n, "randomize": r, "seed": n} for n in (10007, 40000, 70000, 100000) for r in (False, True)])
def points(c):
    import random
    from starwinds_magnetogram.fibonacci_sphere import fibonacci_sphere
    n = c["n"]
    random.seed(c["seed"])
    np.random.seed(c["seed"] % 2 ** 32)
    p = fibonacci_sphere(n, randomize=c["randomize"]) if c["randomize"] or c["seed"] % 2 else fibonacci_sphere(n)
    require(p.shape == (n, 3) and np.all(np.isfinite(p)), "shape %s", p.shape)
    length = np.sqrt(np.sum(p ** 2, axis=1))
    require(np.all(np.abs(length - 1) < 1e-12), "lengths %s to %s", length.min(), length.max())
    middle = -1 + (2 * np.arange(n) + 1.0) / n
    require(any(np.all(np.abs(np.sort(p[:, k]) - middle) < 1e-12) for k in range(3)), "along no axis is there one point in each slice of equal height")
    if not c["randomize"]:
        kept = p.copy()
        p[...] = -7.0
        if c["seed"] % 3 == 0:
            fibonacci_sphere(n, randomize=True)
        p = fibonacci_sphere(n)
        require(np.array_equal(p, kept), "the points are not reproducible")
    spacing = np.sqrt(4 * np.pi / n)
    if n >= 2:
        nearest = 2 * np.arcsin(min(1, np.min(cKDTree(p).query(p, 2)[0][:, 1]) / 2))
        require(nearest > 1e-6, "two points coincide")
        if not c["randomize"]:
            require(nearest > 0.25 * spacing, "two points are %s apart, the mean spacing is %s", nearest, spacing)
    if n >= 10:
        probes = np.random.normal(size=(1500, 3))
        probes = np.concatenate((probes / np.sqrt(np.sum(probes ** 2, axis=1))[:, None], np.eye(3), -np.eye(3)))
        hole = 2 * np.arcsin(min(1, np.max(cKDTree(p).query(probes)[0]) / 2))
        require(hole < 1.3 * spacing, "no point within %s of some place, the mean spacing is %s", hole, spacing)
        mean = np.abs(np.mean(p, axis=0))
        require(np.all(mean < 4.0 / n), "the mean of %d points is %s", n, np.mean(p, axis=0))
