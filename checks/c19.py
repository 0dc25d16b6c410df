"""C19: calculations leave the caller's data unchanged and are repeatable."""
import os
import time

import hypothesis.strategies as st
import numpy as np

from vlib import gen
from vlib.harness import Violation, facet, require
from vlib.pristine import Pool

ORACLE = "the same calculation on freshly built inputs in a process that has done nothing else, and bit-for-bit snapshots of all shared inputs around every operation"
RULE = ("A case is a set of shared inputs (two PFSS sets and two ZDI sets with the same elements and different values, a set with negative orders, two point grids of the same "
        "shape (with the same values in another order in half of the cases), a geometry, an image, a wind, a file) and 2-12 operations on them, or every operation twice in any order, optionally overwriting the arrays that were returned. The sequence runs in one process; "
        "every operation also runs alone in a process of its own. Non-trivial: at least three operations, at least two of them different.")
ASSUMPTIONS = ["no two calculations run at the same time", "arrays handed out as views of a container (Coefficients.get, ZdiGeometry.corners) are not overwritten by the caller",
               "results of repeated calculations agree to 1e-9 of their largest value"]


# ---------------------------------------------------------------- shared inputs

class World:
    def __init__(self, case, folder):
        from starwinds_magnetogram import coefficients as shc, zdi_magnetogram
        from starwinds_magnetogram.geometry import ZdiGeometry
        from starwinds_magnetogram.parker_solution import ParkerSolution
        self.folder = folder
        rng = np.random.RandomState(case["seed"])
        self.pfss = [gen.build([[l, m, v] for l, m, v in case["pfss"]], 1),
                     gen.build([[l, m, [v[1] + 1.5, v[0] - 0.5]] for l, m, v in case["pfss"]], 1)]
        self.zdi = [gen.build(case["zdi"], 3), gen.build([[l, m, v[2:] + [v[0] + 1.0, v[1]]] for l, m, v in case["zdi"]], 3)]
        self.signed = [gen.build(case["signed"], 1), gen.build([[l, m, [v[1], v[0] + 2.0]] for l, m, v in case["signed"]], 1)]
        ls, ms = np.array([e[0] for e in case["zdi"]]), np.array([e[1] for e in case["zdi"]])
        self.raw = [ls, ms] + [np.array([complex(e[2][2 * i], e[2][2 * i + 1]) for e in case["zdi"]]) for i in range(3)]
        self.mgm = [zdi_magnetogram.ZdiMagnetogram(*self.raw), zdi_magnetogram.from_coefficients(self.zdi[1])]
        n, k = case["grid"]
        self.zg = [ZdiGeometry(n, k), ZdiGeometry(np.linspace(0, np.pi, n) ** 1.0, np.linspace(0.1, 2 * np.pi + 0.1, k))]
        shape = (3, 2)

        def twin(x):
            """The same values, the first and last ones in the same place and the others not."""
            y = x.copy()
            y.ravel()[1:-1] = y.ravel()[1:-1][::-1]
            return y

        self.points = []
        for i in range(2):
            pl, az = rng.uniform(0.1, 3.0, shape), rng.uniform(0, 6.2, shape)
            if case["poles"]:
                pl[0, 0] = 0.0
                pl[1, 1] = np.pi
            self.points.append([rng.uniform(0.5, 4.0, shape), pl, az])
        self.xyz = [[rng.uniform(-3, 3, (2, 2)) for _ in range(3)] for _ in range(2)]
        if case.get("twins"):
            self.points[1] = [twin(x) for x in self.points[0]]
            self.xyz[1] = [twin(x) for x in self.xyz[0]]
        self.direction = np.array([0.3, -1.2, 0.7])
        self.observers = [np.linspace(0, 6, 5), np.array([0.5, 0.1, 4.0])]
        self.image = [rng.normal(size=(k - 1, n - 1)), rng.normal(size=(k - 1, n - 1)) + 1j * rng.normal(size=(k - 1, n - 1))]
        pl, az = self.zg[0].centers()
        self.sampled = [rng.normal(size=pl.shape) for _ in range(3)]
        self.grid_points = [pl, az]
        self.wind = [ParkerSolution(), ParkerSolution(temperature=3e6, stellar_radius=1e9)]
        self.radii = [np.array([3e8, 7e8, 2e9, 1e11]), np.array([[1e9, 5e8], [8e9, 4e10]])]
        self.degrees = np.array([1, 2, 2, 3])
        self.orders = np.array([0, 0, 2, 1])
        if case.get("twins"):
            self.image[1] = twin(self.image[0])
            self.radii[1] = twin(self.radii[0])
            self.observers = [np.linspace(0, 6, 5), twin(np.linspace(0, 6, 5))]
        self.wavelengths = np.array([1.0, 1.1, 1.2, 5.0, 5.1, 9.0])
        self.lsd = np.column_stack([np.linspace(-5, 5, 6)] + [np.abs(rng.normal(size=6)) + 0.1 for _ in range(6)])
        self.euler = [np.array([20.0, 50.0, -30.0]), np.array([100.0, 10.0, 5.0])]
        self.ranges = [[1, 3], [0, 2]]
        self.fractions = {}
        with open(os.path.join(folder, "in.dat"), "w") as f:
            f.write("header\n")
            for l, m, v in case["pfss"]:
                f.write("%d %d %.6e %.6e\n" % (l, m, v[0], v[1]))

        if case.get("scale", 1.0) != 1.0:
            self.sampled = [x * case["scale"] for x in self.sampled]
            self.image = [x * case["scale"] for x in self.image]
            self.direction = self.direction * case["scale"]
        if case.get("locked"):
            for value in vars(self).values():
                lock(value)

    def snapshot(self):
        out = {}
        for name, value in vars(self).items():
            if name not in ("folder", "fractions"):
                out[name] = freeze(value, deep=True)
        with open(os.path.join(self.folder, "in.dat")) as f:
            out["input file"] = f.read()
        return out


def lock(x):
    """Arrays that cannot be written to."""
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (list, tuple)):
        for v in x:
            lock(v)


def freeze(x, deep=False):
    """Plain, picklable and comparable picture of a value."""
    from starwinds_magnetogram.coefficients import Coefficients
    from starwinds_magnetogram.geometry import ZdiGeometry
    from starwinds_magnetogram.parker_solution import ParkerSolution
    from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
    if isinstance(x, Coefficients):
        return ("set", [(k, np.array(v)) for k, v in x.contents()], np.array(x.default_coefficients), x.degree_max, x.order_min, x.size)
    if isinstance(x, ZdiMagnetogram):
        return ("magnetogram", [np.array(v) for v in (x.degrees_l, x.orders_m, x.alpha, x.beta, x.gamma)])
    if isinstance(x, ZdiGeometry):
        return ("geometry", [np.array(v) for v in x.corners()], [np.array(v) for v in x.centers()] if deep else None)
    if isinstance(x, ParkerSolution):
        return ("wind", str(x), [float(np.squeeze(v)) for v in (x.temperature, x.base_density, x.stellar_radius, x.stellar_mass, x.radius_sonic, x.speed_sonic,
                                                                x.speed_surface, x.density_sonic)])
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [freeze(v, deep) for v in x]
    if isinstance(x, dict):
        return {k: freeze(v, deep) for k, v in x.items()}
    if x is None or isinstance(x, (str, bool, int, float, complex, np.generic)):
        return x
    raise TypeError("cannot picture %r" % type(x))


def identical(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    return a == b


def agree(a, b):
    if isinstance(a, (np.ndarray, np.generic, float, complex, int)) and not isinstance(a, bool):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or (a.dtype.kind in "fc") != (b.dtype.kind in "fc") or a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
            return False
        if a.dtype.kind not in "fc":
            return bool(np.array_equal(a, b))
        scale = np.max(np.abs(a[np.isfinite(a)]), initial=0.0)
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * scale, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(agree(a[k], b[k]) for k in a)
    return a == b


def overwrite(x):
    """Write over everything a caller got back."""
    from starwinds_magnetogram.coefficients import Coefficients
    if isinstance(x, Coefficients):
        d = np.array(x.default_coefficients)
        for k, _ in list(x.contents()):
            x.set(k[0], k[1], d + 99)
        x.set(x.degree_max + 1, -1, d + 7)
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fci" and x.flags.writeable:
        x[...] = 55
    elif isinstance(x, (list, tuple)):
        for v in x:
            overwrite(v)
    elif isinstance(x, dict):
        for v in x.values():
            overwrite(v)


# ---------------------------------------------------------------- operations

OPS = {}
SLOW = set()
SHARED = set()


def op(name, slow=False, shared=False):
    """shared: the result may share memory with the inputs, so that it is not overwritten."""
    def deco(fn):
        OPS[name] = fn
        if slow:
            SLOW.add(name)
        if shared:
            SHARED.add(name)
        return fn
    return deco


def _modules():
    import starwinds_magnetogram as package
    from starwinds_magnetogram import (coefficients, converter, coordinate_transforms, fibonacci_sphere, geometry, image_converter, longitudinal_field,  # noqa: F401
                                       parker_solution, pfss_magnetogram, plot_lsd, plot_pfss, plot_zdi, plots, reader_writer, rotate, zdi_magnetogram,
                                       colorbar_manual_tickmarks, associated_legendre)
    return package


class M:
    """The package's modules by name."""
    def __getattr__(self, name):
        import importlib
        return importlib.import_module("starwinds_magnetogram." + name)


p = M()

op("pfss spherical")(lambda w, i, j: p.pfss_magnetogram.evaluate_spherical(w.pfss[i], *w.points[j]))
op("pfss surface")(lambda w, i, j: p.pfss_magnetogram.evaluate_spherical(w.pfss[i], 1, *w.points[j][1:], radius_star=1, radius_source_surface=[2.5, 3][i]))
op("pfss wide")(lambda w, i, j: p.pfss_magnetogram.evaluate_spherical(w.pfss[j], *w.points[i], radius_star=0.5 + 0.5 * i, radius_source_surface=8.0))
op("pfss cartesian")(lambda w, i, j: p.pfss_magnetogram.evaluate_cartesian(w.pfss[i], *w.xyz[j]))
op("normal plane", shared=True)(lambda w, i, j: p.pfss_magnetogram.normal_plane(w.xyz[i][0], w.xyz[i][1], "xyz"[j + i]))
for _name in ("get_radial_field", "get_polar_field", "get_azimuthal_field", "get_radial_poloidal_field", "get_radial_toroidal_field", "get_polar_poloidal_field_new",
              "get_polar_toroidal_field", "get_azimuthal_poloidal_field", "get_azimuthal_toroidal_field_new", "get_field_strength", "get_cartesian_field",
              "get_cartesian_poloidal_field", "get_cartesian_toroidal_field"):
    op("zdi " + _name)(lambda w, i, j, _name=_name: getattr(w.mgm[i], _name)(*w.points[j][1:]))
op("zdi all")(lambda w, i, j: {a + b: fn(*w.points[j][1:]) for a, d in w.mgm[i].get_all().items() for b, fn in d.items()})
op("zdi text")(lambda w, i, j: [str(w.mgm[i]), str(w.zdi[j]), repr(w.pfss[j])])
op("zdi copy")(lambda w, i, j: w.mgm[i].copy())
op("zdi poloidal")(lambda w, i, j: w.mgm[i].as_poloidal())
op("zdi toroidal")(lambda w, i, j: w.mgm[i].as_toroidal())
op("zdi restricted")(lambda w, i, j: w.mgm[i].as_restricted(degree_l_range=w.ranges[j], order_m_range=w.ranges[1 - j]))
op("zdi dipole")(lambda w, i, j: w.mgm[i].as_dipole())
op("zdi from coefficients")(lambda w, i, j: p.zdi_magnetogram.from_coefficients(w.zdi[i]).get_polar_field(*w.points[j][1:]))
op("zdi poloidal field")(lambda w, i, j: w.mgm[i].as_poloidal().get_azimuthal_field(*w.points[j][1:]))
op("zdi toroidal field")(lambda w, i, j: w.mgm[i].as_toroidal().get_azimuthal_field(*w.points[j][1:]))
op("zdi restricted field")(lambda w, i, j: w.mgm[i].as_restricted(degree_l_range=[1, 2]).get_field_strength(*w.points[j][1:]))
op("energy matrix")(lambda w, i, j: w.mgm[i].energy_matrix())


@op("energy")
def _energy(w, i, j):
    dest = {}
    return w.mgm[i].energy(dest=dest), dest


@op("energy into shared dictionary")
def _energy_shared(w, i, j):
    w.mgm[i].energy(dest=w.fractions)
    return {k: v for k, v in w.fractions.items() if "energy" in k}


op("energy printed")(lambda w, i, j: w.mgm[i].energy(show_fractions=bool(j)))
op("longitudinal")(lambda w, i, j: p.longitudinal_field.get_longitudinal_field_curve(w.zg[j], w.mgm[i], 0.4 + j, w.observers[i]))
op("longitudinal default")(lambda w, i, j: p.longitudinal_field.get_longitudinal_field_curve(w.zg[j], w.mgm[i], 1.1))
op("geometry", shared=True)(lambda w, i, j: [w.zg[i].centers(), w.zg[i].areas(), w.zg[i].unit_normals(), w.zg[i].corners_cartesian(), w.zg[i].centers_cartesian(), w.zg[i].shape])
op("geometry areas")(lambda w, i, j: w.zg[i].areas())
op("geometry normals")(lambda w, i, j: w.zg[i].unit_normals())
op("geometry centers")(lambda w, i, j: [w.zg[i].centers(), w.zg[i].centers_cartesian(), w.zg[i].corners_cartesian()])
op("geometry corners", shared=True)(lambda w, i, j: w.zg[i].corners())
op("visible")(lambda w, i, j: w.zg[i].projected_visible_area_fraction(w.direction))
op("description")(lambda w, i, j: p.geometry.numerical_description(w.zg[0], w.mgm[i]))
op("wind speed")(lambda w, i, j: w.wind[i].speed(w.radii[j]))
op("wind density")(lambda w, i, j: w.wind[i].density(w.radii[j]))
op("wind flux")(lambda w, i, j: [w.wind[i].total_mass_flux, str(w.wind[i])])
op("wind branches")(lambda w, i, j: w.wind[i].find_parker_analytic(w.radii[j] / 1e9))
op("zdi to pfss")(lambda w, i, j: p.converter.convert_zdi_to_pfss(w.signed[i] if j else w.pfss[i]))
op("pfss to zdi")(lambda w, i, j: p.converter.convert_pfss_to_zdi(w.pfss[i]))
op("fold")(lambda w, i, j: p.converter.map_to_positive_orders(w.signed[i]))
op("rotate")(lambda w, i, j: p.rotate.rotate_magnetogram_euler_zyz_deg(w.signed[i], w.euler[j]))
op("rotate three")(lambda w, i, j: p.rotate.rotate_magnetogram_euler_zyz_deg(w.zdi[i], w.euler[j]))
op("from samples")(lambda w, i, j: p.converter.convert_latlon_to_zdi_coeffs(*w.grid_points, *np.roll(np.array(w.sampled), i, axis=0), max_degree=2 + j))
op("from samples shared")(lambda w, i, j: p.converter.get_zdi_coeffs(*w.grid_points, w.degrees, w.orders, *w.sampled))
op("from image")(lambda w, i, j: p.image_converter.from_image(w.image[i], w.zg[0], lmax=3 + j)[0])
op("to image")(lambda w, i, j: p.image_converter.to_image(w.signed[i], w.zg[j]))
op("spherical harmonic")(lambda w, i, j: p.image_converter.spherical_harmonic(i, 2, *w.zg[j].centers()[::-1]))
op("read")(lambda w, i, j: p.reader_writer.read_magnetogram_file(os.path.join(w.folder, "in.dat")))


@op("write")
def _write(w, i, j):
    p.reader_writer.write_magnetogram_file((w.zdi if j else w.pfss)[i], "out.dat", write_swmf_header=not j)
    with open("out.dat") as f:
        return f.read()


@op("convert file")
def _convert(w, i, j):
    from starwinds_magnetogram.bin import convert_magnetogram as command
    if os.path.exists("converted.dat"):
        os.remove("converted.dat")
    (command.convert_zdi_to_pfss if i else command.convert_pfss_to_zdi)(os.path.join(w.folder, "in.dat"), "converted.dat")
    with open("converted.dat") as f:
        return f.read()


op("copy")(lambda w, i, j: (w.zdi if j else w.signed)[i].copy())
op("truncate")(lambda w, i, j: (w.zdi if j else w.signed)[i].truncated(2))
op("add")(lambda w, i, j: w.zdi[i] + w.zdi[j])
op("add signed")(lambda w, i, j: w.signed[i] + w.pfss[j])
op("subtract")(lambda w, i, j: w.zdi[i] - w.zdi[1 - i])
op("scale")(lambda w, i, j: [2.0 * w.zdi[i], w.zdi[i] * 1j, w.zdi[i] / 4.0, w.zdi[j] ** 2])
op("product")(lambda w, i, j: w.signed[i] * w.pfss[j])
op("scale function")(lambda w, i, j: w.zdi[i].scale(lambda l, m: l + m + 1.0, 1 - 2 * j))
op("split")(lambda w, i, j: w.zdi[i].hsplit())
op("stack")(lambda w, i, j: p.coefficients.hstack((w.pfss[i], w.signed[j], w.zdi[i])))
op("export")(lambda w, i, j: w.zdi[i].as_arrays(include_unset=bool(j)))
op("import")(lambda w, i, j: p.coefficients.from_arrays(w.raw[0], w.raw[1], np.stack(w.raw[2:], axis=-1)))
op("like")(lambda w, i, j: [p.coefficients.empty_like(w.zdi[i]), p.coefficients.zeros_like(w.zdi[i])])
op("compare")(lambda w, i, j: [p.coefficients.allclose(w.zdi[i], w.zdi[j]), p.coefficients.isclose(w.signed[i], w.pfss[j])])
op("get unset")(lambda w, i, j: [w.zdi[i].get(99, j), w.zdi[i].default_coefficients, w.zdi[i].has(99, j)])
op("cartesian")(lambda w, i, j: [p.coordinate_transforms.rectangular_coordinates_from_spherical(*w.points[i]),
                                 p.coordinate_transforms.spherical_coordinates_from_rectangular(*w.xyz[j]),
                                 p.coordinate_transforms.spherical_to_rectangular_transformation_matrix(w.points[i][1].ravel(), w.points[j][2].ravel()),
                                 p.coordinate_transforms.rectangular_to_spherical_transformation_matrix(w.points[i][1].ravel(), w.points[j][2].ravel())])
op("fibonacci")(lambda w, i, j: np.array(p.fibonacci_sphere.fibonacci_sphere(7 + i, False)))
op("intervals")(lambda w, i, j: [[int(v) for v in pair] for pair in p.plot_lsd.wl_intervals(w.wavelengths, [0.2, 3.9][i])])
op("legendre")(lambda w, i, j: [p.associated_legendre.calculate_lpmn(w.degrees, w.orders, w.points[i][1]),
                                p.pfss_magnetogram.calculate_all_theta(w.degrees, w.orders, w.points[j][1])])
op("factors")(lambda w, i, j: [p.converter.forward_conversion_factor(w.degrees, w.orders), p.zdi_magnetogram.get_c_lm(w.degrees, w.orders),
                               p.pfss_magnetogram.r_l(2, w.points[i][0], 1, 5), p.pfss_magnetogram.phi_lm(2, 1.0, 2.0, w.points[j][2])])


def picture(axs):
    """What is drawn on the axes."""
    import matplotlib.collections
    out = []
    for ax in np.atleast_1d(axs).ravel():
        for line in ax.lines:
            out.append(np.array(line.get_xydata(), dtype=float))
        for c in ax.collections:
            if isinstance(c, matplotlib.collections.QuadMesh):
                out.append(np.array(c.get_array(), dtype=float))
                out.append(np.array(c.get_clim(), dtype=float))
        for patch in ax.patches:
            if hasattr(patch, "theta1"):
                out.append(np.array([patch.theta1, patch.theta2]))
        for image in ax.images:
            out.append(np.array(image.get_array(), dtype=float))
        out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel()])
    return out


def plot(name):
    def deco(fn):
        def run(w, i, j):
            import matplotlib.pyplot as plt
            plt.close("all")
            try:
                return picture(fn(w, i, j, plt))
            finally:
                plt.close("all")
        op(name, slow=True)(run)
        return fn
    return deco


plot("plot zdi components")(lambda w, i, j, plt: p.plot_zdi.plot_zdi_components(w.mgm[i], zg=w.zg[j]))
plot("plot zdi field")(lambda w, i, j, plt: p.plot_zdi.plot_zdi_field(w.mgm[i].get_radial_field, zg=w.zg[j])[1])
plot("plot energy summary")(lambda w, i, j, plt: p.plot_zdi.plot_energy_summary(w.mgm[i])[1])
plot("plot energy matrix")(lambda w, i, j, plt: p.plot_zdi.plot_energy_matrix(w.mgm[i], types=("total", "radial", "poloidal", "toroidal"))[1])
plot("plot energy by degree")(lambda w, i, j, plt: p.plot_zdi.plot_energy_by_degree(w.mgm[i], scaled=bool(j))[1])
plot("plot zdi streamtraces")(lambda w, i, j, plt: p.plot_zdi.plot_streamtraces(w.mgm[i], w.zg[0]))
plot("plot pfss components")(lambda w, i, j, plt: p.plot_pfss.plot_components(w.pfss[i], geometry=w.zg[j])[1])
plot("plot pfss streamtraces")(lambda w, i, j, plt: p.plot_pfss.plot_streamtraces(w.pfss[i], w.zg[0])[1])
plot("plot longitudinal")(lambda w, i, j, plt: p.longitudinal_field.plot_longitudinal_field_curve(plt.gca(), w.zg[j], w.mgm[i], 0.7, w.observers[j])[0])
plot("plot equirectangular")(lambda w, i, j, plt: [p.plots.plot_equirectangular(w.zg[0], w.sampled[i], plt.gca()).axes])


@plot("plot lsd")
def _lsd(w, i, j, plt):
    fig, axs = plt.subplots(3)
    p.plot_lsd.plot_lsd_profile(w.lsd, ["VNI", "IV"][j])
    return axs


@plot("plot lsd stack")
def _stack(w, i, j, plt):
    p.plot_lsd.plot_lsd_stack([w.lsd, w.lsd], ["a", "b"], "same" if i else None)
    return plt.gcf().axes


# ---------------------------------------------------------------- running

def _folder():
    import tempfile
    folder = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(folder)
    return folder


def _quiet(fn):
    def wrapped(argument):
        import contextlib
        import io
        import shutil
        import warnings
        folder = _folder()
        np.random.seed(0)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return fn(argument, folder)
        finally:
            os.chdir(os.environ["VERIF_SCRATCH"])
            shutil.rmtree(folder)
    return wrapped


@_quiet
def run_alone(argument, folder):
    case, step = argument
    world = World(case, folder)
    return freeze(OPS[step["op"]](world, step["i"], step["j"]))


@_quiet
def run_sequence(case, folder):
    world = World(case, folder)
    before = world.snapshot()
    results = []
    for number, step in enumerate(case["ops"]):
        result = OPS[step["op"]](world, step["i"], step["j"])
        results.append(freeze(result))
        if step["overwrite"] and step["op"] not in SHARED:
            overwrite(result)
        after = world.snapshot()
        for name in before:
            if not identical(before[name], after[name]):
                return {"changed": name, "by": number, "before": repr(before[name])[:300], "after": repr(after[name])[:300]}
    return {"results": results}


_server = []


def server():
    if not _server:
        _modules()
        import matplotlib.pyplot  # noqa: F401
        import quaternion
        import spherical_functions
        spherical_functions.Wigner_D_element(quaternion.from_euler_angles(0.1, 0.2, 0.3), 3, 1, -1)  # Compiles code that does not belong to the package.
        _server.append(Pool({"alone": run_alone, "sequence": run_sequence}, 6))
    return _server[0]


def family(*words):
    return [name for name in OPS if name not in SLOW and any(w in name for w in words)]


FAMILIES = [family("image", "harmonic"), family("pfss", "legendre", "factors"), family("zdi", "energy"), family("zdi", "description", "longitudinal"),
            family("add", "scale", "product", "split", "stack", "copy", "subtract", "export", "import", "like", "compare", "unset", "truncate"),
            family("rotate", "fold", "samples", "to pfss", "to zdi", "like", "unset"), family("geometry", "visible", "longitudinal", "description"), family("wind"),
            family("read", "write", "file", "to pfss", "to zdi"), family("cartesian", "fibonacci", "intervals", "normal", "from samples")]


def round_trip(seed):
    """Every operation twice."""
    rng = np.random.RandomState(seed)
    return [{"op": sorted(OPS)[k], "i": int(rng.randint(2)), "j": int(rng.randint(2)), "overwrite": bool(rng.rand() < 0.7)} for _ in range(2) for k in rng.permutation(len(OPS))]


def dense(top):
    return [[l, m, [float((l + 3 * m + k) % 7 + 1) for k in range(6)]] for l in range(1, top + 1) for m in range(l + 1)]


@st.composite
def cases(draw, slow=False, tour=False):
    def step(names, i=st.integers(0, 1), j=st.integers(0, 1)):
        return st.fixed_dictionaries({"op": st.sampled_from(sorted(names)), "i": i, "j": j, "overwrite": st.booleans()})

    if tour:
        ops = round_trip(draw(st.integers(0, 10 ** 9)))
    elif slow:
        ops = draw(st.lists(st.one_of(step(SLOW), step(SLOW), step(OPS)), min_size=2, max_size=4))
    else:
        every = set(OPS) - SLOW
        kind = draw(st.sampled_from(["all", "family", "family", "one input"]))
        if kind == "all":
            ops = draw(st.lists(step(every), min_size=3, max_size=12))
        elif kind == "family":
            ops = draw(st.lists(step(draw(st.sampled_from(FAMILIES))), min_size=3, max_size=12))
        else:
            ops = draw(st.lists(step(draw(st.sampled_from(FAMILIES)), st.just(draw(st.integers(0, 1))), st.just(draw(st.integers(0, 1)))), min_size=3, max_size=12))
    # Repeat some steps, or the same operation on the other inputs.
    for index in draw(st.lists(st.integers(0, len(ops) - 1), max_size=0 if tour else 1 if slow else 3)):
        again = dict(ops[index])
        if draw(st.booleans()):
            again["i"] = 1 - again["i"]
        if draw(st.booleans()):
            again["j"] = 1 - again["j"]
        ops.append(again)
    value = st.integers(-9, 9).map(float)
    top = draw(st.sampled_from([4, 4, 4, 8]))
    zdi = draw(gen.coeffs(3, 1, top, False, 1, 8, value=value))
    if tour:
        zdi = dense(draw(st.sampled_from([2, 6, 9])))
    if not any(any(v) for _, _, v in zdi):
        zdi[0][2][0] = 1.0
    return {"pfss": draw(gen.coeffs(1, 1, top, False, 1, 8, value=value)), "twins": draw(st.booleans()), "locked": draw(st.booleans()), "zdi": zdi, "signed": draw(gen.coeffs(1, 0, 3, True, 1, 8, value=value)),
            "grid": draw(st.sampled_from([[6, 12], [4, 9], [9, 17]])), "poles": draw(st.booleans()), "scale": draw(st.sampled_from(gen.SCALES)), "seed": draw(st.integers(0, 50)), "ops": ops}


def labels(case):
    return [step["op"] for step in case["ops"]]


def judge(case):
    (kind, outcome), *answers = server().calls([("sequence", case)] + [("alone", (case, step)) for step in case["ops"]])
    failed = [(step, a[1]) for step, a in zip(case["ops"], answers) if a[0] != "ok"]
    require(not failed, "a calculation fails on its own: %s", failed[:1])
    require(kind == "ok", "a calculation fails in the sequence only: %s", outcome)
    require("changed" not in outcome, "%s changes after operation %s: %s", outcome.get("changed"), outcome.get("by"), outcome)
    for number, (step, (_, alone), result) in enumerate(zip(case["ops"], answers, outcome["results"])):
        require(agree(alone, result), "operation %d (%s) gives %r in the sequence and %r alone", number, step["op"], result, alone)


def nontrivial(case):
    return len(case["ops"]) >= 3 and len({s["op"] for s in case["ops"]}) >= 2


@facet("calculations", cases, quick=60, thorough=6000, labels=labels, nontrivial=nontrivial)
def calculations(case):
    judge(case)


@facet("plots", lambda: cases(True), quick=7, thorough=400, labels=labels, nontrivial=nontrivial)
def plots(case):
    judge(case)


def fault(case):
    """None, or the number of the last operation that is needed and what goes wrong."""
    try:
        judge(case)
    except Violation as exc:
        return str(exc)
    return None


@facet("tour", lambda: cases(tour=True), quick=1, thorough=120, labels=labels, nontrivial=nontrivial, shrink=False,
       examples=[{"pfss": [[l, m, v[:2]] for l, m, v in dense(7)], "twins": False, "locked": False, "zdi": dense(9), "signed": [[l, s * m, v[2:4]] for l, m, v in dense(5) for s in ((1, -1) if m else (1,))],
                  "grid": [9, 17], "poles": False, "scale": 1.0, "seed": 1, "ops": round_trip(1)}])
def tour(case):
    """Every operation twice, in any order, so that every operation is made after every other one."""
    found = fault(case)
    if found is None:
        return
    # Leave out operations as long as something still goes wrong.
    size = max(1, len(case["ops"]) // 2)
    deadline = time.monotonic() + 90
    while time.monotonic() < deadline:
        start, shorter = 0, False
        while start < len(case["ops"]) and time.monotonic() < deadline:
            less = dict(case, ops=case["ops"][:start] + case["ops"][start + size:])
            again = fault(less) if less["ops"] else None
            if again:
                case, found, shorter = less, again, True
            else:
                start += size
        if size == 1 and not shorter:
            break
        size = max(1, size // 2)
    error = Violation(found)
    error.case = case
    raise error
