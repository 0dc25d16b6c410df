"""C27: LSD profile plots show the requested columns; intervals partition spectra."""
import os
import sys
import tempfile

import hypothesis.strategies as st
import numpy as np

from vlib import figs
from vlib.harness import facet, require

ORACLE = "drawn artists (lines, error bars, legends, limits) against the generated table; a direct definition of the intervals"
RULE = ("A case is an LSD table and a selection of parameters, a stack of tables with names and limits, or a wavelength vector with a threshold. "
        "Non-trivial: two or more parameters, profiles or intervals.")
ASSUMPTIONS = ["profiles have at least two rows and non-negative uncertainties", "wavelength differences are exactly the threshold or not within rounding of it"]

COLUMN = {"I": 1, "V": 3, "N": 5}


@st.composite
def tables(draw, rows=None):
    n = rows or draw(st.one_of(st.integers(2, 7), st.integers(2, 7), st.integers(8, 60)))
    start = draw(st.floats(-200, 200))
    v = start + np.cumsum(draw(st.lists(st.floats(0.1, 5), min_size=n, max_size=n)))
    level, size = draw(st.sampled_from([(0, 1), (0, 1), (0, 1), (-5, 1), (7, 1), (0, 1e-4), (100, 20)]))
    value = st.floats(-2, 2, allow_nan=False).map(lambda x: round(level + size * x, 5))
    error = st.floats(0, 0.5, allow_nan=False).map(lambda x: round(x, 5))
    return [[round(float(v[i]), 4)] + [draw(value if k % 2 == 0 else error) for k in range(6)] for i in range(n)]


def selections():
    return st.one_of(st.sampled_from(["I", "V", "N", "VI", "IV", "VNI", "VIN", "NIV", "IVN", "NVI", "INV", "NI"]), st.text("IVN", min_size=1, max_size=4))


def profiles():
    return st.fixed_dictionaries({"data": tables(), "params": st.one_of(st.none(), selections()), "spare": st.integers(0, 2)})


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))


def check_panel(ax, data, parameter):
    bars = figs.errorbars(ax)
    require(len(bars) == 1, "%d profiles in the panel of %s", len(bars), parameter)
    k = COLUMN[parameter]
    x, y, low, high = bars[0]
    require(near(x, data[:, 0]) and near(y, data[:, k]), "the panel of %s shows other values", parameter)
    require(near(low, data[:, k] - data[:, k + 1]) and near(high, data[:, k] + data[:, k + 1]), "the panel of %s has other uncertainties", parameter)
    text = ax.get_ylabel()
    require([p for p in "IVN" if "Stokes $%s/" % p in text] == [parameter], "the panel of %s is labelled %s", parameter, text)


@facet("profile", profiles, quick=60, thorough=3000, nontrivial=lambda c: c["params"] is None or len(c["params"]) > 1, labels=lambda c: [str(c["params"])[:3]],
       examples=[{"data": [[0.0, 1, .1, 2, .2, 3, .3], [1.0, 4, .4, 5, .5, 6, .6]], "params": "I", "spare": 0}])
def profile(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_lsd
    data = np.array(c["data"])
    params = c["params"] or "VNI"
    with figs.session():
        fig, axs = plt.subplots(len(params) + c["spare"], squeeze=False)
        kept = data.copy()
        got = plot_lsd.plot_lsd_profile(data, parameters=params) if c["params"] else plot_lsd.plot_lsd_profile(data)
        require(got is fig, "another figure is returned")
        require(np.array_equal(kept, data), "the table was modified")
        for ax, parameter in zip(axs[:, 0], params):
            check_panel(ax, data, parameter)
        for ax in axs[len(params):, 0]:
            require(not figs.errorbars(ax), "a panel that was not asked for shows a profile")


def commands():
    return st.fixed_dictionaries({"data": tables(), "params": st.one_of(st.none(), selections()), "skip": st.sampled_from([None, None, 0, 1, 3]),
                                  "output": st.sampled_from(["out.png", "out.png", "out.pdf", None]), "flag": st.booleans(),
                                  "name": st.sampled_from(["star.lsd", "star.lsd", ".hidden.lsd", "HD_1_.txt", "a.b", "no extension"])})


@facet("command", commands, quick=25, thorough=600, nontrivial=lambda c: c["params"] is None or len(c["params"]) > 1,
       labels=lambda c: ["params=%s" % (c["params"] and c["params"][:2]), "skip=%s" % c["skip"], str(c["output"])],
       examples=[{"data": [[0.0, 1, .1, 2, .2, 3, .3], [1.0, 4, .4, 5, .5, 6, .6]], "params": "N", "skip": None, "output": "out.png", "flag": True, "name": ".hidden"}])
def command(c):
    from starwinds_magnetogram.bin import plot_lsd as cmd
    data = np.array(c["data"])
    with tempfile.TemporaryDirectory() as root, figs.session() as seen:
        name = c.get("name", "star.lsd")
        path = os.path.join(root, name)
        skip = 2 if c["skip"] is None else c["skip"]
        text = "".join("9.0 9.0 9.0 9.0 9.0 9.0 9.0\n" if i else "*** header line\n" for i in range(skip))
        text += "".join(" ".join("%.6f" % v for v in row) + "\n" for row in c["data"])
        with open(path, "w") as f:
            f.write(text)
        argv = ["sw-plot-lsd", path]
        if c["output"]:
            argv.append(os.path.join(root, c["output"]))
        if c["params"]:
            argv += ["-p" if c["flag"] else "--params", c["params"]]
        if c["skip"] is not None:
            argv += ["-s" if c["flag"] else "--skip-rows", str(c["skip"])]
        sys.argv = argv
        cmd.main()
        with open(path) as f:
            require(f.read() == text, "the input file changed")
        require(len(seen) == 1, "%d figures were saved or shown", len(seen))
        if c["output"]:
            require(figs.is_image(os.path.join(root, c["output"])), "the output file is missing or not an image")
        require(sorted(os.listdir(root)) == sorted([name] + ([c["output"]] if c["output"] else [])), "files: %s", os.listdir(root))
        params = c["params"] or "VI"
        axes = seen[0].axes
        require(len(axes) == len(params), "%d panels for %s", len(axes), params)
        require(name in axes[0].get_title(), "the data in %s have the title %s", name, axes[0].get_title())
        for ax, parameter in zip(axes, params):
            check_panel(ax, data, parameter)


@st.composite
def stacks(draw):
    k = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 14)))
    short = st.integers(2, 7).flatmap(lambda n: tables(n))
    return {"stack": [draw(tables() if k < 6 else short) for _ in range(k)], "names": draw(st.booleans()), "lim": draw(st.sampled_from([None, None, "same", [-1.0, 2.5]])),
            "reuse": draw(st.sampled_from([False, False, True])), "tuple": draw(st.booleans())}


NAMES = ["star %d", "HD_%d_", "%d", "a_b.%d.lsd", "eps Eri (%d)", "epsilon-%d "]


@facet("stack", stacks, quick=50, thorough=2500, nontrivial=lambda c: len(c["stack"]) > 1, labels=lambda c: ["%d" % len(c["stack"]), str(c["lim"]), "reuse" if c["reuse"] else "new"],
       examples=[{"stack": [[[0.0, 1, .1, 2, .2, 3, .3], [1.0, 4, .4, 5, .5, 6, .6]]], "names": True, "lim": None, "reuse": False, "tuple": False}] +
       [{"stack": [[[0.1 * i, 1, .1, v, .2, 3, .3], [1.0 + i, 4, .4, (8.0 if i == extreme else 0.0) * v, .5, 6, .6]] for i in range(k)], "names": True, "lim": "same", "reuse": False, "tuple": False}
        for k in (2, 4, 9, 12) for extreme in (0, k // 2, k - 1) for v in (-1.0, 1.0)])
def stack(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_lsd
    data = [np.array(t) for t in c["stack"]]
    names = [NAMES[i % len(NAMES)] % i for i in range(len(data))] if c["names"] else None
    with figs.session():
        if c["reuse"]:
            plt.subplots(len(data), squeeze=False)
        args = (tuple(data) if c["tuple"] else list(data), names)
        if c["lim"] is None:
            plot_lsd.plot_lsd_stack(*args)
        else:
            plot_lsd.plot_lsd_stack(*args, y_lim=c["lim"])
        require(all(np.array_equal(d, np.array(t)) for d, t in zip(data, c["stack"])), "a table was modified")
        axes = plt.gcf().axes
        require(len(axes) == len(data), "%d panels for %d profiles", len(axes), len(data))
        limits = []
        for i, (ax, d) in enumerate(zip(axes, data)):
            bars = figs.errorbars(ax)
            require(len(bars) == 1, "%d profiles in panel %d", len(bars), i)
            x, y, low, high = bars[0]
            require(near(x, d[:, 0]) and near(y, d[:, 3]), "panel %d shows other values", i)
            require(near(low, d[:, 3] - d[:, 4]) and near(high, d[:, 3] + d[:, 4]), "panel %d shows other uncertainties", i)
            if names:
                legend = ax.get_legend()
                require(legend is not None and [t.get_text() for t in legend.get_texts()] == [names[i]], "panel %d is not named %s", i, names[i])
            limits.append(tuple(ax.get_ylim()))
            x0, x1 = sorted(ax.get_xlim())
            require(x0 <= np.min(d[:, 0]) + 1e-9 and np.max(d[:, 0]) <= x1 + 1e-9, "the velocities of panel %d go from %s to %s", i, x0, x1)
            if c["lim"] is None or c["lim"] == "same":
                lo, hi = limits[-1]
                require(lo <= np.min(low) + 1e-9 and np.max(high) <= hi + 1e-9, "the limits of panel %d leave out part of the profile", i)
        if c["lim"] == "same":
            require(len({(round(a, 9), round(b, 9)) for a, b in limits}) == 1, "limits differ: %s", limits)
        elif c["lim"]:
            require(all(near(l, c["lim"]) for l in limits), "limits %s were not used", c["lim"])


@st.composite
def spectra(draw):
    threshold = draw(st.sampled_from([None, 0.2, 0.05, 1.0]))
    t = threshold or 0.2
    step = st.one_of(st.floats(0.001, 0.9), st.floats(0.001, 0.9), st.floats(-0.9, -0.01), st.floats(1.1, 5), st.floats(-5, -1.1), st.just(0.0))
    steps = draw(st.lists(step, min_size=0, max_size=14))
    return {"start": draw(st.floats(300, 900)), "steps": [s * t for s in steps], "threshold": threshold, "list": draw(st.booleans())}


def wavelengths(c):
    return np.concatenate(([c["start"]], c["start"] + np.cumsum(c["steps"]))) if c["steps"] else np.array([c["start"]])


def breaks(w, t):
    return [i + 1 for i in range(len(w) - 1) if abs(w[i + 1] - w[i]) > t]


@facet("intervals", spectra, quick=400, thorough=40000, nontrivial=lambda c: any(abs(s) > (c["threshold"] or 0.2) for s in c["steps"]),
       labels=lambda c: ["intervals=%d" % min(4, 1 + len(breaks(wavelengths(c), c["threshold"] or 0.2)))])
def intervals(c):
    from starwinds_magnetogram import plot_lsd
    w = wavelengths(c)
    t = c["threshold"] or 0.2
    given = list(w) if c["list"] else w.copy()
    got = [(int(a), int(b)) for a, b in (plot_lsd.wl_intervals(given) if c["threshold"] is None else plot_lsd.wl_intervals(given, c["threshold"]))]
    edges = [0] + breaks(w, t) + [len(w)]
    require(got == list(zip(edges[:-1], edges[1:])), "intervals %s, expected %s", got, list(zip(edges[:-1], edges[1:])))


@facet("long_spectra", lambda: st.fixed_dictionaries({"n": st.integers(100, 40000), "breaks": st.integers(0, 300), "seed": st.integers(0, 10 ** 6), "threshold": st.sampled_from([None, 0.2, 1.0])}),
       quick=20, thorough=1500, nontrivial=lambda c: c["breaks"] > 0, labels=lambda c: ["samples>=%d" % (c["n"] // 10000 * 10000)],
       examples=[{"n": 60000, "breaks": 500, "seed": 2, "threshold": None}, {"n": 9, "breaks": 8, "seed": 3, "threshold": 0.5}])
def long_spectra(c):
    """Tens of thousands of samples with hundreds of breaks, some next to each other, forward and back."""
    from starwinds_magnetogram import plot_lsd
    rng = np.random.default_rng(c["seed"])
    t = c["threshold"] or 0.2
    steps = rng.uniform(0.001, 0.5, c["n"] - 1) * t
    where = rng.integers(0, len(steps), c["breaks"])
    steps[where] = rng.uniform(1.1, 5, c["breaks"]) * t * rng.choice([1, -1], c["breaks"])
    w = 400 + np.concatenate(([0.0], np.cumsum(steps)))
    kept = w.copy()
    got = [(int(a), int(b)) for a, b in (plot_lsd.wl_intervals(w) if c["threshold"] is None else plot_lsd.wl_intervals(w, t))]
    edges = [0] + breaks(w, t) + [len(w)]
    require(np.array_equal(w, kept), "the wavelengths were modified")
    require(got == list(zip(edges[:-1], edges[1:])), "%d intervals, expected %d; the first that differs: %s", len(got), len(edges) - 1,
            next(((a, b) for a, b in zip(got, zip(edges[:-1], edges[1:])) if a != b), None))


@st.composite
def exact_spectra(draw):
    """Wavelengths in whole multiples of a power of two, so that differences are exact."""
    unit = draw(st.sampled_from([0.25, 0.125, 1.0, 2.0 ** -6, 2.0 ** -20, 1024.0]))
    return {"start": draw(st.integers(100, 9000)), "steps": draw(st.lists(st.integers(-4, 4), max_size=10)), "threshold": draw(st.sampled_from([1, 2, 3, 1, 2, 3, 0])), "unit": unit, "kind": draw(st.sampled_from(["float", "list", "int"]))}


@facet("exact_intervals", exact_spectra, quick=200, thorough=10000, nontrivial=lambda c: c["threshold"] in map(abs, c["steps"]))
def exact_intervals(c):
    """A difference of exactly the threshold does not break."""
    from starwinds_magnetogram import plot_lsd
    unit = 1 if c["kind"] == "int" else c["unit"]
    w = np.array([c["start"] + sum(c["steps"][:i]) for i in range(len(c["steps"]) + 1)]) * unit
    t = c["threshold"] * unit
    got = [(int(a), int(b)) for a, b in plot_lsd.wl_intervals(list(w) if c["kind"] == "list" else w, t)]
    edges = [0] + breaks(w, t) + [len(w)]
    require(got == list(zip(edges[:-1], edges[1:])), "intervals %s, expected %s", got, list(zip(edges[:-1], edges[1:])))


@facet("spectrum", lambda: st.fixed_dictionaries({"c": spectra(), "seed": st.integers(0, 10 ** 6)}), quick=12, thorough=400, nontrivial=lambda c: any(abs(s) > 0.2 for s in c["c"]["steps"]))
def spectrum(c):
    from starwinds_magnetogram import plot_lsd
    w = wavelengths(c["c"])
    rng = np.random.RandomState(c["seed"])
    data = np.column_stack([w] + [rng.uniform(0.5, 1.5, len(w)) for _ in range(5)])
    with figs.session():
        kept = data.copy()
        fig = plot_lsd.plot_spectrum(data)
        require(np.array_equal(kept, data), "the spectrum was modified")
        require(len(fig.axes) == 5, "%d panels", len(fig.axes))
        for k, ax in enumerate(fig.axes):
            points = np.concatenate([np.asarray(s.get_offsets(), dtype=float) for s in ax.collections])
            want = data[:, [0, k + 1]]
            require(near(points, want), "panel %d does not show every sample once, in order", k)
