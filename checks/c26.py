"""C26: magnetogram plots and the plot command show the actual field and energies."""
import os
import re
import sys
import tempfile

import hypothesis.strategies as st
import numpy as np

from vlib import figs, gen, ref
from vlib.harness import facet, require

ORACLE = "artists of the drawn figures (meshes, color limits, markers, legends, lines, images, wedges) against reference fields and closed-form energies"
RULE = ("A case is a ZDI or PFSS magnetogram with a grid and one plot (component, term, options), an energy plot, a slice of the extrapolated field, or a run of the plot command on a generated "
        "file; the drawn figure is inspected. Non-trivial: a field that takes both signs or at least two non-zero coefficient rows.")
ASSUMPTIONS = ["stream lines have a mean cosine above 0.8 with the field between grid points", "grids with at least 3 by 3 facets", "the magnetogram is not identically zero where energies are plotted", "field strengths between 1e-12 and 1e12"]

NAMES = ("radial", "polar", "azimuthal")
LATEX = {"radial": "B_r", "polar": r"B_\theta", "azimuthal": r"B_\phi"}
SUFFIX = {("radial", "poloidal"): "", ("radial", "toroidal"): "", ("polar", "poloidal"): "_new", ("polar", "toroidal"): "", ("azimuthal", "poloidal"): "", ("azimuthal", "toroidal"): "_new"}


# -- what the artists show ----------------------------------------------------------------------------------------------------------------

def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def check_mesh(ax, grid, values, scale, what):
    """The mesh shows the value of every facet at the facet."""
    import matplotlib.colors
    P, A = grid.corners()
    x, y, shown, artist = figs.mesh(ax)
    if not close(x, np.rad2deg(A), 1e-8):
        x, y, shown = x.T, y.T, shown.T
    require(close(x, np.rad2deg(A), 1e-8) and close(y, np.rad2deg(P), 1e-8), "%s: the facets are drawn elsewhere", what)
    require(close(shown, values, 1e-9 * scale), "%s: shown %s, expected %s", what, shown, values)
    lo, hi = artist.get_clim()
    require(lo <= np.min(values) + 1e-9 * scale and np.max(values) <= hi + 1e-9 * scale, "%s: limits %s to %s for data from %s to %s", what, lo, hi, np.min(values), np.max(values))
    return artist, lo, hi


def check_symmetric(values, lo, hi, scale, what):
    if np.min(values) < -1e-9 * scale and np.max(values) > 1e-9 * scale:
        require(abs(lo + hi) <= 1e-9 * scale, "%s: limits %s to %s are not symmetric", what, lo, hi)


LEGEND = re.compile(r"^(Max|Min) \$(.*)=([+-][^$]*)\$ G$")


def number(text):
    m = re.match(r"^([+-][0-9.]+)(?: \\times 10\^\{(-?\d+)\})?$", text)
    require(m is not None, "legend value %r", text)
    return float(m.group(1)) * 10.0 ** int(m.group(2) or 0)


def check_extrema(ax, grid, values, latex, scale, what):
    P, A = grid.corners()
    t, p = (P[:-1, :-1] + P[:-1, 1:]) / 2, (A[:-1, :-1] + A[1:, :-1]) / 2
    markers = {}
    for line in ax.get_lines():
        m = LEGEND.match(str(line.get_label()))
        if m:
            require(m.group(1) not in markers, "%s: two marks for %s", what, m.group(1))
            markers[m.group(1)] = (line, m)
    require(set(markers) == {"Max", "Min"}, "%s: marks %s", what, sorted(markers))
    for name, value in (("Max", np.max(values)), ("Min", np.min(values))):
        line, m = markers[name]
        require(m.group(2) == latex, "%s: labelled %s, expected %s", what, m.group(2), latex)
        shown = number(m.group(3))
        require(abs(shown - value) <= 0.006 * abs(value) + 1e-9 * scale, "%s: %s is stated as %s, the data has %s", what, name, m.group(3), value)
        x, y = (np.asarray(v, dtype=float).ravel() for v in line.get_data())
        require(x.size == 1, "%s: several marks", what)
        distance = np.hypot(np.rad2deg(p) - x[0], np.rad2deg(t) - y[0])
        i = np.unravel_index(np.argmin(distance), distance.shape)
        require(distance[i] < 1e-6 and abs(values[i] - value) <= 1e-9 * scale, "%s: %s is marked at %s, %s where the field is %s, not %s", what, name, x[0], y[0], values[i], value)
    texts = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    require({markers[k][0].get_label() for k in markers} <= set(texts), "%s: legend %s", what, texts)


def single_marks(axes):
    return sorted(float(np.asarray(line.get_ydata()).ravel()[0]) for ax in axes for line in ax.get_lines() if len(np.atleast_1d(line.get_ydata())) == 1)


def check_colorbar_marks(axes, fields, scale, what):
    want = sorted([v for f in fields for v in (np.max(f), np.min(f))])
    require(close(single_marks(axes), want, 1e-9 * scale), "%s: marks on the color bar at %s, extrema are %s", what, single_marks(axes), want)


# -- generated magnetograms ---------------------------------------------------------------------------------------------------------------

AMPLITUDES = [1, 1, 1, 1e-6, 0.01, 1e5, 1e9]


def times(rows_, k):
    return [[l, m, [k * x for x in v]] for l, m, v in rows_]


def rows(lmax=5, size=8):
    return st.builds(times, gen.coeffs(3, 0, lmax, False, 1, size), st.sampled_from(AMPLITUDES))


def even_grids():
    return st.one_of(st.tuples(st.integers(4, 10), st.integers(4, 14)), st.tuples(st.integers(4, 9), st.none()), st.integers(4, 10).map(lambda n: (n, n))).map(list)


@st.composite
def corner_grids(draw):
    """Uneven facets (over the whole sphere) with azimuths from any start: corners in degrees."""
    def corners(total, n):
        steps = draw(st.lists(st.integers(2, 9), min_size=n, max_size=n))
        return [float(x) for x in np.concatenate([[0], np.cumsum(steps) * total / sum(steps)])]
    start = draw(st.sampled_from([0.0, -180.0, 30.0, 200.0]))
    return [corners(180.0, draw(st.integers(3, 7))), [start + a for a in corners(360.0, draw(st.integers(3, 9)))]]


UNEVEN = [[0.0, 20.0, 70.0, 110.0, 180.0], [30.0, 70.0, 160.0, 210.0, 300.0, 390.0]]


def grids():
    return st.one_of(even_grids(), even_grids(), corner_grids())


def make_grid(g):
    from starwinds_magnetogram.geometry import ZdiGeometry
    if isinstance(g[0], list):
        # Going around once, as rounded, is not more than a full circle.
        azimuth = np.deg2rad(g[1])
        azimuth[-1] = min(azimuth[-1], azimuth[0] + 2 * np.pi)
        while azimuth[-1] - azimuth[0] > 2 * np.pi:
            azimuth[-1] = np.nextafter(azimuth[-1], -np.inf)
        return ZdiGeometry(np.minimum(np.deg2rad(g[0]), np.pi), azimuth)
    return ZdiGeometry(g[0]) if g[1] is None else ZdiGeometry(g[0], g[1])


def size_of(c):
    return sum(np.sum(np.abs(gen.complex_values(v))) * (2 * l + 1) for l, m, v in c) + 1e-300


def magnetogram(c):
    from starwinds_magnetogram import zdi_magnetogram
    return zdi_magnetogram.from_coefficients(gen.build(c, 3))


def centers(grid):
    P, A = grid.corners()
    return (P[:-1, :-1] + P[:-1, 1:]) / 2, (A[:-1, :-1] + A[1:, :-1]) / 2


def reference(c, grid, which, term=None):
    t, p = centers(grid)
    parts, _ = ref.zdi_components(gen.terms3(c), t, p)
    full = {d: parts[(d, "poloidal")] + parts[(d, "toroidal")] for d in NAMES}
    if which == "strength":
        return np.sqrt(sum(full[d] ** 2 for d in NAMES))
    return full[which] if term is None else parts[(which, term)]


RICH = [[1, 0, [3.0, 0.0, 2.0, 0.0, -4.0, 0.0]], [1, 1, [1.0, -2.0, 3.0, 1.0, 2.0, -1.5]], [2, 1, [-1.0, 0.5, 1.0, 2.0, 0.7, 1.0]]]


def varied(c):
    return gen.nonzero_count(c["c"]) > 1


def check_contours(ax, grid, values, scale, what, neutral=True, color=None):
    """Contour lines run where the value between the facet centers is that of their level, and the neutral line is among them."""
    from scipy.interpolate import RegularGridInterpolator
    t, p = centers(grid)
    x, y = np.rad2deg(p[:, 0]), np.rad2deg(t[0])
    i, j = np.argsort(x), np.argsort(y)
    between = RegularGridInterpolator((x[i], y[j]), np.asarray(values)[i][:, j])
    lines = [(level, v) for shade, level, v in figs.contours(ax) if len(v) and color in (None, shade)]
    for level, v in lines:
        inside = np.column_stack((np.clip(v[:, 0], x.min(), x.max()), np.clip(v[:, 1], y.min(), y.max())))
        require(close(inside, v, 1e-6), "%s: the contour of %s leaves the facet centers", what, level)
        require(close(between(inside), np.full(len(v), level), 1e-6 * scale), "%s: the contour of %s runs where the value is %s", what, level, between(inside))
    sign = np.where(np.abs(values) > 1e-6 * scale, np.sign(values), 0)
    changes = np.sum(sign[1:] * sign[:-1] < 0) + np.sum(sign[:, 1:] * sign[:, :-1] < 0)
    if neutral and changes:
        drawn = sum(len(v) for level, v in lines if abs(level) <= 1e-9 * scale)
        require(drawn >= changes / 2, "%s: %d points of neutral line for %d changes of sign", what, drawn, changes)


# -- one component ------------------------------------------------------------------------------------------------------------------------

def fields():
    return st.fixed_dictionaries({"c": rows(), "grid": grids(), "which": st.sampled_from(NAMES + ("strength",)), "term": st.sampled_from([None, None, "poloidal", "toroidal"]),
                                  "own_axes": st.booleans(), "symmetric": st.sampled_from([None, None, None, True, False]), "cmap": st.sampled_from([None, None, "viridis"]), "legend": st.sampled_from([None, "B_r", "|B|", "x"])})


@facet("zdi_field", fields, quick=24, thorough=2500, nontrivial=varied, labels=lambda c: [c["which"], str(c["term"]), "symmetric=%s" % c["symmetric"]],
       examples=[{"c": RICH, "grid": [6, 9], "which": w, "term": t, "own_axes": True, "symmetric": None, "cmap": None, "legend": None} for w in NAMES for t in ("poloidal", "toroidal")] +
       [{"c": times(RICH, k), "grid": [6, 9], "which": w, "term": None, "own_axes": True, "symmetric": None, "cmap": None, "legend": None} for k in (1e-6, 1e5) for w in ("polar", "strength")] +
       [{"c": RICH, "grid": UNEVEN, "which": w, "term": None, "own_axes": True, "symmetric": None, "cmap": c, "legend": None} for w, c in (("radial", None), ("strength", "viridis"))])
def zdi_field(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_zdi
    grid, m = make_grid(c["grid"]), magnetogram(c["c"])
    term = None if c["which"] == "strength" else c["term"]
    name = "get_field_strength" if c["which"] == "strength" else "get_%s_field" % c["which"] if term is None else "get_%s_%s_field%s" % (c["which"], term, SUFFIX[(c["which"], term)])
    values, scale = reference(c["c"], grid, c["which"], term), size_of(c["c"])
    with figs.session():
        own = plt.subplots()[1] if c["own_axes"] else None
        kwargs = {k: c[k] for k in ("symmetric", "cmap") if c[k] is not None}
        if c["legend"]:
            kwargs["legend_str"] = c["legend"]
        fig, ax = plot_zdi.plot_zdi_field(getattr(m, name), ax=own, zg=grid, **kwargs)
        require(own is None or ax is own, "drawn on other axes")
        artist, lo, hi = check_mesh(ax, grid, values, scale, name)
        require(c["cmap"] in (None, artist.get_cmap().name), "the color map is %s", artist.get_cmap().name)
        if c["symmetric"] is None:
            check_symmetric(values, lo, hi, scale, name)
        elif c["symmetric"]:
            require(abs(lo + hi) <= 1e-9 * scale, "limits %s to %s are not symmetric", lo, hi)
        check_extrema(ax, grid, values, c["legend"] or "X", scale, name)
        check_colorbar_marks([a for a in fig.axes if a is not ax], [values], scale, name)
        P, A = grid.corners()
        area = (np.cos(P[:-1, :-1]) - np.cos(P[:-1, 1:])) * (A[1:, :-1] - A[:-1, :-1])
        mean = np.sum(np.abs(values) * area) / (4 * np.pi)
        stated = [re.match(r"^abs mean: (\S+) G", t.get_text()) for t in ax.texts]
        stated = [float(s.group(1)) for s in stated if s]
        check_contours(ax, grid, values, scale, name, c["symmetric"] is not False)
        require(len(stated) == 1 and abs(stated[0] - mean) <= 0.006 * mean + 1e-9 * scale, "mean absolute value is stated as %s, expected %s", stated, mean)


# -- three components ---------------------------------------------------------------------------------------------------------------------

def check_titles(axs, radius):
    for ax in axs:
        stated = re.search(r"r = ([0-9.]+)", ax.get_title())
        require(stated and abs(float(stated.group(1)) - radius) < 0.051, "the field at radius %s has the title %s", radius, ax.get_title())


def check_shared(limits, values, scale):
    """The panels that take both signs share one color bar: the same colors are the same values."""
    both = [x for x, v in zip(limits, values) if np.min(v) < -1e-9 * scale and np.max(v) > 1e-9 * scale]
    require(all(close(x, both[0], 1e-9 * scale) for x in both), "the panels have the color limits %s and one color bar", limits)


def check_three(axs, grid, values, scale, what, symmetric=None, cmap=None):
    bars = [a for a in axs[0].figure.axes if all(a is not x for x in axs)]
    check_titles(axs, 1.0)
    limits = []
    for ax, name, v in zip(axs, NAMES, values):
        artist, lo, hi = check_mesh(ax, grid, v, scale, what + " " + name)
        limits.append((lo, hi))
        require(cmap in (None, artist.get_cmap().name), "the color map is %s", artist.get_cmap().name)
        if symmetric:
            require(abs(lo + hi) <= 1e-9 * scale, "limits %s to %s are not symmetric", lo, hi)
        elif symmetric is None:
            check_symmetric(v, lo, hi, scale, what + " " + name)
        check_extrema(ax, grid, v, LATEX[name], scale, what + " " + name)
        check_contours(ax, grid, v, scale, what + " " + name, symmetric is not False)
        title = ax.get_title()
        require(title.lower().startswith(name) and "$%s$" % LATEX[name] in title, "%s: the %s component has the title %s", what, name, title)
    check_colorbar_marks(bars, values, scale, what)
    if symmetric is None:
        check_shared(limits, values, scale)


def triples():
    return st.fixed_dictionaries({"c": rows(), "grid": grids(), "term": st.sampled_from([None, None, "poloidal", "toroidal"]), "own_axes": st.booleans(),
                                  "symmetric": st.sampled_from([None, None, None, True, False]), "cmap": st.sampled_from([None, None, "plasma"])})


@facet("zdi_components", triples, quick=8, thorough=1000, nontrivial=varied, labels=lambda c: [str(c["term"])],
       examples=[{"c": RICH, "grid": [6, 9], "term": t, "own_axes": False, "symmetric": None, "cmap": None} for t in (None, "poloidal", "toroidal")] +
       [{"c": RICH, "grid": UNEVEN, "term": None, "own_axes": False, "symmetric": None, "cmap": None}, {"c": [[0, 0, [3.0, 0.0, 0.0, 0.0, 0.0, 0.0]], [1, 1, [0.1, 0.0, 0.2, 0.1, 0.0, 0.3]]], "grid": [6, 9],
        "term": None, "own_axes": False, "symmetric": True, "cmap": "plasma"}])
def zdi_components(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_zdi
    grid, m = make_grid(c["grid"]), magnetogram(c["c"])
    with figs.session():
        own = plt.subplots(1, 3)[1] if c["own_axes"] else None
        kwargs = {k: c[k] for k in ("term", "symmetric", "cmap") if c.get(k) is not None}
        axs = plot_zdi.plot_zdi_components(m, axs=own, zg=grid, **kwargs)
        check_three(list(axs), grid, [reference(c["c"], grid, n, c["term"]) for n in NAMES], size_of(c["c"]), "components", c.get("symmetric"), c.get("cmap"))


@st.composite
def pfss_rows(draw, size=6):
    return times(draw(gen.coeffs(1, 0, 4, False, 1, size)), draw(st.sampled_from(AMPLITUDES)))


def pfss_cases():
    return st.fixed_dictionaries({"c": pfss_rows(), "grid": even_grids(), "radius": st.one_of(st.none(), st.floats(1.0, 4.0)), "rss": st.sampled_from([None, None, 1.5, 3.0]), "own_axes": st.booleans()})


def pfss_reference(c, grid, radius, rss):
    t, p = centers(grid)
    return ref.pfss_field(gen.terms_pfss(c), np.full(t.shape, radius), t, p, 1.0, rss)


@facet("pfss_components", pfss_cases, quick=6, thorough=800, nontrivial=varied, labels=lambda c: ["rss=%s" % c["rss"]])
def pfss_components(c):
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_pfss
    grid = make_grid(c["grid"])
    kwargs = {k: v for k, v in (("radius", c["radius"]), ("radius_source_surface", c["rss"])) if v is not None}
    with figs.session():
        if c["own_axes"]:
            kwargs["axs"] = plt.subplots(1, 3)[1]
        _, axs = plot_pfss.plot_components(gen.build(c["c"], 1), geometry=grid, **kwargs)
        want = pfss_reference(c["c"], grid, c["radius"] or 1.0, c["rss"] or 2.5)
        scale = size_of(c["c"])
        # These plots are drawn from the facet centers; the mesh edges are half way between them.
        t, p = centers(grid)
        check_titles(axs, c["radius"] or 1.0)
        check_shared([ax.collections[0].get_clim() for ax in axs], want, scale)
        for ax, name, v in zip(axs, NAMES, want):
            x, y, shown, artist = figs.mesh(ax)
            mx, my = (x[:-1, :-1] + x[1:, 1:]) / 2, (y[:-1, :-1] + y[1:, 1:]) / 2
            if not close(mx, np.rad2deg(p), 1e-6):
                mx, my, shown = mx.T, my.T, shown.T
            require(close(mx, np.rad2deg(p), 1e-6) and close(my, np.rad2deg(t), 1e-6), "the facets are drawn elsewhere")
            require(close(shown, v, 1e-9 * scale), "%s: shown %s, expected %s", name, shown, v)
            lo, hi = artist.get_clim()
            require(lo <= np.min(v) + 1e-9 * scale and np.max(v) <= hi + 1e-9 * scale, "%s: limits %s to %s", name, lo, hi)
            check_symmetric(v, lo, hi, scale, name)
            check_extrema(ax, grid, v, LATEX[name], scale, name)
            require(ax.get_title().lower().startswith(name), "the %s component has the title %s", name, ax.get_title())


def check_streams(ax, x, y, u, v, least):
    cosines, lengths = figs.stream_alignment(ax, x, y, u, v, least)
    if cosines.size == 0:
        return
    mean = np.sum(cosines * lengths) / np.sum(lengths)
    require(mean > 0.8, "stream lines do not follow the field: the mean cosine is %s", mean)


PERP = re.compile(r"^\$B_\\perp= *(-?[0-9.]+)\$$")


def check_widths(ax, x, y, strength, least):
    """The lines are wide in proportion to the tangential field, as stated by the legend."""
    widths, sizes = figs.stream_widths(ax, x, y, strength)
    keep = sizes > max(least, 0.2 * np.max(strength))
    if np.sum(keep) < 20:
        return
    ratio = widths[keep] / sizes[keep]
    middle = np.median(ratio)
    require(middle > 0 and np.mean(np.abs(ratio / middle - 1) < 0.15) > 0.8, "the line widths per tangential field range from %s to %s", np.min(ratio), np.max(ratio))
    legend = ax.get_legend()
    for text, handle in zip(legend.get_texts(), legend.legend_handles):
        m = PERP.match(text.get_text())
        if m:
            stated, drawn = float(m.group(1)), handle.get_linewidth() / middle
            require(abs(stated - drawn) <= 0.051 + 0.15 * abs(stated), "the legend states %s for a line of the width of %s", stated, drawn)


def streams():
    return st.fixed_dictionaries({"c": rows(3, 4), "p": pfss_rows(4), "grid": st.one_of(st.tuples(st.integers(6, 9), st.integers(8, 12)), st.integers(6, 9).map(lambda n: (n, n))).map(list), "pfss": st.booleans()}).filter(
        lambda c: any(any(v[2:]) and l > 0 for l, m, v in c["c"]) and any(v[0] and l > 0 for l, m, v in c["p"]))


@facet("streamtraces", streams, quick=3, thorough=200, nontrivial=lambda c: True, labels=lambda c: ["pfss" if c["pfss"] else "zdi"],
       examples=[{"c": times(RICH, 7), "p": [[l, m, [7 * x for x in v[:2]]] for l, m, v in RICH], "grid": [n, 9], "pfss": k} for n in (7, 9) for k in (False, True)])
def streamtraces(c):
    from starwinds_magnetogram import plot_pfss, plot_zdi
    grid = make_grid(c["grid"])
    with figs.session():
        if c["pfss"]:
            _, ax = plot_pfss.plot_streamtraces(gen.build(c["p"], 1), grid)
            values, scale = pfss_reference(c["p"], grid, 1.0, 2.5)[0], size_of(c["p"])
        else:
            ax = plot_zdi.plot_streamtraces(magnetogram(c["c"]), grid)
            values, scale = reference(c["c"], grid, "strength"), size_of(c["c"])
        _, lo, hi = check_mesh(ax, grid, values, scale, "streamtraces")
        check_symmetric(values, lo, hi, scale, "streamtraces")
        # The lines run along the tangential field between the facet centers.
        t, p = centers(grid)
        if c["pfss"]:
            tangential = pfss_reference(c["p"], grid, 1.0, 2.5)[1:]
        else:
            tangential = [reference(c["c"], grid, n) for n in ("polar", "azimuthal")]
        if c["pfss"]:
            for color, v, what in [("#000000", values, "radial"), ("#0000ff", values, "radial"), ("#008000", tangential[0], "polar"), ("#ff0000", tangential[1], "azimuthal")]:
                check_contours(ax, grid, v, scale, what + " component", color=color)
        check_streams(ax, np.rad2deg(p[:, 0]), np.rad2deg(t[0]), tangential[1].T, tangential[0].T, 1e-7 * scale)
        check_widths(ax, np.rad2deg(p[:, 0]), np.rad2deg(t[0]), np.hypot(*tangential).T, 1e-7 * scale)


# -- energies -----------------------------------------------------------------------------------------------------------------------------

def energy_tables(c):
    """Radial, poloidal and toroidal energy by degree and (non-negative) order."""
    top = max(l for l, _, _ in c)
    er, ep, et = np.zeros((3, top + 1, top + 1))
    for l, m, v in c:
        a, b, g = (x.real ** 2 if m == 0 else abs(x) ** 2 / 2 for x in gen.complex_values(v))
        er[l, m] = a
        ep[l, m] = a + b * l / (l + 1.0)
        et[l, m] = g * l / (l + 1.0)
    return er, ep, et


def squares_of(coeffs):
    """The squares that the energies are made of: the phase that no real field has takes part in the rounding."""
    return sum(v * v for _, _, flat in coeffs for v in flat)


def with_energy(c):
    er, ep, et = energy_tables(c["c"])
    return np.sum(ep) + np.sum(et) > 1e-18


def energetic():
    return st.fixed_dictionaries({"c": rows(8, 14), "scaled": st.sampled_from([None, True, False]), "types": st.sampled_from([None, "total", "radial", "poloidal", "toroidal", ["radial", "toroidal"],
                                  ["total", "radial", "poloidal", "toroidal"], ["poloidal", "total"]]), "negative": st.sampled_from([None, False, True])}).filter(with_energy)


@facet("energy_by_degree", energetic, quick=15, thorough=1500, nontrivial=varied, labels=lambda c: ["scaled=%s" % c["scaled"]])
def energy_by_degree(c):
    from starwinds_magnetogram import plot_zdi
    er, ep, et = energy_tables(c["c"])
    total = np.sum(ep) + np.sum(et)
    size = squares_of(c["c"])
    with figs.session():
        _, ax = plot_zdi.plot_energy_by_degree(magnetogram(c["c"]), **({} if c["scaled"] is None else {"scaled": c["scaled"]}))
        factor = 1.0 if c["scaled"] is False else 1 / total
        lines = list(ax.get_lines())
        degrees = np.arange(1, ep.shape[0])
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        require(sorted(texts) == ["Poloidal", "Toroidal", "Total"], "legend %s", texts)
        for name, table in (("Total", ep + et), ("Poloidal", ep), ("Toroidal", et)):
            per = np.sum(table, axis=1) * factor
            line = [x for x in lines if x.get_label() == name]
            require(len(line) == 1, "%d lines for %s", len(line), name)
            require(close(line[0].get_xdata(), degrees, 1e-9) and close(line[0].get_ydata(), per[1:], 1e-9 * size * factor), "%s is %s, expected %s", name, line[0].get_ydata(), per[1:])
            cumulative = [x for x in lines if x is not line[0] and x.get_color() == line[0].get_color()]
            require(len(cumulative) == 1 and close(cumulative[0].get_xdata(), degrees, 1e-9) and close(cumulative[0].get_ydata(), np.cumsum(per)[1:], 1e-9 * size * factor),
                    "cumulative %s energy differs", name)


@facet("energy_matrix", energetic, quick=15, thorough=1500, nontrivial=varied, labels=lambda c: [str(c["types"]), "negative=%s" % c["negative"]],
       examples=[{"c": [[4, 0, [1.0] * 6], [4, 4, [2.0] * 6]], "scaled": None, "types": None, "negative": True}])
def energy_matrix(c):
    from starwinds_magnetogram import plot_zdi
    er, ep, et = energy_tables(c["c"])
    tables = {"total": ep + et, "radial": er, "poloidal": ep, "toroidal": et}
    scale = squares_of(c["c"])
    top = ep.shape[0] - 1
    kwargs = {}
    if c["types"] is not None:
        kwargs["types"] = c["types"] if isinstance(c["types"], str) else tuple(c["types"])
    if c["negative"] is not None:
        kwargs["negative_orders"] = c["negative"]
    names = ["total"] if c["types"] is None else [c["types"]] if isinstance(c["types"], str) else c["types"]
    with figs.session():
        fig, axs = plot_zdi.plot_energy_matrix(magnetogram(c["c"]), **kwargs)
        require(len(axs) == len(names), "%d panels for %s", len(axs), names)
        fig.canvas.draw()
        for ax, name in zip(axs, names):
            want = tables[name]
            if c["negative"]:
                want = np.concatenate((np.zeros((top + 1, top)), want), axis=1)
            require(len(ax.images) == 1, "%d images", len(ax.images))
            shown = np.ma.getdata(ax.images[0].get_array())
            require(close(shown, want, 1e-9 * scale), "%s energy shown as %s, expected %s", name, shown, want)
            require(name in ax.get_title(), "%s energy has the title %s", name, ax.get_title())
            # The labels name the order of the column and the degree of the row.
            x0, x1, y0, y1 = ax.images[0].get_extent()
            lo, hi = sorted(ax.get_xlim())
            for tick, label in zip(ax.get_xticks(), ax.get_xticklabels()):
                text = label.get_text().replace("\u2212", "-")
                if lo <= tick <= hi and text and float(tick).is_integer():
                    column = (tick - x0) / (x1 - x0) * shown.shape[1] - 0.5
                    require(abs(float(text) - (column - (top if c["negative"] else 0))) < 1e-6, "column %s is labelled as order %s", column, text)
            lo, hi = sorted(ax.get_ylim())
            for tick, label in zip(ax.get_yticks(), ax.get_yticklabels()):
                text = label.get_text().replace("\u2212", "-")
                if lo <= tick <= hi and text and float(tick).is_integer():
                    row = (tick - y1) / (y0 - y1) * shown.shape[0] - 0.5
                    require(abs(float(text) - row) < 1e-6, "row %s is labelled as degree %s", row, text)


def signed_tables(c):
    """Poloidal and toroidal energy by degree and order, with orders from minus to plus the largest degree."""
    top = max(l for l, _, _ in c)
    ep, et = np.zeros((2, top + 1, 2 * top + 1))
    for l, m, v in c:
        a, b, g = (x.real ** 2 if m == 0 else abs(x) ** 2 / 2 for x in gen.complex_values(v))
        ep[l, m + top], et[l, m + top] = a + b * l / (l + 1.0), g * l / (l + 1.0)
    return ep, et


def signed():
    return st.builds(lambda c, k: {"c": times(c, k)}, gen.coeffs(3, 0, 6, True, 1, 10, value=st.integers(-9, 9).map(float)).filter(lambda c: any(abs(v[0]) > 0 and 1e-3 < np.max(np.abs(v)) < 1e4 for l, m, v in c)),
                     st.sampled_from([1.0, 10.0])).filter(lambda c: np.max([np.abs(v) for l, m, v in c["c"]]) < 1e4)


@facet("negative_order_energies", signed, quick=12, thorough=1200, nontrivial=lambda c: any(m < 0 and any(v) for l, m, v in c["c"]),
       examples=[{"c": [[3, m, [1.0, 0.0, 0.0, 0.0, 0.0, 0.0]], [1, 0, [1.0] * 6]]} for m in (-3, -1)] + [{"c": [[2, -1, [2.0, 1.0, 1.0, 0.0, 3.0, 0.0]], [2, 1, [1.0] * 6], [4, -4, [1.0] * 6]]}])
def negative_order_energies(c):
    from starwinds_magnetogram import plot_zdi
    ep, et = signed_tables(c["c"])
    top, scale = ep.shape[0] - 1, np.sum(ep) + np.sum(et)
    with figs.session():
        fig, axs = plot_zdi.plot_energy_matrix(magnetogram(c["c"]), types=("poloidal", "toroidal"), negative_orders=True)
        fig.canvas.draw()
        for ax, want in zip(axs, (ep, et)):
            shown = np.ma.getdata(ax.images[0].get_array())
            require(close(shown, want, 1e-9 * scale), "energies shown as %s, expected %s", shown, want)
        if np.sum((ep + et)[:, :top]) > 0.01:
            # Energy at negative orders is not left out of sight.
            try:
                _, (ax,) = plot_zdi.plot_energy_matrix(magnetogram(c["c"]))
            except Exception:
                pass
            else:
                require(False, "the energy at negative orders is left out of the energies shown, %s", np.ma.getdata(ax.images[0].get_array()))
        _, ax = plot_zdi.plot_energy_by_degree(magnetogram(c["c"]), scaled=False)
        for name, table in (("Total", ep + et), ("Poloidal", ep), ("Toroidal", et)):
            per = np.sum(table, axis=1)
            line, = [x for x in ax.get_lines() if x.get_label() == name]
            require(close(line.get_ydata(), per[1:], 1e-9 * scale), "%s is %s, expected %s", name, line.get_ydata(), per[1:])
            cumulative = [x for x in ax.get_lines() if x is not line and x.get_color() == line.get_color()]
            require(len(cumulative) == 1 and close(cumulative[0].get_ydata(), np.cumsum(per)[1:], 1e-9 * scale), "cumulative %s energy differs", name)


def pfss_energy_tables(c):
    """The same for the surface field of PFSS coefficients with the source surface at three radii, by integration over the sphere."""
    top = max(l for l, _, _ in c)
    er, ep, et = np.zeros((3, top + 1, top + 1))
    x, weight = np.polynomial.legendre.leggauss(top + 2)
    az = np.arange(2 * top + 3) * 2 * np.pi / (2 * top + 3)
    t, p = np.meshgrid(np.arccos(x), az, indexing="ij")
    for l, m, v in c:
        squares = [f ** 2 for f in ref.pfss_field(gen.terms_pfss([[l, m, v]]), np.ones(t.shape), t, p, 1.0, 3.0)]
        integrals = [np.sum(weight[:, None] * f) * 2 * np.pi / len(az) for f in squares]
        er[l, m], ep[l, m] = integrals[0], sum(integrals)
    return er, ep, et


def check_summary(axs, c, tables=energy_tables):
    er, ep, et = tables(c)
    total, pol, tor = np.sum(ep + et), np.sum(ep), np.sum(et)

    def per(table, l):
        return np.sum(table[l]) if l < table.shape[0] else 0.0

    def share(a, b):
        return a / b if b > 0 else 0.0

    want = [{"poloidal": pol / total, "toroidal": tor / total, "radial": np.sum(er) / total, "axisymmetric": np.sum((ep + et)[:, 0]) / total},
            {"dipole": share(per(ep, 1), pol), "quadrupole": share(per(ep, 2), pol), "octopole": share(per(ep, 3), pol), "axisymmetric": share(np.sum(ep[:, 0]), pol)}]
    if tor > 0:
        want.append({"$l1$": share(per(et, 1), tor), "$l2$": share(per(et, 2), tor), "$l3$": share(per(et, 3), tor), "axisymmetric": share(np.sum(et[:, 0]), tor)})
    for ax, expected in zip(axs, want):
        legend = ax.get_legend()
        require(legend is not None and sorted(t.get_text() for t in legend.get_texts()) == sorted(expected), "legend %s, expected %s", legend and [t.get_text() for t in legend.get_texts()], sorted(expected))
        sizes = sorted(abs(w.theta2 - w.theta1) / 360 for w in ax.patches if w.get_visible())
        wanted = sorted(expected.values())
        require(close(sizes, wanted, 2e-5), "%s: wedges are %s of the circle, expected %s", ax.get_title(), sizes, wanted)
        # Each legend entry has the color of a wedge of its size.
        for text, handle in zip(legend.get_texts(), legend.legend_handles):
            match = [w for w in ax.patches if w.get_visible() and w.get_facecolor() == handle.get_facecolor() and abs(abs(w.theta2 - w.theta1) / 360 - expected[text.get_text()]) < 2e-5]
            require(match, "%s: no wedge of %s and the color of %s", ax.get_title(), expected[text.get_text()], text.get_text())


@facet("energy_summary", energetic, quick=8, thorough=800, nontrivial=varied,
       examples=[{"c": [[1, 1, [1.0, 2.0, 3.0, 0.0, 0.0, 0.0]]], "scaled": None, "types": None, "negative": None}, {"c": [[2, 0, [0.0, 0.0, 0.0, 0.0, 1.0, 0.0]]], "scaled": None, "types": None, "negative": None},
                 {"c": [[1, 0, [3.0, 0.0, 1.0, 0.0, 2.0, 0.0]], [2, 1, [1.0] * 6]], "scaled": None, "types": None, "negative": None}])
def energy_summary(c):
    from starwinds_magnetogram import plot_zdi
    with figs.session():
        _, axs = plot_zdi.plot_energy_summary(magnetogram(c["c"]))
        check_summary(axs, c["c"])


# -- slices of the extrapolated field -----------------------------------------------------------------------------------------------------

def slices():
    return st.fixed_dictionaries({"c": gen.coeffs(1, 1, 3, False, 1, 3), "normal": st.sampled_from([None, "x", "y", "z"]), "rmax": st.sampled_from([None, 3.0, 4.2]), "rss": st.sampled_from([None, 2.0, 3.0]),
                                  "star": st.sampled_from([None, None, 1.2])}).filter(lambda c: any(v[0] or (v[1] and m) for l, m, v in c["c"]))


@facet("slice", slices, quick=2, thorough=80, nontrivial=lambda c: c["normal"] in ("y", "z"), labels=lambda c: [str(c["normal"])],
       examples=[{"c": [[1, 0, [3.0, 0.0]], [1, 1, [2.0, 1.0]], [2, 1, [0.5, -1.5]]], "normal": n, "rmax": None, "rss": None, "star": None} for n in "xyz"])
def slice_(c):
    from starwinds_magnetogram import plot_pfss
    kwargs = {k: v for k, v in (("normal", c["normal"]), ("rmax", c["rmax"]), ("radius_source_surface", c["rss"]), ("radius_star", c["star"])) if v is not None}
    with figs.session():
        fig, ax = plot_pfss.plot_slice(gen.build(c["c"], 1), **kwargs)
        x, y, shown, artist = figs.mesh(ax)
        u, v = (x[:-1, :-1] + x[1:, 1:]) / 2, (y[:-1, :-1] + y[1:, 1:]) / 2
        normal = c["normal"] or "x"
        axes = [a for a in "xyz" if a != normal]
        for text, a in ((ax.get_xlabel(), axes[0]), (ax.get_ylabel(), axes[1])):
            require([b for b in "xyz" if "$%s/" % b in text] == [a], "axis labelled %s in the slice normal to %s", text, normal)
        rmax = c["rmax"] or 5.0
        require(abs(np.max(u) - rmax) < 1e-6 * rmax and abs(np.min(v) + rmax) < 1e-6 * rmax, "the slice extends to %s, expected %s", np.max(u), rmax)
        rng = np.random.RandomState(1)
        i, j = rng.randint(0, u.shape[0], 400), rng.randint(0, u.shape[1], 400)
        pos = {normal: np.zeros(400), axes[0]: u[i, j], axes[1]: v[i, j]}
        star, rss = c["star"] or 1.0, c["rss"] or 2.5
        r = np.sqrt(sum(pos[a] ** 2 for a in "xyz"))
        safe = (np.abs(r - star) > 1e-6) & (r > 1e-6)
        theta, phi = np.arccos(np.clip(pos["z"] / np.maximum(r, 1e-9), -1, 1)), np.arctan2(pos["y"], pos["x"])
        want = ref.pfss_field(gen.terms_pfss(c["c"]), np.maximum(r, 1e-9), theta, phi, star, rss)[0]
        # Mesh positions are known to rounding of the mesh edges.
        scale = size_of(c["c"]) * 10
        require(close(shown[i, j][safe], want[safe], 1e-6 * scale), "the slice shows other values of the radial field (by up to %s)", np.max(np.abs(shown[i, j] - want)[safe]))
        # The star and the source surface are outlined.
        outline = np.concatenate([v for _, _, v in figs.contours(ax)] + [np.zeros((0, 2))])
        away = np.hypot(*outline.T)
        step = 2 * rmax / 300
        require(len(outline) and np.all(np.minimum(np.abs(away - star), np.abs(away - rss)) < step), "the star (%s) and the source surface (%s) are outlined at %s", star, rss, away)
        for radius in (star, rss):
            turn = np.arctan2(outline[:, 1], outline[:, 0])[np.abs(away - radius) < step]
            require(radius > rmax - 2 * step or len(np.unique(np.round(turn * 10))) > 50, "the outline at %s is missing or open", radius)
        # The lines run along the field in the plane.
        grid_pos = {normal: 0 * u, axes[0]: u, axes[1]: v}
        rr = np.maximum(np.sqrt(u ** 2 + v ** 2), 1e-9)
        tt, pp = np.arccos(np.clip(grid_pos["z"] / rr, -1, 1)), np.arctan2(grid_pos["y"], grid_pos["x"])
        vector = ref.to_cartesian(*(f.reshape(rr.shape) for f in ref.pfss_field(gen.terms_pfss(c["c"]), rr.ravel(), tt.ravel(), pp.ravel(), star, rss)), tt, pp)
        vector[rr < 1.05 * star] = np.nan
        check_streams(ax, u[0], v[:, 0], vector[..., "xyz".index(axes[0])], vector[..., "xyz".index(axes[1])],
                      1e-7 * np.nanmax(np.linalg.norm(vector, axis=-1)))
        lo, hi = artist.norm.vmin, artist.norm.vmax
        require(lo <= np.min(shown) and np.max(shown) <= hi and abs(lo + hi) <= 1e-9 * hi, "limits %s to %s", lo, hi)


# -- the plot command ---------------------------------------------------------------------------------------------------------------------

TYPES = ("map", "radial", "polar", "azimuthal", "azimuth", "strength", "energy-by-degree", "energy-matrix", "energy-summary")


def write_file(path, c, n):
    with open(path, "w") as f:
        f.write("General poloidal plus toroidal field\n%d 3 -3\n" % len(c))
        for k in range(n):
            for l, m, v in c:
                f.write("%2d %2d %.10e %.10e\n" % (l, m, v[2 * k], v[2 * k + 1]))
            f.write("\n")


@st.composite
def runs(draw):
    kind = draw(st.sampled_from(["zdi", "zdi", "pfss", None]))
    c = draw(gen.coeffs(1 if kind == "pfss" else 3, 1, draw(st.sampled_from([3, 3, 3, 18])), False, 1, 5).filter(lambda c: any(abs(v[0]) > 0 for l, m, v in c)))
    return {"kind": kind, "c": c, "plot": draw(st.sampled_from((None,) + TYPES)), "out": draw(st.sampled_from(["o.png", "o.png", "o.png", "o.pdf", "o.svg", None])), "short": draw(st.booleans()),
            "name": draw(st.sampled_from(["field-hd1.dat", "mag.txt", "magnet-epsEri-x.dat"]))}


def example_runs():
    c3 = [[1, 0, [3.0, 0.0, 1.0, 0.0, 2.0, 0.0]], [2, 1, [1.0, -2.0, 0.5, 1.0, -1.0, 0.3]]]
    c1 = [[1, 0, [3.0, 0.0]], [2, 1, [1.0, -2.0]]]
    return [{"kind": k, "c": c1 if k == "pfss" else c3, "plot": t, "out": "o.png", "short": i % 2 == 0, "name": "field-hd1.dat"}
            for i, t in enumerate(TYPES[1:]) for k in (("pfss",) if i % 2 else ("zdi",))] + [{"kind": "pfss", "c": c1, "plot": "map", "out": "o.png", "short": True, "name": "mag.txt"},
            {"kind": "pfss", "c": c1 + [[3, 2, [0.5, 2.0]]], "plot": "energy-by-degree", "out": "o.png", "short": True, "name": "mag.txt"},
            {"kind": "pfss", "c": c1 + [[3, 2, [0.5, 2.0]]], "plot": "energy-summary", "out": "o.png", "short": False, "name": "mag.txt"},
            {"kind": "zdi", "c": [[1, 0, [3.0, 0.0, 1.0, 0.0, 2.0, 0.0]], [17, 3, [1.0, -2.0, 0.5, 1.0, -1.0, 0.3]]], "plot": "energy-by-degree", "out": "o.png", "short": False, "name": "mag.txt"},
            {"kind": "zdi", "c": [[1, 1, [3.0, 0.0, 1.0, 0.0, 2.0, 0.0]]], "plot": "energy-summary", "out": "o.png", "short": True, "name": "mag.txt"}]


@facet("command", runs, quick=2, thorough=200, nontrivial=varied, labels=lambda c: [str(c["plot"]), str(c["kind"])], examples=example_runs(), budget={"quick": 120, "thorough": 1500})
def command(c):
    from starwinds_magnetogram.bin import plot_magnetogram as cmd
    from starwinds_magnetogram.geometry import ZdiGeometry
    pfss = c["kind"] == "pfss"
    with tempfile.TemporaryDirectory() as root, figs.session() as seen:
        path = os.path.join(root, c["name"])
        write_file(path, c["c"], 1 if pfss else 3)
        with open(path) as f:
            text = f.read()
        argv = ["sw-plot-magnetogram", path] + ([os.path.join(root, c["out"])] if c["out"] else [])
        if c["plot"]:
            argv += ["-p" if c["short"] else "--plot_type", c["plot"]]
        if c["kind"]:
            argv += ["-y" if c["short"] else "--type", c["kind"]]
        sys.argv = argv
        cmd.main()
        with open(path) as f:
            require(f.read() == text, "the input file changed")
        require(sorted(os.listdir(root)) == sorted([c["name"]] + ([c["out"]] if c["out"] else [])), "files %s", os.listdir(root))
        if c["out"]:
            require(figs.is_image(os.path.join(root, c["out"])), "the output file is not an image")
        require(len(seen) == 1, "%d figures saved or shown", len(seen))
        fig = seen[0]
        scale = size_of(c["c"])
        plot = c["plot"] or "map"
        grid = ZdiGeometry()
        if pfss:
            # The surface field of a PFSS file with the source surface at three radii; azimuth runs the other way.
            t, p = centers(grid)
            br, bt, bp = ref.pfss_field(gen.terms_pfss(c["c"]), np.ones(t.shape), t, -p, 1.0, 3.0)
            want = {"radial": br, "polar": bt, "azimuthal": -bp}
        else:
            want = {n: reference(c["c"], grid, n) for n in NAMES}
        want["strength"] = np.sqrt(sum(want[n] ** 2 for n in NAMES))
        if plot == "map":
            check_three(fig.axes[:3], grid, [want[n] for n in NAMES], scale, "map")
        elif plot.startswith("energy"):
            er, ep, et = (pfss_energy_tables if pfss else energy_tables)(c["c"])
            if plot == "energy-by-degree":
                line = [x for x in fig.axes[0].get_lines() if x.get_label() == "Total"]
                per = np.sum(ep + et, axis=1)
                require(len(line) == 1 and close(line[0].get_ydata(), per[1:] / np.sum(per), 1e-8), "energies by degree differ")
            elif plot == "energy-matrix":
                require(close(np.ma.getdata(fig.axes[0].images[0].get_array()), ep + et, 1e-8 * scale ** 2), "energies by degree and order differ")
            else:
                check_summary(fig.axes, c["c"], pfss_energy_tables if pfss else energy_tables)
        else:
            name = "azimuthal" if plot == "azimuth" else plot
            ax = fig.axes[0]
            _, lo, hi = check_mesh(ax, grid, want[name], scale, plot)
            check_symmetric(want[name], lo, hi, scale, plot)
            check_extrema(ax, grid, want[name], LATEX.get(name, "|B|"), scale, plot)
            require(name in ax.get_title(), "the title of the %s field is %s", name, ax.get_title())
