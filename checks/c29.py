"""C29: color bar tick marks sit at the values their labels state."""
import re

import hypothesis.strategies as st
import numpy as np

from vlib.harness import facet, require

ORACLE = "tick positions, labels and limits of drawn color bars against the color scale; tick lists against their definition"
RULE = ("A case is a color scale (maximum, linear threshold, linear scale, base), an orientation and a tick step drawn as a real color bar, or exponent ranges, or a tick label. "
        "Non-trivial: at least two powers of ten between the linear threshold and the maximum, or a label with an exponent.")
ASSUMPTIONS = ["the color scale is symmetric about zero", "the linear threshold is below the maximum", "exponents from -15 to 15"]

LABEL = re.compile(r"^\$(-?)10\^\{(-?\d+)\}\$$")


def value_of(label):
    if label == "0":
        return 0.0
    m = LABEL.match(label)
    require(m is not None, "label %r is not zero or a signed power of ten", label)
    return (-1.0 if m.group(1) else 1.0) * 10.0 ** int(m.group(2))


def bars():
    return st.fixed_dictionaries({
        "top": st.integers(-4, 7), "mantissa": st.one_of(st.floats(1.02, 9.9, allow_nan=False), st.floats(1.02, 9.9, allow_nan=False), st.sampled_from([1.0, 1.0001, 9.99, 9.999, 9.9999])), "decades": st.integers(1, 7), "lin_mantissa": st.one_of(st.floats(1.02, 9.8, allow_nan=False), st.sampled_from([1.0, 1.0001, 9.99, 9.9999])),
        "linscale": st.sampled_from([1.0, 1.0, 0.5, 2.0]), "base": st.sampled_from([10, 10, 2]), "step": st.sampled_from([None, 1, 1, 2, 3]),
        "axis": st.sampled_from(["x", "x", "y", "default"]), "ax": st.booleans()})


@facet("drawn", bars, quick=60, thorough=4000, nontrivial=lambda c: c["decades"] >= 2,
       labels=lambda c: [c["axis"], "step=%s" % c["step"], "base=%s" % c["base"]],
       examples=[{"top": 2, "mantissa": 5.0, "decades": 2, "lin_mantissa": 1.02, "linscale": 1.0, "base": 10, "step": None, "axis": axis, "ax": True} for axis in "xy"] +
       [{"top": t, "mantissa": a, "decades": 3, "lin_mantissa": b, "linscale": 1.0, "base": 10, "step": 1, "axis": "x", "ax": True} for t in (-2, 0, 3) for a, b in ((1.0, 1.0), (9.9999, 9.9999), (9.99, 1.0), (1.0001, 9.99))])
def drawn(c):
    import matplotlib.colors
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import colorbar_manual_tickmarks as ticks
    vmax = c["mantissa"] * 10.0 ** c["top"]
    linthresh = c["lin_mantissa"] * 10.0 ** (c["top"] - c["decades"])
    norm = matplotlib.colors.SymLogNorm(linthresh=linthresh, linscale=c["linscale"], vmin=-vmax, vmax=vmax, base=c["base"])
    fig, ax = plt.subplots(figsize=(3, 3))
    try:
        img = ax.pcolormesh(np.linspace(-vmax, vmax, 12).reshape(3, 4), norm=norm)
        vertical = c["axis"] == "y"
        cb = fig.colorbar(img, ax=ax, orientation="vertical" if vertical else "horizontal")
        kwargs = {} if c["axis"] == "default" else {"axis": c["axis"]}
        if c["step"] is not None:
            kwargs["major_tick_step"] = c["step"]
        ticks.auto_symlog_tickmarks(cb, **kwargs)
        axis = cb.ax.yaxis if vertical else cb.ax.xaxis
        to_axes = cb.ax.transData - cb.ax.transAxes
        locs = np.asarray(axis.get_ticklocs(), dtype=float)
        labels = [t.get_text() for t in axis.get_ticklabels()]
        step = c["step"] or 1
        lo, hi = int(np.floor(np.log10(linthresh))), int(np.floor(np.log10(vmax)))
        exponents = list(range(lo, hi + 1, step))
        want = ["$-10^{%d}$" % e for e in exponents[::-1]] + ["0"] + ["$10^{%d}$" % e for e in exponents]
        require(labels == want, "labels are %s, expected %s", labels, want)

        def places(values):
            points = np.column_stack((np.zeros(len(values)), values)) if vertical else np.column_stack((values, np.zeros(len(values))))
            return to_axes.transform(points)[:, 1 if vertical else 0]

        require(len(locs) == len(labels), "%d ticks for %d labels", len(locs), len(labels))
        got = places(locs)
        for label, g in zip(labels, got):
            w = float(norm(value_of(label)))
            require(abs(g - w) < 1e-6, "tick %s is %.6f along the bar, the color scale puts it at %.6f", label, g, w)
        minor = np.sort(places(np.asarray(axis.get_minorticklocs(), dtype=float)))
        # Matplotlib leaves out minor ticks that coincide with major ticks.
        expected = sorted(float(norm(s * k * 10.0 ** e)) for e in range(lo - 1, hi + 1) for k in range(1, 10) for s in (-1, 1) if k * 10.0 ** e <= vmax)
        inner = [p for p in expected if all(abs(p - q) > 1e-6 for q in got) and 1e-9 < p < 1 - 1e-9]
        for p in inner:
            require(len(minor) and np.min(np.abs(minor - p)) < 1e-6, "no minor tick at %.6f along the bar", p)
        for p in minor:
            require(min([abs(p - q) for q in expected] + [abs(p - 0.5)]) < 1e-6, "minor tick at %.6f along the bar is not a multiple of a power of ten", p)
    finally:
        plt.close(fig)


def ranges():
    return st.fixed_dictionaries({"lo": st.integers(-15, 6), "span": st.integers(0, 9), "step": st.integers(1, 5)})


@facet("lists", ranges, quick=150, thorough=8000, nontrivial=lambda c: c["span"] >= 2, labels=lambda c: ["step=%d" % c["step"]])
def lists(c):
    from starwinds_magnetogram import colorbar_manual_tickmarks as ticks
    lo, hi, step = c["lo"], c["lo"] + c["span"], c["step"]
    values, labels = ticks.generate_major(lo, hi, step)
    values = np.asarray(values, dtype=float)
    exponents = list(range(lo, hi + 1, step))
    want = np.array([-10.0 ** e for e in exponents[::-1]] + [0.0] + [10.0 ** e for e in exponents])
    require(values.shape == want.shape and np.all(np.abs(values - want) <= 1e-12 * np.abs(want)), "major values %s, expected %s", values, want)
    require(len(labels) == len(values), "%d labels for %d values", len(labels), len(values))
    for v, text in zip(values, labels):
        require(abs(v - value_of(text)) <= 1e-12 * abs(v), "value %s is labelled %s", v, text)
    minor = np.asarray(ticks.generate_minor(lo, hi, step), dtype=float)
    require(np.all(np.diff(minor) > 0), "minor values do not increase")
    require(np.array_equal(minor, -minor[::-1]), "minor values are not symmetric")
    positive = minor[minor > 0]
    # Which multiples are listed at least (from the lowest to the highest major tick) and at most (powers of ten multiples).
    for e in range(lo, hi):
        for k in range(1, 10):
            require(np.min(np.abs(positive / (k * 10.0 ** e) - 1)) < 1e-9, "no minor value %d*10^%d", k, e)
    for v in positive:
        e = np.floor(np.log10(v) + 1e-9)
        k = v / 10.0 ** e
        require(abs(k - round(k)) < 1e-6, "minor value %s is not a multiple of a power of ten", v)
        require(10.0 ** (lo - 1) * (1 - 1e-9) <= v < 10.0 ** (hi + 1) * (1 - 1e-9), "minor value %s for powers %d to %d", v, lo, hi)


@st.composite
def label_case(draw):
    kind = draw(st.sampled_from(["power", "negative", "plain", "mathdefault", "product", "trailing", "wrapped", "leading"]))
    e = draw(st.integers(-30, 30))
    if kind == "plain":
        return {"text": draw(st.sampled_from(["0", "$0$", "", "100", "-1.5", "$-3$", "B = 4", "10^3", r"$\mathdefault{0}$", r"$\mathdefault{12}$", "$B_{2}$", r"$\mathrm{T}$", "{5}"])), "exponent": None, "shift": draw(st.sampled_from([None, 0, 4, -4, 2]))}
    text = {"power": "$10^{%d}$", "negative": "$-10^{%d}$", "product": r"$3 \times 10^{%d}$", "mathdefault": "$-5.5 x 10^{%d} T$", "trailing": r"$10^{%d}\mathrm{T}$", "wrapped": r"$\mathdefault{-10^{%d}}$",
            "leading": r"$\mathdefault{B}_{r}=10^{%d}$"}[kind]
    return {"text": text, "exponent": e, "shift": draw(st.sampled_from([None, None, 0, 4, -4, 2, 11]))}


@facet("tesla_to_gauss", label_case, quick=150, thorough=5000, nontrivial=lambda c: c["exponent"] is not None)
def tesla_to_gauss(c):
    from starwinds_magnetogram import colorbar_manual_tickmarks as ticks
    text = c["text"] if c["exponent"] is None else c["text"] % c["exponent"]
    got = ticks.tesla_to_gauss(text) if c["shift"] is None else ticks.tesla_to_gauss(text, c["shift"])
    want = text if c["exponent"] is None else c["text"] % (c["exponent"] + (4 if c["shift"] is None else c["shift"]))
    require(got == want, "%r becomes %r, expected %r", text, got, want)
