"""Run plotting code and look at the figures it saves or shows."""
import contextlib
import os

import numpy as np


@contextlib.contextmanager
def session():
    """A clean pyplot state; yields the list of figures that were saved or shown."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    plt.close("all")
    seen = []
    save, show = matplotlib.figure.Figure.savefig, plt.show

    def savefig(self, *args, **kwargs):
        seen.append(self)
        return save(self, *args, **kwargs)

    def fake_show(*args, **kwargs):
        seen.append(plt.gcf())

    matplotlib.figure.Figure.savefig = savefig
    plt.show = fake_show
    try:
        yield seen
    finally:
        matplotlib.figure.Figure.savefig = save
        plt.show = show
        plt.close("all")


MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml", ".jpg": b"\xff\xd8"}


def is_image(path):
    if not os.path.isfile(path):
        return False
    magic = MAGIC[os.path.splitext(path)[1]]
    with open(path, "rb") as f:
        return f.read(len(magic)) == magic


def errorbars(ax):
    """[(x, y, lower, upper)] of the error bar series on the axes."""
    import matplotlib.container
    out = []
    for container in ax.containers:
        if not isinstance(container, matplotlib.container.ErrorbarContainer):
            continue
        line, _, bars = container.lines
        x, y = (np.asarray(v, dtype=float) for v in line.get_data())
        segments = np.array([s for s in bars[0].get_segments()])
        out.append((x, y, segments[:, :, 1].min(axis=1), segments[:, :, 1].max(axis=1)))
    return out


def mesh(ax):
    """(corner x, corner y, values, artist) of the only pcolormesh on the axes."""
    import matplotlib.collections
    found = [a for a in ax.collections if isinstance(a, matplotlib.collections.QuadMesh)]
    if len(found) != 1:
        raise AssertionError("%d color meshes on the axes" % len(found))
    grid = np.asarray(found[0].get_coordinates(), dtype=float)
    values = np.asarray(found[0].get_array(), dtype=float)
    return grid[..., 0], grid[..., 1], values.reshape(grid.shape[0] - 1, grid.shape[1] - 1), found[0]


def stream_alignment(ax, x, y, u, v, least):
    """Cosines (with the lengths) between drawn stream line segments and the field (u, v) given on the regular grid x, y (u[j, i] at x[i], y[j]), where it is stronger than least."""
    import matplotlib.collections
    from scipy.interpolate import RegularGridInterpolator
    found = [a for a in ax.collections if type(a) is matplotlib.collections.LineCollection]
    segments = [pair for a in found for s in a.get_segments() for pair in zip(s[:-1], s[1:])]
    if not segments:
        return np.zeros(0), np.zeros(0)
    segments = np.array(segments, dtype=float)
    middle, step = segments.mean(axis=1), np.diff(segments, axis=1)[:, 0]
    field = np.stack([RegularGridInterpolator((y, x), f, bounds_error=False, fill_value=np.nan)(middle[:, ::-1]) for f in (u, v)], -1)
    size, length = np.hypot(*field.T), np.hypot(*step.T)
    keep = (length > 0) & (size > max(least, 0.3 * np.nanmedian(size)))
    return np.sum(field * step, axis=-1)[keep] / (size * length)[keep], length[keep]


def stream_widths(ax, x, y, size):
    """Widths of the drawn stream line segments and the values of size (as in stream_alignment) there."""
    import matplotlib.collections
    from scipy.interpolate import RegularGridInterpolator
    found = [a for a in ax.collections if type(a) is matplotlib.collections.LineCollection]
    middle, widths = [], []
    for a in found:
        segments, each = a.get_segments(), np.atleast_1d(a.get_linewidths())
        for i, s in enumerate(segments):
            for pair in zip(s[:-1], s[1:]):
                middle.append(np.mean(pair, axis=0))
                widths.append(each[i % len(each)])
    if not middle:
        return np.zeros(0), np.zeros(0)
    there = RegularGridInterpolator((y, x), size, bounds_error=False, fill_value=0.0)(np.array(middle)[:, ::-1])
    return np.array(widths), there


def contours(ax):
    """[(color, level, vertices)] of the contour lines on the axes."""
    import matplotlib.colors
    import matplotlib.contour
    out = []
    for a in ax.collections:
        if isinstance(a, matplotlib.contour.ContourSet):
            colors = [matplotlib.colors.to_hex(c) for c in a.get_edgecolor()] or [None]
            for i, (level, path) in enumerate(zip(a.levels, a.get_paths())):
                out.append((colors[i % len(colors)], float(level), np.asarray(path.vertices, dtype=float)))
    return out
