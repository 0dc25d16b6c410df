"""C03: the SWMF header against the data block."""
import os
import sys
import tempfile

import hypothesis.strategies as st

from vlib import files, gen
from vlib.harness import facet, require

ORACLE = "header fields compared with the data lines found by an independent parser"
RULE = ("A case is a single-component coefficient set, a requested maximum degree and a route (library writer, conversion command from "
        "a ZDI file, conversion command with --no-conversion). The file is parsed by an independent parser. Non-trivial: at least two elements or a requested maximum degree that differs from the set's.")
ASSUMPTIONS = ["header layout as documented in the package: name / step time dims / line count 1 / degree rotation longitude / variable names"]


@st.composite
def case(draw):
    route = draw(st.sampled_from(["library", "library", "command", "no-conversion"]))
    c = draw(gen.coeffs(1, 0, 15, route == "library" and draw(st.booleans()), 1, 15, value=gen.small_float(1e4)))
    top = max(e[0] for e in c)
    return {"order_min": draw(st.sampled_from([0, 0, 0, 1, 2, -1, -3, -20])) if route == "library" else 0, "c": c, "degree_max": draw(st.one_of(st.none(), st.integers(0, top + 5))), "route": route,
            "file": draw(files.names()), "zdi_components": draw(st.sampled_from([1, 2, 3])) if route == "command" else 1}


def labels(c):
    yield c["route"]
    yield "order_min=%d" % c.get("order_min", 0)
    top = max(e[0] for e in c["c"])
    yield "default" if c["degree_max"] is None else "padded" if c["degree_max"] > top else "truncated" if c["degree_max"] < top else "same"


@facet("header", case, quick=300, thorough=20000, labels=labels,
       nontrivial=lambda c: len(c["c"]) > 1 or c["degree_max"] not in (None, c["c"][0][0]),
       examples=[{"c": [[1, 0, [1.0, 0.0]], [2, 1, [0.5, -1.0]]], "degree_max": None, "route": r, "zdi_components": 1}
                 for r in ("library", "command", "no-conversion")])
def header(c):
    from starwinds_magnetogram import reader_writer
    from starwinds_magnetogram.bin import convert_magnetogram
    top = max(e[0] for e in c["c"]) if c["degree_max"] is None else c["degree_max"]
    lowest = c.get("order_min", 0)
    if lowest > top:
        return
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        out = os.path.join(folder, "result.dat")
        if c["route"] == "library":
            kwargs = {} if c["degree_max"] is None else {"degree_max": c["degree_max"]}
            if lowest:
                kwargs["order_min"] = lowest
            file = c.get("file", {"name": "result.dat", "how": "text"})
            out = files.spell(folder, file["name"], file["how"])
            reader_writer.write_magnetogram_file(gen.build(c["c"], 1), out, write_swmf_header=True, **kwargs)
        else:
            with open("source.dat", "w") as f:
                f.write("Some magnetogram\n")
                for k in range(c["zdi_components"]):
                    for l, m, v in c["c"]:
                        f.write("%d %d %.6e %.6e\n" % (l, m, v[0], v[1]))
            sys.argv = ["sw-convert-magnetogram", "source.dat", out, "-q"]
            if c["route"] == "no-conversion":
                sys.argv.append("--no-conversion")
            if c["degree_max"] is not None:
                sys.argv += ["--degree-max", str(c["degree_max"])]
            convert_magnetogram.main()
        with open(out) as f:
            lines = f.read().split("\n")
        os.chdir("/")
    require(lines and lines[-1] == "", "the file does not end with a line end")
    lines = lines[:-1]
    require(len(lines) > 5, "only %d lines", len(lines))
    data = []
    for i, line in enumerate(lines[5:]):
        tokens = line.split()
        require(len(tokens) == 4, "line %d after the header is not a data line: %r", i, line)
        try:
            data.append((int(tokens[0]), int(tokens[1]), float(tokens[2]), float(tokens[3])))
        except ValueError:
            require(False, "line %d after the header is not a data line: %r", i, line)
    require([d[:2] for d in data] == [(l, m) for l in range(top + 1) for m in range(max(lowest, -l), l + 1)],
            "data block does not list every degree and order up to %d in order: %s", top, [d[:2] for d in data][:8])
    require(lines[0].strip() != "" and os.path.basename(out) in lines[0], "name line is %r", lines[0])
    t = lines[1].split()
    require(len(t) == 5 and [float(x) for x in t] == [0, 0.0, -2, 3, 2], "second header line is %r", lines[1])
    t = lines[2].split()
    require(t == [str(len(data)), "1"], "header states %r; the file has %d data lines", lines[2], len(data))
    t = lines[3].split()
    require(len(t) == 3 and t[0] == str(max(d[0] for d in data)), "header states %r; the highest degree is %d", lines[3], top)
    require(float(t[1]) == int(float(t[1])) and float(t[2]) == 0.0, "rotation number or longitude: %r", lines[3])
    require(lines[4].split() == ["n", "m", "g", "h", "nOrder", "CR", "dLon"], "variable names are %r", lines[4])
    values = {(l, m): v for l, m, v in c["c"]}
    for l, m, re, im in data:
        v = values.get((l, m), [0.0, 0.0])
        require((re == 0) == (float("%e" % v[0]) == 0) and (im == 0) == (float("%e" % v[1]) == 0), "zero pattern at %d %d", l, m)
