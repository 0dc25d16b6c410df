"""C04: conversion command end to end."""
import math
import os
import sys
import tempfile

import hypothesis.strategies as st

from vlib import gen
from vlib.harness import facet, require

ORACLE = "files written by the command compared with the conversion formula, and chained conversions with their input"
RULE = ("A case is an input file (ZDI with 1-3 blocks, or PFSS with one), a mode and options (maximum degree, header, output name, verbosity), or a chain "
        "PFSS -> ZDI -> PFSS. Outputs are parsed independently and compared with the conversion formula. Non-trivial: at least two elements with a nonzero value.")
ASSUMPTIONS = ["values in files carry seven significant digits, so comparisons use a relative tolerance of 1e-6"]


def factor(l, m):
    """ZDI radial coefficient -> PFSS coefficient."""
    return (-1) ** m * math.sqrt((2 * l + 1) / (4 * math.pi)) / (1.0 if m == 0 else math.sqrt(2.0))


def beta_factor(l):
    """(l + 1) R_l(1) for a source surface at 3."""
    t = 3.0 ** -(2 * l + 1)
    return (l + 1) * (1 - t) / (l + 1 + l * t)


def write_input(path, blocks, preamble):
    with open(path, "w") as f:
        for line in preamble:
            f.write(line + "\n")
        for b in blocks:
            for l, m, re, im in b:
                f.write("%2d %2d %.6e %.6e\n" % (l, m, re, im))
            f.write("\n")


def parse(path):
    """(header lines, blocks) of a file written by the package."""
    header, blocks, seen = [], [], None
    with open(path) as f:
        for line in f.read().splitlines():
            t = line.split()
            try:
                rec = (int(t[0]), int(t[1]), float(t[2]), float(t[3]))
                if len(t) != 4:
                    raise ValueError
            except (ValueError, IndexError):
                require(not blocks or not t, "non-data line %r inside the data", line)
                header.append(line)
                continue
            if seen is None or rec[:2] in seen:
                blocks.append({})
                seen = blocks[-1]
            seen[rec[:2]] = complex(rec[2], rec[3])
    return header, blocks


@st.composite
def case(draw):
    mode = draw(st.sampled_from(["zdi2pfss", "zdi2pfss", "pfss2zdi", "plain", "chain"]))
    k = draw(st.sampled_from([3, 3, 1, 2])) if mode == "zdi2pfss" else 1
    c = draw(st.one_of(*[gen.coeffs(k, 0, 15, False, 1, 18, value=gen.small_float(1e4))] * 5, gen.coeffs(k, 25, 45, False, 1, 6)))
    top = max(e[0] for e in c)
    return {"mode": mode, "k": k, "c": c, "degree_max": draw(st.one_of(st.none(), st.none(), st.integers(0, top + 4), st.sampled_from([0, 0, top, 35]))),
            "no_header": draw(st.booleans()), "named": draw(st.booleans()),
            "verbosity": draw(st.sampled_from([None, "-q", "-v", "--quiet"])),
            "name": draw(st.sampled_from(["mag.dat", "a.b.txt", "noext", "field-1.zdi"])),
            "preamble": draw(st.sampled_from([[], ["title"], ["General poloidal plus toroidal field", "135 3 -3"], ["", "a b c d"]]))}


def close(a, b):
    """a as read, b expected (before rounding to seven digits)."""
    return all(abs(x - y) <= 2e-6 * abs(y) + 1e-290 for x, y in ((a.real, b.real), (a.imag, b.imag)))


def labels(c):
    yield c["mode"]
    yield "named" if c["named"] else "default-name"
    yield "header-off" if c["no_header"] else "header-default"
    top = max(e[0] for e in c["c"])
    yield "degree:" + ("default" if c["degree_max"] is None else "padded" if c["degree_max"] > top else "truncated" if c["degree_max"] < top else "same")


def convert(argv):
    from starwinds_magnetogram.bin import convert_magnetogram
    sys.argv = ["sw-convert-magnetogram"] + argv
    convert_magnetogram.main()


@facet("commands", case, quick=400, thorough=25000, labels=labels,
       nontrivial=lambda c: len(c["c"]) > 1 and gen.nonzero_count(c["c"]) > 0)
def commands(c):
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        try:
            _commands(c)
        finally:
            os.chdir("/")


def _commands(c):
    values = gen.table(c["c"])
    values = {k: [complex(float("%.6e" % z.real), float("%.6e" % z.imag)) for z in v] for k, v in values.items()}
    blocks = [[(l, m, values[(l, m)][b].real, values[(l, m)][b].imag) for l, m in values] for b in range(c["k"])]
    write_input(c["name"], blocks, c["preamble"])
    with open(c["name"], "rb") as f:
        before = f.read()
    argv = [c["name"]]
    mode = c["mode"]
    default = os.path.splitext(c["name"])
    default = default[0] + ("_zdi" if mode in ("pfss2zdi", "chain") else "_wso") + default[1]
    out = "converted.out" if c["named"] else default
    if c["named"]:
        argv.append(out)
    if mode in ("pfss2zdi", "chain"):
        argv.append("--pfss-to-zdi")
    if mode == "plain":
        argv.append("--no-conversion")
    if c["degree_max"] is not None:
        argv += ["--degree-max", str(c["degree_max"])]
    if c["no_header"]:
        argv.append("--no-header")
    if c["verbosity"]:
        argv.append(c["verbosity"])
    convert(argv)
    files = {c["name"], out}
    require(set(os.listdir(".")) == files, "directory holds %s", sorted(os.listdir(".")))
    with open(c["name"], "rb") as f:
        require(f.read() == before, "the input file changed")
    header, got = parse(out)
    top = max(l for l, m in values) if c["degree_max"] is None else c["degree_max"]
    keys = [(l, m) for l in range(top + 1) for m in range(l + 1)]

    if mode in ("pfss2zdi", "chain"):
        require(len(got) == 3, "ZDI output has %d components", len(got))
        want = []
        for l, m in keys:
            a = values.get((l, m), [0j])[0] / factor(l, m)
            want.append((a, a * beta_factor(l), 0j))
    else:
        require(len(got) == 1, "PFSS output has %d components", len(got))
        want = [(values.get((l, m), [0j])[0] * (1 if mode == "plain" else factor(l, m)),) for l, m in keys]
    for b, block in enumerate(got):
        require(list(block) == keys, "component %d lists %s", b, list(block)[:6])
        for key, w in zip(keys, want):
            require(close(block[key], w[b]), "component %d element %s is %s, expected %s", b, key, block[key], w[b])
    swmf = any(line.split() == ["n", "m", "g", "h", "nOrder", "CR", "dLon"] for line in header)
    require(swmf == (mode not in ("pfss2zdi", "chain") and not c["no_header"]), "SWMF header %s", "present" if swmf else "absent")

    if mode == "chain":
        convert([out, "back.dat", "--no-header"])
        _, back = parse("back.dat")
        require(len(back) == 1 and list(back[0]) == keys, "chain lists %s", list(back[0])[:6])
        for key in keys:
            w = values.get(key, [0j])[0]
            require(close(back[0][key], w), "chain element %s is %s, expected %s", key, back[0][key], w)


@facet("rejects", lambda: st.fixed_dictionaries({
    "k": st.integers(2, 4), "mode": st.sampled_from(["--pfss-to-zdi", "--no-conversion"]), "named": st.booleans()}),
    quick=12, thorough=60)
def rejects(c):
    """A file with several components is not a PFSS file; nothing is written."""
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        try:
            write_input("in.dat", [[(1, 0, 1.0, 2.0), (1, 1, 3.0, 4.0)]] * c["k"], ["t"])
            try:
                convert(["in.dat"] + (["out.dat"] if c["named"] else []) + [c["mode"]])
            except Exception:
                require(os.listdir(".") == ["in.dat"], "a rejected input left %s", os.listdir("."))
            else:
                require(False, "a file with %d components was accepted as a PFSS file", c["k"])
        finally:
            os.chdir("/")
