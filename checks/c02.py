"""C02: the reader against generated file layouts."""
import os
import re
import tempfile

import hypothesis.strategies as st
import numpy as np

from vlib import files, gen
from vlib.harness import HarnessError, facet, require

ORACLE = "files rendered from a generated table in random layouts, compared with that table"
RULE = ("A case is a text file built from k blocks of data lines (any within-block order) with generated indentation, separators, number "
        "notation, trailing columns, line ends, and arbitrary non-data lines in between. Non-trivial: the file has at least two data "
        "lines and at least one non-data line or unusual formatting.")
ASSUMPTIONS = ["a data line is one whose first four columns are two integers and two numbers; all other lines are not data",
               "every block lists the same degrees and orders"]

SEPARATORS = [" ", "  ", "     ", "\t", " \t "] * 3 + [" " * 45, " " * 400]
NOISE_WORDS = ["General", "poloidal", "plus", "toroidal", "field", "n", "m", "g", "h", "CR2077_GNG.dat", "#", "# 1 0 2.0 3.0",
               "Order:15", "0.0", "-3", "135", "1e3", "l=1", "1,", "(a)", "--"]


def notation(v, style):
    if style == "e":
        return "%.6e" % v
    if style == "E":
        return "%.8E" % v
    if style == "f":
        return "%.6f" % v
    if style == "plus":
        return "%+.4e" % v
    if style == "int":
        return "%d" % int(v)
    return repr(float(v))


def number(v, style):
    return ("%" + style + "d") % v


def is_data(line):
    """What the format defines as a data line, computed independently of the reader."""
    tokens = line.split()
    if len(tokens) < 4:
        return False
    try:
        int(tokens[0]), int(tokens[1]), float(tokens[2]), float(tokens[3])
    except ValueError:
        return False
    return True


@st.composite
def noise_line(draw):
    kind = draw(st.sampled_from(["blank", "spaces", "words", "counts", "swmf", "short", "floats", "text", "unicode", "long"]))
    if kind == "blank":
        return ""
    if kind == "spaces":
        return draw(st.sampled_from(["   ", "\t", " \t  "]))
    if kind == "counts":
        return draw(st.sampled_from(["135 3 -3", "496 1", "  496  1", "30 2077 0.0", "30  0  0.0", "15"]))
    if kind == "swmf":
        return draw(st.sampled_from(["0  0.0  -2  3  2", "n  m  g  h  nOrder  CR  dLon", "0    0.0    -2  3  2"]))
    if kind == "long":
        return draw(st.sampled_from(["General field ", "# ", "1.0 2 3 4 ", "x 1 0 2.0 3.0 "])) * draw(st.integers(10, 300))
    if kind == "short":
        return "%d %d %s" % (draw(st.integers(-3, 20)), draw(st.integers(-3, 20)), draw(st.sampled_from(["1.0", "-2e3", "x"])))
    if kind == "floats":
        return "%.1f %.1f 1.0 2.0" % (draw(st.floats(0, 9)), draw(st.floats(0, 9)))
    if kind == "unicode":
        return draw(st.sampled_from(["# \u03b5 Eri, \u2113max = 15", "\u00c5ngstr\u00f6m 1 2 3", "B\u1d63 \u2013 radial field", "\u661f 1 0 2 3", "\u00b12.5 G"]))
    if kind == "text":
        return draw(st.text(st.characters(codec="ascii", exclude_characters="\r\n\x0b\x0c\x1c\x1d\x1e\x85", min_codepoint=32), max_size=40))
    return " ".join(draw(st.lists(st.sampled_from(NOISE_WORDS), min_size=1, max_size=8)))


@st.composite
def case(draw):
    k = draw(st.integers(1, 4))
    pairs = draw(gen.lm_pairs(0, 15, draw(st.booleans()), 1, 15, 3))
    style = draw(st.sampled_from(["e", "E", "f", "plus", "int", "repr"]))
    value = st.one_of(gen.wide_float() if style in "eErepr" else gen.small_float(1e4), gen.small_float(1e3))
    lines, blocks = [], []
    integers = draw(st.sampled_from(["", "", "", "03", "+", "3"]))
    clean = draw(st.booleans())

    def noise(max_size):
        if clean:
            return
        for line in draw(st.lists(noise_line(), max_size=max_size)):
            if not is_data(line):
                lines.append(line)
    noise(4)
    for b in range(k):
        order = draw(st.permutations(pairs)) if draw(st.booleans()) else list(pairs)
        block = []
        for l, m in order:
            re, im = notation(draw(value), style), notation(draw(value), style)
            sep = draw(st.sampled_from(SEPARATORS))
            extra = draw(st.sampled_from(["", "", "", "", " 0", "\t7 8 9", " # comment", " x", " # " + "long comment " * 12, " " * 150 + "1", " 1.5" * 400])) if not clean else ""
            indent = draw(st.sampled_from(["", " ", "  ", "\t", "", " ", "  ", "\t", " " * 130]))
            lines.append(indent + sep.join([number(l, integers), number(m, integers), re, im]) + extra + ("" if clean else draw(st.sampled_from(["", " ", "\t"]))))
            block.append([l, m, float(re), float(im)])
            if not clean and draw(st.integers(0, 9)) == 0:
                noise(1)
        blocks.append(block)
        if b < k - 1 or draw(st.booleans()):
            lines.append("") if clean else noise(2)
    return {"lines": lines, "blocks": blocks, "eol": draw(st.sampled_from(["\n", "\n", "\r\n", "\r\n", "\r"])),
            "final_newline": draw(st.booleans()), "file": draw(files.names())}


def nontrivial(c):
    return len(c["blocks"]) * len(c["blocks"][0]) >= 2 and len(c["lines"]) > len(c["blocks"]) * len(c["blocks"][0])


def labels(c):
    yield "blocks=%d" % len(c["blocks"])
    yield {"\r\n": "crlf", "\n": "lf", "\r": "cr"}[c["eol"]]
    if any(e[1] < 0 for e in c["blocks"][0]):
        yield "negative-orders"
    orders = [tuple((e[0], e[1]) for e in b) for b in c["blocks"]]
    if len(set(orders)) > 1:
        yield "blocks-in-different-order"


EXAMPLE = {"lines": ["General poloidal plus toroidal field", "1 3 -3", "1  0 -2.375224e+02 -0.000000e+00", "",
                     "1  0 1 2", "", "1  0 -3 4e0"],
           "blocks": [[[1, 0, -237.5224, 0.0]], [[1, 0, 1.0, 2.0]], [[1, 0, -3.0, 4.0]]], "eol": "\n", "final_newline": True}


@facet("layouts", case, quick=600, thorough=50000, nontrivial=nontrivial, labels=labels, examples=[EXAMPLE])
def layouts(c):
    check(c)


@st.composite
def large_case(draw):
    return {"lmax": draw(st.integers(8, 40)), "lmin": draw(st.integers(0, 2)), "k": draw(st.integers(1, 4)), "negative": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)),
            "style": draw(st.sampled_from(["e", "E", "f", "repr"])), "eol": draw(st.sampled_from(["\n", "\r\n"])), "shuffle": draw(st.booleans()),
            "noise": draw(st.sampled_from([0, 0, 7, 100])), "final_newline": draw(st.booleans()), "blank": draw(st.integers(0, 3))}


@facet("large_files", large_case, quick=25, thorough=2000, nontrivial=lambda c: True, labels=lambda c: ["lines>=%d" % ((c["k"] * (c["lmax"] ** 2 // 2)) // 500 * 500)],
       examples=[{"lmax": top, "lmin": 0, "k": k, "negative": False, "seed": 3, "style": "e", "eol": "\n", "shuffle": False, "noise": noise, "final_newline": True, "blank": blank}
                 for top, k, noise, blank in ((30, 1, 0, 1), (30, 3, 0, 1), (60, 1, 0, 1), (12, 2, 7, 2), (12, 3, 0, 0), (12, 1, 0, 3), (70, 12, 0, 1))])
def large_files(c):
    """Files of hundreds or thousands of data lines."""
    rng = np.random.default_rng(c["seed"])
    lines, blocks = ["title", "%d %d -3" % (c["lmax"], c["k"])], []
    for b in range(c["k"]):
        rows = gen.full_set(1, c["lmin"], c["lmax"], c["negative"], c["seed"] + b, 100.0, False, c["shuffle"])
        block = []
        for i, (l, m, (re, im)) in enumerate(rows):
            re, im = notation(re, c["style"]), notation(im, c["style"])
            lines.append("%3d %3d %s  %s" % (l, m, re, im))
            block.append([l, m, float(re), float(im)])
            if c["noise"] and rng.integers(c["noise"]) == 0:
                lines += [["", "# comment", "135 3 -3", "n m g h"][int(rng.integers(4))]] * int(rng.integers(1, 4))
        blocks.append(block)
        lines += [""] * c.get("blank", 1)
    check({"lines": lines, "blocks": blocks, "eol": c["eol"], "final_newline": c["final_newline"]})


def check(c):
    from starwinds_magnetogram import reader_writer
    text = c["eol"].join(c["lines"]) + (c["eol"] if c["final_newline"] else "")
    with tempfile.TemporaryDirectory() as folder:
        file = c.get("file", {"name": "in.dat", "how": "text"})
        path = files.spell(folder, file["name"], file["how"])
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        back = reader_writer.read_magnetogram_file(path)
        again = reader_writer.read_magnetogram_file(path)
        with open(path, newline="", encoding="utf-8") as f:
            require(f.read() == text, "reading changed the file")
        # The same file with other values, of the same length.
        other = rewritten(c)
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(c["eol"].join(other["lines"]) + (c["eol"] if c["final_newline"] else ""))
        changed = reader_writer.read_magnetogram_file(path)
        os.chdir("/")
    compare(c, back)
    compare(other, changed)
    require(gen.same_snapshot(gen.snapshot(back), gen.snapshot(again)), "reading twice differs")


SWAP = str.maketrans("123456789", "987654321")


def rewritten(c):
    """The case with every digit in the third and fourth column of the data lines, except in exponents, replaced by another one."""
    lines, values, at = [], [], 0
    for line in c["lines"]:
        if is_data(line):
            parts = re.split(r"([ \t]+)", line)
            columns = [i for i, p in enumerate(parts) if p.strip()]
            row = []
            for i in columns[2:4]:
                head, e, exponent = parts[i].partition("e") if "e" in parts[i] else parts[i].partition("E")
                parts[i] = head.translate(SWAP) + e + exponent
                row.append(float(parts[i]))
            line = "".join(parts)
            values.append(row)
        lines.append(line)
    blocks = []
    for block in c["blocks"]:
        blocks.append([[l, m] + values[at + i] for i, (l, m, _, _) in enumerate(block)])
        at += len(block)
    if at != len(values):
        raise HarnessError("%d data lines, %d expected" % (len(values), at))
    return dict(c, lines=lines, blocks=blocks)


def compare(c, back):
    k = len(c["blocks"])
    require(back.default_coefficients.shape == (k,), "%d blocks gave components of shape %s", k, back.default_coefficients.shape)
    want = {}
    for b, block in enumerate(c["blocks"]):
        for l, m, re, im in block:
            want.setdefault((l, m), np.zeros(k, complex))[b] = re + 1j * im
    got = gen.contents(back)
    require(set(got) == set(want), "elements %s instead of %s", sorted(got), sorted(want))
    for key in want:
        require(np.array_equal(got[key], want[key]), "element %s: %s instead of %s", key, got[key], want[key])
    require(back.degree_max == max(l for l, m in want), "degree_max %d", back.degree_max)
