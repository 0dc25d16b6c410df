"""C05: the conversion command never overwrites its input or an existing default output."""
import math
import os
import sys
import tempfile

import hypothesis.strategies as st

from vlib.harness import facet, require

ORACLE = "sequences of conversions over a generated directory tree against a file-system model"
RULE = ("A case is a directory tree (sub-directories, a symbolic link to a file and to a directory) and 1-6 conversions; each names its input by one "
        "of several spellings, runs from one of several working directories, and gives an output (fresh, the input under another spelling, an existing other file) or none. "
        "A model predicts for each conversion whether it is refused and which single file appears. Non-trivial: several conversions, "
        "or one with a default or self-referring output.")
ASSUMPTIONS = ["POSIX paths and symbolic links", "an output name that is given explicitly may replace an existing file other than the input",
               "hard links are out of scope"]

NAMES = ["mag.dat", "a.b.txt", "noext", "x-1.zdi", ".hid.dat", "mag_wso.dat", "end_.dat", "under__", "mag_wso_wso.dat", "UP.DAT", "with space.dat"]
DIRS = [".", "sub", "sub/deep"]
MODES = {"zdi2pfss": ([], "_wso"), "pfss2zdi": (["--pfss-to-zdi"], "_zdi"), "plain": (["--no-conversion"], "_wso")}


@st.composite
def case(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(NAMES)), min_size=1, max_size=4, unique=True))
    existing = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.integers(0, len(files) - 1), st.sampled_from(["_wso", "_zdi"]), st.sampled_from(["file", "file", "empty", "folder", "link", "link-to-input"])), max_size=3))
    steps = draw(st.lists(st.fixed_dictionaries({
        "input": st.integers(0, len(files) - 1),
        "spelling": st.sampled_from(["relative", "absolute", "dotted", "filelink", "dirlink", "roundabout"]),
        "cwd": st.sampled_from(DIRS),
        "mode": st.sampled_from(sorted(MODES)),
        "output": st.sampled_from([None, None, None, "fresh", "self", "self", "other", "through-link"]),
        "self": st.sampled_from(["relative", "absolute", "dotted", "filelink", "dirlink", "roundabout"]),
        "other": st.integers(0, len(files) - 1),
    }), min_size=1, max_size=6))
    return {"files": files, "existing": existing, "steps": steps}


def spell(root, cwd, entry, how, index):
    """A path to files[index] as seen from cwd."""
    folder, name = entry
    absolute = os.path.normpath(os.path.join(root, folder, name))
    relative = os.path.relpath(absolute, os.path.normpath(os.path.join(root, cwd)))
    if how == "relative":
        return relative
    if how == "absolute":
        return absolute
    if how == "dotted":
        return "./" + relative
    if how == "filelink":
        return os.path.join(root, "links", "file%d.dat" % index)
    if how == "dirlink":
        return os.path.join(root, "links", "dir-" + folder.replace("/", "-").replace(".", "top"), name)
    head, tail = os.path.split(absolute)
    return os.path.join(head, "..", os.path.basename(head), tail)


def default_name(given, mode):
    stem, ext = os.path.splitext(os.path.basename(given))
    return stem + MODES[mode][1] + ext


def tree(root):
    out = {}
    for folder, dirs, names in os.walk(root):
        for name in names + [d for d in dirs if os.path.islink(os.path.join(folder, d))]:
            path = os.path.join(folder, name)
            if os.path.islink(path):
                out[path] = ("link", os.readlink(path))
            else:
                with open(path, "rb") as f:
                    out[path] = ("file", f.read())
    return out


def content(i):
    return "title %d\n" % i + "".join("%d %d %.6e %.6e\n" % (l, m, i + 1.5 * l - m, 0.25 * m + i) for l in range(1, 3) for m in range(l + 1))


def first_coefficient(text):
    for line in text.decode().splitlines():
        t = line.split()
        if len(t) == 4 and t[0] == "1" and t[1] == "0":
            try:
                return float(t[2])
            except ValueError:
                pass
    return None


def expected_first(before, mode):
    v = first_coefficient(before)
    f = math.sqrt(3 / (4 * math.pi))
    return v if v is None else v * {"plain": 1.0, "zdi2pfss": f, "pfss2zdi": 1 / f}[mode]


def labels(c):
    for s in c["steps"]:
        yield "output:%s" % s["output"]
        yield "mode:" + s["mode"]
        if s["output"] == "self":
            yield "self:" + s["self"]


def run(c):
    from starwinds_magnetogram.bin import convert_magnetogram
    with tempfile.TemporaryDirectory() as root:
        root = os.path.realpath(root)
        for d in DIRS + ["links"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for i, (folder, name) in enumerate(c["files"]):
            path = os.path.normpath(os.path.join(root, folder, name))
            with open(path, "w") as f:
                f.write(content(i))
            os.symlink(path, os.path.join(root, "links", "file%d.dat" % i))
        for folder in DIRS:
            os.symlink(os.path.normpath(os.path.join(root, folder)),
                       os.path.join(root, "links", "dir-" + folder.replace("/", "-").replace(".", "top")))
        for folder, i, postfix, *what in c["existing"]:
            stem, ext = os.path.splitext(c["files"][i][1])
            path = os.path.join(root, folder, stem + postfix + ext)
            if not os.path.exists(path):
                if what == ["folder"]:
                    os.mkdir(path)
                    continue
                if what and what[0].startswith("link"):
                    kept = os.path.join(root, "links", "precious.dat")
                    with open(kept, "w") as f:
                        f.write("precious\n" + content(9))
                    os.symlink(kept if what == ["link"] else os.path.normpath(os.path.join(root, *c["files"][i])), path)
                    continue
                with open(path, "w") as f:
                    f.write("" if what == ["empty"] else "precious\n" + content(9))
        single = {os.path.normpath(os.path.join(root, d, n)) for d, n in c["files"]}
        zdi_like = set()
        for k, s in enumerate(c["steps"]):
            entry = c["files"][s["input"]]
            cwd = os.path.normpath(os.path.join(root, s["cwd"]))
            given = spell(root, s["cwd"], entry, s["spelling"], s["input"])
            os.chdir(cwd)
            real_in = os.path.realpath(given)
            if s["output"] is None:
                out = None
                target = os.path.join(cwd, default_name(given, s["mode"]))
            elif s["output"] == "fresh":
                out = "fresh%d.out" % k
                target = os.path.join(cwd, out)
            elif s["output"] == "self":
                out = spell(root, s["cwd"], entry, s["self"], s["input"])
                target = real_in
            elif s["output"] == "through-link":
                out = os.path.join(root, "links", "file%d.dat" % s["other"])
                target = os.path.realpath(out)
            else:
                out = spell(root, s["cwd"], c["files"][s["other"]], "absolute", s["other"])
                target = os.path.realpath(out)
            refused = target == real_in or (out is None and os.path.exists(target))
            if real_in in zdi_like and s["mode"] != "zdi2pfss":
                refused = True
            before = tree(root)
            sys.argv = ["sw-convert-magnetogram", given] + ([out] if out is not None else []) + MODES[s["mode"]][0]
            error = None
            try:
                convert_magnetogram.main()
            except (Exception, SystemExit) as exc:
                error = exc
            os.chdir("/")
            after = tree(root)
            where = "step %d (%s, input %s, output %s, mode %s)" % (k, s["cwd"], given.replace(root, "ROOT"), out and out.replace(root, "ROOT"), s["mode"])
            if refused:
                require(error is not None, "%s was not refused", where)
                require(after == before, "%s was refused but changed %s", where,
                        [p.replace(root, "") for p in set(before) | set(after) if before.get(p) != after.get(p)])
                continue
            require(error is None, "%s failed: %r", where, error)
            changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
            require(changed <= {target}, "%s changed %s", where, sorted(p.replace(root, "") for p in changed))
            require(target in after, "%s did not create %s", where, target.replace(root, ""))
            require(after[target][0] == "file", "output is not a file")
            want = expected_first(before[real_in][1], s["mode"])
            have = first_coefficient(after[target][1])
            require(want is None or (have is not None and abs(have - want) <= 2e-6 * abs(want)),
                    "%s wrote %s, expected %s", where, have, want)
            zdi_like.discard(target)
            if s["mode"] == "pfss2zdi":
                zdi_like.add(target)


@facet("histories", case, quick=350, thorough=30000, labels=labels,
       nontrivial=lambda c: len(c["steps"]) > 1 or c["steps"][0]["output"] in (None, "self"),
       examples=[
           {"files": [[".", "mag.dat"]], "existing": [], "steps": [
               {"input": 0, "spelling": "relative", "cwd": ".", "mode": "zdi2pfss", "output": "self", "self": how, "other": 0}]}
           for how in ("relative", "absolute", "dotted", "filelink", "dirlink", "roundabout")] + [
           {"files": [[".", "mag.dat"]], "existing": [[".", 0, MODES[mode][1], what]], "steps": [
               {"input": 0, "spelling": "relative", "cwd": ".", "mode": mode, "output": None, "self": "relative", "other": 0}]}
           for mode in MODES for what in ("file", "empty", "folder", "link", "link-to-input")])
def histories(c):
    try:
        run(c)
    finally:
        os.chdir("/")
