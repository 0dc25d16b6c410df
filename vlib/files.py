"""Ways to name a file."""
import os
import pathlib

import hypothesis.strategies as st

NAMES = ["out.dat", "out.dat", "my star.v2.dat", "no_extension", "\u03b5 Eri_\u2113m.txt", "30", "CR2077_GNG.dat", "a" * 120 + ".dat", "n m g h.dat", "-q.dat", "%s %d.dat", "a field of " + "long " * 30 + "name.dat"]


def names():
    """The name of a file and how its path is given."""
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "how": st.sampled_from(["text", "text", "path", "relative", "relative path", "dots"])})


def spell(folder, name, how):
    """The path of a file in the folder. Relative paths change the current directory to the folder."""
    if how.startswith("relative"):
        os.chdir(folder)
        return pathlib.Path(name) if how.endswith("path") else name
    if how == "dots":
        return os.path.join(folder, ".", "..", os.path.basename(folder), name)
    full = os.path.join(folder, name)
    return pathlib.Path(full) if how == "path" else full
