"""Make hypothesis importable next to the package's own interpreter (offline)."""
import glob
import os
import sys
import zipfile

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_WHEELS = "/opt/veriftools/wheels"


def enable_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    # A directory of our own holding only hypothesis and its pure python dependencies, so that nothing
    # else of the tool environment (numpy, scipy) can shadow what the package under test uses.
    target = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "hypsite")
    os.makedirs(target, exist_ok=True)
    found = False
    for name in ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals.py",
                 "_hypothesis_pytestplugin.py", "_hypothesis_ftz_detector.py"):
        src = os.path.join(_SITE, name)
        if os.path.exists(src):
            dst = os.path.join(target, name)
            if not os.path.lexists(dst):
                os.symlink(src, dst)
            found = found or name == "hypothesis"
    if not found:
        for pattern in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for wheel in glob.glob(os.path.join(_WHEELS, pattern)):
                with zipfile.ZipFile(wheel) as z:
                    z.extractall(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401
