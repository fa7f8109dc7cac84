"""Provision the hypothesis wheel (offline) next to the framework."""
import glob
import os
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
REPO = os.environ.get("VERIF_REPO", "/repo")


def _extract(dst):
    tag = "cp%d%d" % sys.version_info[:2]
    pats = [f"hypothesis-[0-9]*-{tag}-*.whl", "sortedcontainers-*.whl"]
    for pat in pats:
        found = sorted(glob.glob(os.path.join("/opt/veriftools/wheels", pat)))
        if not found:
            raise SystemExit(f"harness error: no wheel for {pat}")
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(dst)


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if not os.path.exists(os.path.join(DEPS, "hypothesis", "__init__.py")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        _extract(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            # somebody else was faster (or DEPS is half there): use our copy
            if not os.path.exists(
                os.path.join(DEPS, "hypothesis", "__init__.py")
            ):
                sys.path.insert(1, tmp)
                return
    sys.path.insert(1, DEPS)
