"""Make Hypothesis importable by the engine's interpreter without network: unpack its wheel into .deps."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = os.environ.get("VERIF_WHEELS", "/opt/veriftools/wheels")


def ensure():
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        return DEPS
    tag = f"cp{sys.version_info.major}{sys.version_info.minor}"
    wheels = [w for w in glob.glob(os.path.join(WHEELS, "hypothesis-*.whl")) if f"-{tag}-{tag}" in w or "-none-any" in w]
    sc = glob.glob(os.path.join(WHEELS, "sortedcontainers-*.whl"))
    if not wheels or not sc:
        raise SystemExit("hypothesis / sortedcontainers wheel not found in " + WHEELS)
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
    for w in (sorted(wheels)[-1], sorted(sc)[-1]):
        with zipfile.ZipFile(w) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, DEPS)
    except OSError:  # somebody else was first
        shutil.rmtree(tmp, ignore_errors=True)
    return DEPS


if __name__ == "__main__":
    d = ensure()
    sys.path.insert(0, d)
    import hypothesis
    print("hypothesis", hypothesis.__version__, "in", d)
