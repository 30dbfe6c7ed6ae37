"""Builds the simulated world: seams first, then the library from the working tree."""
import os
import sys

REPO = os.environ.get("FF_REPO", "/repo")


def boot():
    import warnings

    warnings.simplefilter("ignore")
    import numpy  # noqa: F401

    from . import seams

    seams.install()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import scipy.stats  # noqa: F401

    seams.install_plotting()

    seams.load_library(REPO)
    # warm up lazy imports once, in the parent, so that every run starts equal
    import networkx.algorithms.planar_drawing  # noqa: F401

    from . import alternatives, common, core, env, ops, ref, sched  # noqa: F401

    seams.FF_CODES = env.ff_code_objects()
    env.prime()
    # forked runs share this memory: keep the collector from touching it
    import gc

    gc.collect()
    gc.freeze()
    return seams


def source_digest():
    """A digest of the library sources under test."""
    import hashlib

    h = hashlib.sha256()
    root = os.path.join(REPO, "src", "ff")
    for f in sorted(os.listdir(root)):
        if f.endswith(".py"):
            h.update(f.encode())
            with open(os.path.join(root, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]
