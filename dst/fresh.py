"""Runs described generator calls in a plain interpreter: no seam is installed."""
import json
import os
import pickle
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
src = os.path.join(os.environ.get("FF_REPO", "/repo"), "src")
sys.path.insert(0, src)


def main():
    job = json.loads(sys.stdin.read())
    import random
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    real = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.pycache_prefix = "/nonexistent-pycache"
    import ff
    import ff.ff_random_states

    assert os.path.realpath(ff.__file__).startswith(os.path.realpath(src)), ff.__file__

    def call(t):
        f = getattr(ff, t["op"], None) or getattr(ff.ff_random_states, t["op"])
        kw = dict(t["p"]["kw"])
        if t["p"]["seed"] is not None:
            kw["seed"] = t["p"]["seed"]
        try:
            return ("ok", f(t["p"]["n"], **kw))
        except Exception as e:  # noqa: BLE001
            return ("exc", repr(e))

    out = {"targets": [call(t) for t in job["targets"]]}
    np.random.seed(job["streams"][0])
    random.seed(job["streams"][1])
    out["unseeded"] = [call(t) for t in job["unseeded"]]
    with os.fdopen(real, "wb") as fh:
        pickle.dump(out, fh, protocol=4)


main()
