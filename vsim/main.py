import importlib
import os
import sys

from vsim import core, seams

seams.install()
import numpy  # noqa: E402
import pandas  # noqa: E402
import scipy.stats  # noqa: E402
import scipy.interpolate  # noqa: E402
import joblib  # noqa: E402

seams.install_numpy()
from vsim import chance  # noqa: E402

chance.install()
from vsim import ambient, loader  # noqa: E402

import logging  # noqa: E402

logging.disable(logging.CRITICAL)  # joblib reports every unreadable checkpoint
loader.install()
ambient.init()


def prop_of(pid):
    return importlib.import_module("vsim.props." + pid.lower())


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    args = list(argv)
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    if args[0] == "setup":  # nothing to build: the library and the harness are Python
        lib = loader.fresh()
        print("library: %s, python %s, numpy %s, pandas %s, joblib %s" % (
            lib.core.__file__, sys.version.split()[0], numpy.__version__, pandas.__version__, joblib.__version__))
        return 0
    if args[0] == "replay":
        import json

        with open(args[1]) as f:
            pid = json.load(f)["property"]
        prop = prop_of(pid)
        rep, r = core.replay_file(prop, args[1])
        if r.violation is None:
            print("replay: no violation")
            return 0
        print("replay: %s: %s" % r.violation)
        if rep.get("digest") and r.events and rep["mode"] == "scenario":
            print("digest %s (recorded %s)" % (r.digest(), rep["digest"]))
        if r.violation[0] != rep["cls"]:
            print("replay: another violation than recorded (%s)" % rep["cls"])
            return 2
        print("VIOLATION property=%s replay=%s" % (pid, args[1]))
        return 1
    if args[0] == "digests":  # digests PID lo hi: for the self test
        prop = prop_of(args[1])
        for i in range(int(args[2]), int(args[3])):
            r = core.run_one(prop, prop.generate(core.rng_for(seed, prop.PID, i), i, tier))
            print(i, r.digest(), r.violation)
        return 0
    if args[0] == "results":  # results PID FILE: digests of the results of the scenarios in FILE
        import json

        prop = prop_of(args[1])
        with open(args[2]) as f:
            for sc in json.load(f):
                r = core.run_one(prop, sc)
                print("RESULT", json.dumps([r.results, r.violation]))
        return 0
    if args[0] == "scenario":
        import json

        prop = prop_of(args[1])
        print(json.dumps(prop.generate(core.rng_for(seed, prop.PID, int(args[2])), int(args[2]), tier), indent=1))
        return 0
    return core.check(prop_of(args[0]), tier, seed)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
