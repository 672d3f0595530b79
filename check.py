#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's tree."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))

import lib
import checks


def setup():
    """Parses every module of the specification and imports the driver."""
    import glob
    import subprocess
    for m in sorted(glob.glob(os.path.join(lib.SPEC, "*.tla"))):
        r = subprocess.run(["java", "-cp", lib.JARS, "tla2sany.SANY", os.path.basename(m)], cwd=lib.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            return 2
    return 0


def main():
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = lib.Run(prop, tier, seed)
    try:
        checks.CHECKS[prop](run)
        return lib.finish(run)
    except lib.Machinery as e:
        print("ERROR of the check of %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
