#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] — run one property's check (see DESIGN.md)."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "PYTHONPATH": os.environ.get("VERIF_REPO", "/repo") + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "drivers")}
if os.environ.get("VERIF_STAGE2") != "1":
    env = dict(os.environ, VERIF_STAGE2="1", **WANT)
    os.execve(PY, [PY, "-W", "ignore"] + sys.argv, env)

import vkit  # noqa: E402

REG = json.load(open(os.path.join(VERIF, "lib", "registry.json")))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = None
    try:
        import pyvallocation

        if not os.path.abspath(pyvallocation.__file__).startswith(os.environ.get("VERIF_REPO", "/repo") + "/"):
            raise vkit.MachineryError("wrong copy of pyvallocation: " + pyvallocation.__file__)
        ctx = vkit.Ctx(prop, tier, seed)
        mod, fn = REG[prop].split(":")
        rc = getattr(importlib.import_module(mod), fn)(ctx)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        rc = 2
    finally:
        if ctx is not None:
            ctx.close()
    return rc


if __name__ == "__main__":
    import logging

    logging.disable(logging.CRITICAL)
    sys.exit(main())
