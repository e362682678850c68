"""Run one property's check:  /opt/venv/bin/python check.py C01 [--replay FILE]

Tier and seed come from VERIF_TIER and VERIF_SEED.  Nothing is random: the seed
is only recorded.
"""
import os
import sys

if os.environ.get("SRMISE_MC_CHILD") != "1":
    import shutil
    import subprocess
    import tempfile

    tmp = tempfile.mkdtemp(prefix="srmise-check-")
    env = dict(os.environ)
    for var in list(env):
        if var.startswith("PYTHON") or var.startswith("MPL"):
            del env[var]
    env.update(
        SRMISE_MC_CHILD="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        PYTHONWARNINGS="ignore",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(tmp, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TMPDIR=tmp,
    )
    os.makedirs(env["MPLCONFIGDIR"])
    try:
        rc = subprocess.call(["/opt/venv/bin/python"] + [os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")

import importlib
import json
import logging
import traceback


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        import numpy as np

        np.seterr(all="ignore")
        import diffpy.srmise

        src = os.path.dirname(os.path.abspath(diffpy.srmise.__file__))
        if not src.startswith("/repo/"):
            print("diffpy.srmise was imported from %s, not from /repo" % src)
            return 2
        import diffpy.srmise.srmiselog as srmiselog

        srmiselog.setlevel("critical")
        logging.raiseExceptions = False
        check = importlib.import_module("mc.checks.%s" % pid.lower()).CHECK
    except Exception:
        traceback.print_exc()
        return 2
    from mc import harness

    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        sc = [s for s in check.scenarios if s.name == rec["scenario"]][0]
        again = harness.run_case(check.id, sc, rec["case"], harness.Coverage())
        print(json.dumps(again, indent=1, default=str))
        return 1 if again else 0
    cov, bad, errors, wall = check.run(tier, seed)
    rc = check.report(tier, seed, cov, bad, wall)
    if errors:
        print("CHECK ERROR\n" + "\n".join(errors))
        return rc or 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
