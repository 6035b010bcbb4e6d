"""The mathematical facts that tools/vc.py hands to the solvers, discharged by Rocq.

They do not depend on /repo; a failure here (Rocq missing, say) never raises an alarm, it
only moves the facts back to the list of assumptions.
"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import time

from config import VERIF

FILES = {
    "Rounding.v": "IEEE-754 round to nearest even with gradual underflow, next_up, next_down (tools/vc.py: round_axioms)",
    "Trig.v": "monotone and turning arcs of sin and cos, sign of tan (harness lemmas)",
    "Inverse.v": "asin, acos, atan, atan2, bounds of pi (tools/vc.py: fun_axioms, t_pi)",
}


def one(name, build):
    d = os.path.join(build, "coq-" + name[:-2])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(VERIF, "coq", name)
    shutil.copy(src, d)
    t = time.time()
    try:
        p = subprocess.run(["coqc", name], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        ok = p.returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        ok = False
    shutil.rmtree(d, ignore_errors=True)
    text = open(src).read()
    names = re.findall(r"^Theorem (\w+)", text, re.M)
    if re.search(r"\b(Admitted|Axiom|admit)\b", text):
        ok = False
    return {"file": "coq/" + name, "about": FILES[name], "theorems": len(names), "discharged": ok, "seconds": round(time.time() - t, 1)}


def check(build):
    with cf.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda n: one(n, build), FILES))
