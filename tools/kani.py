"""The bit-precise back end: contracts in /verif/kani, discharged by Kani (CBMC)."""
import concurrent.futures as cf
import os
import re
import time

from config import VERIF

CRATE = os.path.join(VERIF, "kani", "Cargo.toml")
# Kani's own arithmetic checks that are not part of any contract: producing a NaN is
# defined behaviour
IGNORED = ("NaN on ",)


def cargo_kani(ck, run, env, args, timeout, target):
    return run(["cargo", "kani", "--lib", "--manifest-path", CRATE, "--target-dir", target,
                "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options",
                "-Z", "concrete-playback"] + args, timeout, env=env(), cwd=os.path.join(VERIF, "kani"))


def parse(out):
    """-> {harness: (failed checks, number of checks, seconds or None)}"""
    res, cur = {}, {}
    th = "-"
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?(.*)", line)
        if m.group(1) is not None:
            th = m.group(1)
        s = m.group(2)
        m = re.match(r"Checking harness (\S+?)\.\.\.", s)
        if m:
            cur[th] = m.group(1)
            res[cur[th]] = {"failed": [], "checks": 0, "secs": None, "ok": False, "timeout": False}
            continue
        if th not in cur:
            continue
        r = res[cur[th]]
        m = re.search(r"\*\* (\d+) of (\d+) failed", s)
        if m:
            r["checks"] = int(m.group(2))
        m = re.match(r"Failed Checks: (.*)", s)
        if m:
            r["failed"].append(m.group(1))
        if "VERIFICATION:- SUCCESSFUL" in s:
            r["ok"] = True
        if "timed out" in s.lower() or "timeout" in s.lower() or "out of memory" in s.lower():
            r["timeout"] = True
        m = re.match(r"Verification Time: ([\d.]+)s", s)
        if m:
            r["secs"] = float(m.group(1))
    return res


def playback(out):
    """the argument values of a counterexample, as integers in the order of the arguments"""
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S)
    if not m:
        return None
    vals = []
    for v in re.findall(r"^\s*vec!\[([\d, ]*)\]", m.group(1), re.M):
        b = [int(x) for x in v.split(",") if x.strip()]
        vals.append(int.from_bytes(bytes(b), "little"))
    return vals


def check(ck):
    import check as K
    log, run, env = K.log, K.run, K.env
    mod = ck.prop.lower()
    target = os.path.join(K.BUILD, "kani")
    per = 100 if ck.tier == "quick" else 900
    avail = max(60, K.left(ck.tier) - 120)
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run, ["cargo", "build", "-q", "--manifest-path", CRATE, "--target-dir", os.path.join(K.BUILD, "bits")],
                       300, env=env(RUSTFLAGS="-Awarnings"))
        fk = ex.submit(cargo_kani, ck, run, env, ["-j", "8", "--output-format", "terse", "--harness-timeout", "%ds" % per,
                                                  "--harness", mod + "::"], min(avail, 600 if ck.tier == "quick" else 3000), target)
        (rcb, ob, eb), (rck, ok, ek) = fb.result(), fk.result()
    binary = os.path.join(K.BUILD, "bits", "debug", "bits") if rcb == 0 else None
    res = parse(ok)
    log("kani:", len(res), "harnesses,", sum(r["ok"] for r in res.values()), "verified")
    names, covers = [], {}
    if binary:
        rc, out, err = run([binary, "list"], 20)
        for l in out.splitlines():
            p, n, c = l.split(" ", 2)
            if p == ck.prop:
                names.append(n)
                covers[n] = c
    else:
        ck.notes.append("the bit-precise contracts do not compile against the changed crate: " + eb[-400:])
        log("the bit-precise contracts do not compile against this crate")
    if not res:
        ck.notes.append("kani gave no result: " + (ek or ok)[-400:])
    state = {}
    for n in names:
        r = res.get(n + "::proof")
        bad = [f for f in r["failed"] if not f.startswith(IGNORED)] if r else []
        if r and (r["ok"] or (r["failed"] and not bad)):
            state[n] = "proved"
        elif bad:
            state[n] = "failed"
        else:
            state[n] = "undecided"
    secs = 30 if ck.tier == "quick" else 200
    nsmoke = 100000 if ck.tier == "quick" else 5000000

    def hunt(n):
        found, tried = None, 0
        late = ck.tier == "quick" and (shown or K.left(ck.tier) < 200)
        if state[n] == "failed" and not late:
            rc, out, err = cargo_kani(ck, run, env, ["--concrete-playback=print", "--harness-timeout", "%ds" % per, "--exact",
                                                     "--harness", n + "::proof"], 200, target + "-" + re.sub(r"\W+", "-", n))
            K.shutil.rmtree(target + "-" + re.sub(r"\W+", "-", n), ignore_errors=True)
            vals = playback(out)
            if vals is not None:
                rc, out2, err = run([binary, "replay", n] + [str(v) for v in vals], 20)
                if rc == 1:
                    found = ("kani's counterexample", out2.strip(), vals)
        if not found:
            big = state[n] != "proved"
            rc, out, err = run([binary, "search", n, str(ck.seed), str(10 ** 9 if big else nsmoke), str((3 if late else secs) if big else 5)], secs + 30)
            m = re.search(r"tried=(\d+)", out)
            tried = int(m.group(1)) if m else 0
            m = re.search(r"(FAILED .*)\nbits (.*)", out)
            if m:
                found = ("search", m.group(1), m.group(2).split())
        if found:
            shown.append(n)
        return n, found, tried

    runs, shown = {}, []
    if binary:
        with cf.ThreadPoolExecutor(4) as ex:
            for n, found, tried in ex.map(hunt, names):
                runs[n] = tried
                r = res.get(n + "::proof")
                body = "functions: %s\n" % covers[n]
                if r:
                    body += "kani: failed checks: %s\n" % (r["failed"] or "none")
                if found:
                    body += "failing input (%s): %s\nreplay: build/bits/debug/bits replay %s %s\n" % (
                        found[0], found[1], n, " ".join(str(v) for v in found[2]))
                    ck.violation(n, "postcondition of " + covers[n], body, True)
                elif state[n] == "failed":
                    ck.violation(n, "postcondition of " + covers[n], body, False)
                elif state[n] == "undecided":
                    ck.notes.append("%s: not decided by kani in time; bounded stand-in: no failing input among %d" % (n, tried))
    cov = ck.cov
    total = sum(max(r["checks"], 1) for r in res.values()) + sum(1 for n in names if n + "::proof" not in res)
    disc = sum(r["checks"] - len([f for f in r["failed"] if not f.startswith(IGNORED)]) for n, r in res.items()
               if state.get(n.replace("::proof", "")) == "proved")
    cov["obligations"] = cov.get("obligations", 0) + total
    cov["discharged"] = cov.get("discharged", 0) + disc
    cov.setdefault("checker_cmd", "python3 tools/check.py %s %s" % (ck.prop, ck.tier))
    import config as C
    cov["trusted_base"] = sorted(set(cov.get("trusted_base", []) + C.TRUSTED_KANI))
    cov["bit_precise_contracts"] = {n: {"covers": covers[n], "state": state[n], "checks": res.get(n + "::proof", {}).get("checks"),
                                        "seconds": res.get(n + "::proof", {}).get("secs"), "smoke_runs": runs.get(n)} for n in names}
    cov["functions_under_contract"] = sorted(set(cov.get("functions_under_contract", []) + [c for c in covers.values() if not c.startswith("bounded")]))
    b = cov.setdefault("obligations_by_back_end", {})
    b["kani/cbmc"] = disc
    s = cov.setdefault("solver_seconds_by_back_end", {})
    s["kani/cbmc"] = round(sum(r["secs"] or 0 for r in res.values()), 2)
    cov["bounded"] = cov.get("bounded", []) + [c for c in covers.values() if c.startswith("bounded")]
