#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property of the crate in /repo: builds the crate with its symbolic
scalar, explores every path of every contract of the property, and has the solvers
discharge every obligation; see DESIGN.md.  Exit 0: held.  Exit 1: VIOLATION line.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import config as C  # noqa: E402
import vc as VC     # noqa: E402
import lits         # noqa: E402
import lemmas       # noqa: E402
import verus        # noqa: E402

REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.update(kw)
    return e


def left(tier):
    """seconds this run may still take (a quick run has to end within 900)"""
    return max(0.0, T0 + (780 if tier == "quick" else 6000) - time.time())


def run(cmd, timeout, mem=None, **kw):
    """the command and everything it started has ended when this returns"""
    def limit():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         preexec_fn=limit, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        kill(p)
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            out, err = "", ""
        return -9, out, "timeout"
    finally:
        kill(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


# ------------------------------------------------------------------ builds ---
FLAVOURS = {
    "sym": "--cfg scarlet_verif",
    "f32": "",
    "f64": "--cfg scarlet_verif_f64",
}


def build(flavour, feature, harness=None, target=None):
    """-> (path of the binary or None, compiler messages)"""
    harness = harness or os.path.join(VERIF, "harness")
    target = target or os.path.join(BUILD, flavour)
    e = env(RUSTFLAGS=(FLAVOURS[flavour] + " -Awarnings").strip(),
            SCARLET_VERIF_SYM=os.path.join(VERIF, "engine", "sym.rs"))
    rc, out, err = run(["cargo", "build", "-q", "--message-format", "json", "--no-default-features",
                        "--features", feature, "--target-dir", target, "--manifest-path",
                        os.path.join(harness, "Cargo.toml")], 400, env=e)
    if rc != 0:
        return None, out + "\n" + err
    return os.path.join(target, "debug", "contracts"), ""


def build_other(flavour, feature):
    b, msg = build(flavour, feature)
    if b:
        return b, []
    # the changed code may mix the scalar type with float literals, or name f32; wrap
    # those in a scratch copy and try again
    return lits.build_wrapped(build, flavour, feature, msg, BUILD, log, REPO)


# ------------------------------------------------------- concrete execution ---
CLOSELY = "off by more than 64 times the effect of perturbing the input by 1e-11"


def parse_fail(out):
    """-> list of (clauses, {name: value})"""
    res = []
    for line in out.splitlines():
        if line.startswith("FAILED "):
            res.append((line[7:].split("; "), {}))
        elif line.startswith("  ") and "=" in line and res:
            k, v = line.strip().split("=", 1)
            res[-1][1][k] = v
    return res


def kv(m):
    return ["%s=%s" % (k, v) for k, v in m.items()]


def search(binary, contract, seed, n, secs, keep=3, given=None, how="search"):
    rc, out, err = run([binary, how, contract, str(seed), str(n), str(secs), str(keep)] + kv(given or {}), secs + 30)
    m = re.search(r"tried=(\d+) held=(\d+) rejected=(\d+) evaluated=(\d+) undecided=(\d+)", out)
    return parse_fail(out), tuple(int(x) for x in m.groups()) if m else None


def replay(binary, contract, values, how="replay"):
    rc, out, err = run([binary, how, contract] + kv(values), 30)
    f = parse_fail(out)
    if f:
        return "failed", f[0][0]
    return ("held" if rc == 0 else "rejected" if rc == 3 else "error"), []


def robust(binary, contract, values, seed):
    """does it fail around this input too? (an input where only rounding fails does not)"""
    rng = random.Random(seed)
    n = 0
    for _ in range(16):
        m = {}
        for k, v in values.items():
            try:
                x = float(v)
                m[k] = repr(x * (1 + rng.uniform(-1e-4, 1e-4)) if x else rng.uniform(-1e-4, 1e-4)) if "." in v or "e" in v else v
            except ValueError:
                m[k] = v
        n += replay(binary, contract, m)[0] == "failed"
    return n >= 12


# ------------------------------------------------------------------- check ---
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.conf = C.PROPS[prop]
        self.violations = []     # (contract, clause, replay file, confirmed)
        self.cov = {}
        self.notes = []
        self.assumptions = list(C.COMMON_ASSUMPTIONS) + list(self.conf.get("assumptions", []))
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(REPLAY, exist_ok=True)

    # -- reporting
    def violation(self, contract, clause, body, confirmed):
        safe = re.sub(r"[^A-Za-z0-9_]+", "-", contract)[:60]
        path = os.path.join(REPLAY, "%s-%s.txt" % (self.prop, safe))
        with open(path, "w") as f:
            f.write("property: %s\ncontract: %s\nobligation: %s\n" % (self.prop, contract, clause))
            f.write(body)
        self.violations.append((contract, clause, path, confirmed))
        log("violation:", contract, "-", clause, "" if confirmed else "(no failing input found)")

    def finish(self):
        cov = self.cov
        confirmed = [v for v in self.violations if v[3]]
        doc = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.conf["level"],
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
            "violations": len(self.violations),
        }
        if self.notes:
            cov["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        known = []
        if self.violations:
            fresh = []
            for v in self.violations:
                if C.known_finding(self.prop, v[0], v[1]):
                    known.append(v)
                else:
                    fresh.append(v)
            for v in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v[0], v[1]))
            self.violations = fresh
        if self.violations:
            confirmed = [v for v in self.violations if v[3]]
            v = (confirmed or self.violations)[0]
            print("VIOLATION property=%s replay=%s%s" % (self.prop, v[2], "" if v[3] else " no-failing-input-found"), flush=True)
            return 1
        log("held: %s obligations, %s discharged" % (cov.get("obligations"), cov.get("discharged")))
        return 0

    # -- the symbolic back end
    def symbolic(self):
        feature = self.conf["feature"]
        with cf.ThreadPoolExecutor(5) as ex:
            fl = ex.submit(lemmas.check, BUILD)
            fv = ex.submit(verus.check, self.conf["verus"], BUILD) if self.conf.get("verus") else None
            fs = ex.submit(build_other, "sym", feature)
            f32 = ex.submit(build, "f32", feature)
            f64 = ex.submit(build_other, "f64", feature)
            (bs, wrapped), (b32, m32), (b64, w64) = fs.result(), f32.result(), f64.result()
            self.lemmas = fl.result()
            self.verus = fv.result() if fv else None
        log("builds done")
        if wrapped:
            self.notes.append("float literals wrapped in a scratch copy to build the symbolic crate: " + "; ".join(wrapped[:8]))
        if not b32 and not b64:
            self.notes.append("the contracts do not compile against the changed crate: " + m32[-600:])
            log("the contracts do not compile against this crate")
        dumps, trouble = [], {}
        if bs:
            d = os.path.join(BUILD, "dump-" + self.prop)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            rc, out, err = run([bs, "dump", self.prop, d], 240, mem=20 << 30)
            for f in sorted(glob.glob(d + "/*.json")):
                try:
                    raw = open(f).read()
                    x = json.loads(raw)
                    x["hash"] = hashlib.sha256(raw.encode()).hexdigest()
                    dumps.append(x)
                except ValueError:
                    pass
            shutil.rmtree(d, ignore_errors=True)
            if rc != 0:
                self.notes.append("exploration ended early: " + (err or str(rc))[-300:])
        else:
            self.notes.append("the crate does not compile over the symbolic scalar")
        names = self.contract_names(b32 or b64, bs)
        for n in names:
            if n not in [x["contract"] for x in dumps]:
                trouble[n] = "no obligations generated"
        for x in dumps:
            if x["error"]:
                trouble[x["contract"]] = x["error"]
        log("dumped", len(dumps), "contracts,", sum(len(x["obligations"]) for x in dumps), "obligations")
        limit = 420 if self.tier == "quick" else 3000
        dr = VC.Driver(tier=self.tier, deadline=time.time() + limit)
        res = dr.prove([x for x in dumps], max_failed=3, max_unknown=6) if dumps else []
        log("proof:", dict((k, sum(r.status == k for r in res)) for k in ("proved", "failed", "unknown", "skipped")))
        known = C.proved_hashes()
        bad = {}
        for r in res:
            if r.status != "proved":
                bad.setdefault(r.contract, []).append(r)
        hashes = {x["contract"]: x["hash"] for x in dumps}
        for c in list(bad):
            if known.get(c) == hashes[c] and not any(r.status == "failed" for r in bad[c]):
                # exactly the obligations that were discharged when this framework was
                # committed: only time ran out on this machine
                self.notes.append("%s: %d obligations not discharged in time on this run (the same obligations as on the committed tree)" % (c, len(bad[c])))
                del bad[c]
        for c in list(bad):
            if all(r.status == "skipped" or r.backend == "deadline" for r in bad[c]):
                # nothing refuted, nothing that the solvers gave up on
                trouble.setdefault(c, "%d obligations not attempted in time" % len(bad[c]))
                del bad[c]
        self.res, self.dumps = res, dumps
        if os.environ.get("VERIF_RECORD"):
            # development only: remember which obligation sets were discharged
            rec = C.proved_hashes()
            for x in dumps:
                if x["contract"] not in bad and x["contract"] not in trouble:
                    rec[x["contract"]] = x["hash"]
            with open(os.path.join(VERIF, "tools", "proved.json"), "w") as f:
                json.dump(rec, f, indent=0, sort_keys=True)

        # concrete runs: failing inputs for what is not proved, a smoke run for the rest
        secs = 120 if self.tier == "quick" else 600
        n_smoke = 3000 if self.tier == "quick" else 60000
        runs = {}

        suspects = [c for c in names if c in bad or c in trouble]
        exact = {x["contract"] for x in dumps if x["mode"] == "Exact"}
        shown = []           # contracts with a failing input in both builds
        turns = -(-len(suspects) // 8)

        def budget(share):
            s = min(secs, 0.7 * left(self.tier) / max(1, turns)) * share
            return max(2, min(s, 5) if shown and self.tier == "quick" else s)

        def hunt(c):
            out = {"fails": [], "runs": []}
            rs = bad.get(c, [])
            suspect = c in suspects
            for r in [r for r in rs if r.model][:10]:
                m = {k: str(v) for k, v in r.model.items()}
                for kind, b in (("f32", b32), ("f64", b64)):
                    if not b:
                        continue
                    st, cl = replay(b, c, m)
                    if st == "failed":
                        out["fails"].append((kind, cl, m, "the verifier's counterexample"))
                if b64 and c in exact and not out["fails"]:
                    st, cl = replay(b64, c, m, "replay-close")
                    if st == "failed":
                        out["fails"].append(("f64", cl, m, "the verifier's counterexample, " + CLOSELY))
                if len(out["fails"]) > 1:
                    break
            given = next((r.model for r in rs if r.model), None) if suspect else None
            for kind, b in (("f64", b64), ("f32", b32)):
                if not b or out["fails"]:
                    continue
                n, s = (10 ** 7, budget(0.25 if given else 0.5)) if suspect else (n_smoke, 20)
                fs, st = search(b, c, self.seed, n, s)
                out["runs"].append((kind, st))
                out["fails"] += [(kind, cl, m, "random search") for cl, m in fs]
                if given and not fs:
                    fs, st = search(b, c, self.seed + 1, n, s, given={k: str(v) for k, v in given.items()})
                    out["runs"].append((kind, st))
                    out["fails"] += [(kind, cl, m, "search around the verifier's counterexample") for cl, m in fs]
            if suspect and not out["fails"] and b64 and c in exact:
                for g in ([given] if given else []) + [None]:
                    fs, st = search(b64, c, self.seed + 2, 10 ** 7, budget(0.25), given={k: str(v) for k, v in (g or {}).items()}, how="search-close")
                    out["runs"].append(("f64 close", st))
                    if fs:
                        out["fails"] += [("f64", cl, m, "search, " + CLOSELY) for cl, m in fs]
                        break
            if suspect and out["fails"]:
                kind, cl, m, how = out["fails"][0]
                other = b32 if kind == "f64" else b64
                if other and replay(other, c, m)[0] == "failed":
                    shown.append(c)
            return c, out

        with cf.ThreadPoolExecutor(8) as ex:
            for c, out in ex.map(hunt, suspects + [c for c in names if c not in suspects]):
                runs[c] = out
        log("concrete runs done")
        for c in names:
            self.judge(c, bad.get(c, []), trouble.get(c), runs[c], b32, b64)

        if self.verus:
            for n, (st, detail) in self.verus["functions"].items():
                if st == "failed" and not self.violations:
                    self.violation("verus_" + n, "contract of %s (any number of iterations)" % n,
                                   "verifier's output (Verus, on the text extracted from /repo, see tools/verus.py):\n" + detail, False)
                elif st not in ("proved", "failed"):
                    self.notes.append("%s: %s (%s); its loop is decided for bounded sizes only" % (n, st, detail[:300]))

        # evidence
        total = len(res)
        disc = sum(r.status == "proved" for r in res)
        ok = [x for x in dumps if x["contract"] not in bad and x["contract"] not in trouble]
        back = {}
        for r in res:
            if r.status == "proved":
                for k in r.backend.split("+"):
                    back[k] = back.get(k, 0) + 1
        funs = sorted({f.replace("f32: ", "") for x in dumps for f in x["covers"]
                       if not f.startswith(("bounded:", "f32: (", "("))})
        self.cov.update({
            "obligations": self.cov.get("obligations", 0) + total,
            "discharged": self.cov.get("discharged", 0) + disc,
            "checker_cmd": "python3 tools/check.py %s %s" % (self.prop, self.tier),
            "trusted_base": C.TRUSTED,
            "contracts": [x["contract"] for x in dumps],
            "contracts_fully_discharged": [x["contract"] for x in ok],
            "functions_under_contract": funs,
            "paths_explored": sum(x["paths"] for x in dumps),
            "obligations_by_back_end": back,
            "solver_seconds_by_back_end": {k: round(v, 2) for k, v in dr.secs.items()},
            "solver_queries": dr.queries,
            "background_lemmas": self.lemmas,
            "bounded": [f for x in dumps for f in x["covers"] if f.startswith("bounded:")][:1],
            "not_discharged": [{"contract": r.contract, "obligation": r.ob["name"], "path": r.ob["path"], "status": r.status} for r in res if r.status != "proved"][:20]
            + [{"contract": k, "obligation": "all", "status": v} for k, v in trouble.items()],
            "concrete_smoke_runs": {c: [{"build": k, "tried": s[0], "held": s[1], "clauses_evaluated": s[3]} for k, s in runs[c]["runs"] if s] for c in names},
        })

        if self.verus:
            v = self.verus
            every = all(st == "proved" for st, _ in v["functions"].values())
            cov = self.cov
            cov["unbounded_loops"] = {"functions": {n: st for n, (st, _) in v["functions"].items()}, "seconds": v.get("seconds"),
                                      "extraction": "bodies taken from the source on this run; headers, names of results and loop invariants added, callees by contract (tools/verus.py)"}
            cov["obligations"] += v["obligations"]
            cov["discharged"] += v["verified"]
            cov["obligations_by_back_end"]["verus"] = v["verified"]
            cov["solver_seconds_by_back_end"]["verus"] = v.get("seconds", 0)
            cov["trusted_base"] = cov["trusted_base"] + C.TRUSTED_VERUS
            cov["functions_under_contract"] = sorted(set(cov["functions_under_contract"]) | {n for n, (st, _) in v["functions"].items() if st == "proved"})
            if every:
                cov["also_checked_bounded"] = cov["bounded"]
                cov["bounded"] = []

    def contract_names(self, concrete, bs):
        b = concrete or bs
        if not b:
            return []
        rc, out, err = run([b, "list"], 20)
        return [l.split()[1] for l in out.splitlines() if l.split() and l.split()[0] == self.prop]

    def judge(self, c, rs, trouble, out, b32, b64):
        fails = out["fails"]
        body = ""
        for r in rs[:8]:
            body += "\nnot discharged: %s (path %d, %s): %s by %s %s\n" % (
                r.ob["name"], r.ob["path"], ",".join(r.ob["tags"]), r.status, r.backend, r.detail or "")
            if r.model:
                body += "  counterexample: %s\n" % r.model
        if trouble:
            body += "\n%s\n" % trouble
        suspect = bool(rs) or bool(trouble)
        good = []
        for kind, cl, m, how in fails:
            other = b32 if kind == "f64" else b64
            st, cl2 = replay(other, c, m) if other else ("none", [])
            good.append((kind, cl, m, how, st))
        pick = None
        both = [g for g in good if g[4] == "failed"]
        if both:
            pick = both[0]
        elif suspect and [g for g in good if g[0] == "f64"]:
            pick = [g for g in good if g[0] == "f64"][0]
        elif any(r.status == "failed" for r in rs) and good:
            pick = good[0]
        elif suspect or len(good) >= 3:
            # in the single precision build only
            pick = next((g for g in good if robust(b32, c, g[2], self.seed)), None)
        if pick:
            kind, cl, m, how, st = pick
            body += "\nfailing input (%s build, %s; other build: %s)\n" % (kind, how, st)
            body += "".join("  %s = %s\n" % (k, v) for k, v in m.items())
            body += "clauses that fail: %s\n" % "; ".join(cl)
            body += "replay: build/%s/debug/contracts %s %s %s\n" % (kind, "replay-close" if how.endswith(CLOSELY) else "replay", c, " ".join(kv(m)))
            self.violation(c, cl[0], body, True)
            return
        if good:
            self.notes.append("%s: %d inputs fail in one precision only; not counted" % (c, len(good)))
        if rs:
            self.violation(c, rs[0].ob["name"], body, False)
        elif trouble:
            self.notes.append("%s: not decided by proof (%s); bounded stand-in: no failing input in the concrete search" % (c, trouble))


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if prop not in C.PROPS:
        print("no such property", prop)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ck = Check(prop, tier)
    if ck.conf.get("feature"):
        ck.symbolic()
    if ck.conf.get("kani"):
        import kani
        kani.check(ck)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
