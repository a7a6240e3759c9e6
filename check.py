#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's working tree.

It builds the verifier (gvc), has it discharge every obligation the contracts in spec/ make
of the functions the property depends on, and writes evidence/ID.json. When an obligation is
not discharged it looks for an input that makes the real code break the property (replay/),
and reports a violation with or without one.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin"

# What of a property is not under contract, by function: it is checked by running the real code
# against the reference model, within bounds, and never counted as proved.
BOUNDED = json.load(open(os.path.join(VERIF, "bounded.json")))
# Properties of queries alone: their functions are all under contract.
NO_REPLAY = ("C03", "C04", "C05")


def env():
    e = dict(os.environ)
    home = "/root"
    e.update(HOME=home, PATH=GO + ":" + e.get("PATH", ""), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOWORK="off", GOENV="off", GOPATH=home + "/go", GOMODCACHE=home + "/go/pkg/mod",
             GOCACHE=e.get("VERIF_GOCACHE", home + "/.cache/go-build"), LC_ALL="C.UTF-8")
    return e


def run(cmd, timeout, cwd=None, extra=None):
    """Runs a command in a process group of its own, which is ended when time is up."""
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def known(prop):
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        m = re.match(r"finding: property=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def replay(prop, tmp, seed, budget):
    """Runs the real code against the reference model. Returns (found, text, stats)."""
    files = sorted(f for f in os.listdir(os.path.join(VERIF, "replay")) if f.endswith("_test.go"))
    overlay = {"Replace": {os.path.join(REPO, "internal/database/zz_verif_" + f): os.path.join(VERIF, "replay", f) for f in files}}
    ov = os.path.join(tmp, "overlay.json")
    json.dump(overlay, open(ov, "w"))
    binary = os.path.join(tmp, "replay.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binary]
    if prop == "C19":
        cmd.append("-race")
    rc, out = run(cmd + ["./internal/database"], 300, cwd=REPO)
    if rc != 0:
        return False, "the replay did not build:\n" + out, None
    rc, out = run([binary, "-test.run", "TestVerif$", "-test.timeout", "0"], budget + 200, cwd=tmp,
                  extra={"VERIF_PROP": prop, "VERIF_SEED": str(seed), "VERIF_BUDGET": str(budget)})
    m = re.search(r"VERIF-STATS (.*)", out)
    stats = dict((k, int(v)) for k, v in (x.split("=") for x in m.group(1).split())) if m else None
    if "VERIF-FOUND" in out:
        return True, out, stats
    if prop == "C19" and "WARNING: DATA RACE" in out:
        return True, out[:60000], stats
    if rc is None:
        return prop in ("C18", "C19"), "the real code does not come to an end:\n" + out[-20000:], stats
    if stats is None or rc != 0:
        # The code under test brought the process down (a fatal error cannot be recovered from).
        return bool(re.search(r"^(fatal error|panic):", out, re.M)) and prop in ("C18", "C19"), out[-60000:], stats
    return False, out, stats


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        sys.exit(decide(prop, tier, seed, t0, ev, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, t0, ev, tmp):
    gvc = os.path.join(tmp, "gvc")
    rc, out = run(["go", "build", "-o", gvc, "."], 300, cwd=os.path.join(VERIF, "gvc"))
    if rc != 0:
        print("the verifier does not build:\n" + out)
        return 2
    res = os.path.join(tmp, "out.json")
    secs = 60 if tier == "thorough" else 20
    cmd = [gvc, "-repo", REPO, "-spec", os.path.join(VERIF, "spec"), "-prop", prop, "-timeout", str(secs), "-maxfail", "3",
           "-out", res]
    rc, out = run(cmd, 520 if tier == "quick" else 3000, cwd=tmp)
    failed, fns, obls, discharged, inlined = [], [], 0, 0, set()
    backends, solver, covers = {}, 0.0, 0
    called = set()
    if rc in (0, 1) and os.path.exists(res):
        for f in json.load(open(res)) or []:
            fns.append(f["Name"])
            inlined.update(f.get("Inlined") or [])
            called.update(f.get("Called") or [])
            for o in f.get("Obls") or []:
                if o["Status"] == "proved" and o.get("Cover"):
                    covers += 1
                    continue
                obls += 1
                solver += o["Seconds"]
                if o["Status"] == "proved":
                    discharged += 1
                    b = o["Backend"] or "simplifier"
                    backends[b] = backends.get(b, 0) + 1
                else:
                    failed.append(o)
    else:
        failed.append({"Fn": "(all)", "Kind": "the verifier reads the program and its contracts in time", "Where": "", "Status": "failed",
                       "Detail": out[-6000:], "Query": ""})
        obls += 1
    if not fns and not failed:
        failed.append({"Fn": "(all)", "Kind": "the property has functions under contract", "Where": "", "Status": "failed", "Detail": "", "Query": ""})
    bounded = BOUNDED.get(prop, {})
    found, text, stats = False, "", None
    if failed or prop not in NO_REPLAY or tier == "thorough":
        budget = 150 if tier == "thorough" else (45 if failed else 12)
        found, text, stats = replay(prop, tmp, seed, budget)
        if found and not failed:
            failed.append({"Fn": ", ".join(bounded) or "(all)", "Kind": "the real code agrees with the reference model", "Where": "", "Status": "failed",
                           "Detail": "", "Query": ""})
            obls += 1
    findings = known(prop)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    trusted = [l.strip("- \n") for l in open(os.path.join(VERIF, "trusted.txt")) if l.strip()]
    cov = {
        "obligations": obls, "discharged": discharged,
        "checker_cmd": "gvc -prop %s -timeout %d (symbolic execution of the Go source; every obligation to z3/cvc5)" % (prop, secs),
        "trusted_base": trusted,
        "functions_under_contract": sorted(fns), "inlined_functions": sorted(inlined), "called_by_contract": sorted(called),
        "back_ends": backends, "solver_s": round(solver, 1), "reachability_checks": covers,
    }
    if bounded:
        cov["bounded"] = {"functions": bounded, "bound": "random histories of up to 24 requests over small pools, compared with a reference model, for a fixed time; not counted as proved",
                          "stats": stats or {}}
    elif stats:
        cov["replay"] = stats
    if failed:
        cov["failed"] = ["%s: %s at %s" % (o["Fn"], o["Kind"], o["Where"]) for o in failed][:20]
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 1)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations of %d functions, %d discharged, %.0f s" % (prop, obls, len(fns), discharged, time.time() - t0))
    if not failed:
        return 0
    path = os.path.join(ev, "replay-%s.txt" % prop)
    with open(path, "w") as f:
        f.write("property %s: obligations not discharged\n\n" % prop)
        for o in failed[:12]:
            f.write("%s: %s\n  at %s: %s %s\n" % (o["Fn"], o["Kind"], o["Where"], o["Status"], o.get("Detail") or ""))
        if found:
            f.write("\nthe real code breaks the property (replay with VERIF_PROP=%s VERIF_SEED=%d):\n%s\n" % (prop, seed, text))
        else:
            f.write("\nno failing input found:\n%s\n" % text[-4000:])
            for o in failed[:2]:
                f.write("\nthe verifier's query for %s (%s):\n%s\n" % (o["Fn"], o["Kind"], (o.get("Query") or "")[:200000]))
    for o in failed[:6]:
        print("  not discharged: %s: %s at %s" % (o["Fn"], o["Kind"], o["Where"]))
    m = re.search(r"VERIF-FOUND (.*)", text)
    if found:
        print("  " + (m.group(1) if m else "see the replay file")[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


main()
