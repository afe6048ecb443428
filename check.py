#!/usr/bin/env python3
"""check.py PROPERTY  - decide one property for /repo's current working tree.

1. builds govc (the deductive verifier in /verif/govc) and generates every obligation of the contracts
   that carry the property from /repo's current source;
2. discharges them (z3, cvc5);
3. evaluates the same contracts against the running code (go test -overlay) on random states: this decides the
   clauses marked bounded, and searches a failing input when an obligation is not discharged.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SEED0 = SEED
T0 = time.time()
THOROUGH = TIER == "thorough"

def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    return e

ENV = env()
W = tempfile.mkdtemp(prefix="govc-%s-" % PROP)
EVD = os.path.join(VERIF, "evidence")
RPD = os.path.join(EVD, "replay")
os.makedirs(RPD, exist_ok=True)

def run(cmd, timeout, cwd=VERIF, extra=None):
    e = dict(ENV)
    if extra:
        e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "timeout\n" + str(x.stdout)[-2000:]

def known():
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) target=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m:
                out.append(m.groups())
    return out

def finish(code):
    shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def replay_file(n, data):
    f = os.path.join(RPD, "%s-%d.json" % (PROP, n))
    json.dump(data, open(f, "w"), indent=1)
    return f

def evidence(res, har, viol, notes):
    ob = [o for t in res.get("targets", []) for o in t.get("obligations") or []]
    obl = len(ob)
    dis = sum(1 for o in ob if o["status"] == "unsat")
    solvers = {}
    for o in ob:
        if o["status"] == "unsat":
            solvers[o["solver"] or "simplifier"] = solvers.get(o["solver"] or "simplifier", 0) + 1
    by_kind = {}
    for o in ob:
        by_kind[o["kind"]] = by_kind.get(o["kind"], 0) + 1
    bounded = []
    for t in res.get("targets", []):
        for l in t.get("bounded") or []:
            h = har.get(t["name"])
            st = (h or {}).get("clauses", {}).get(l)
            if st:
                bounded.append({"function": t["name"], "clause": l, "cases": st["evals"], "cases_with_premise_true": st["hits"]})
    trusted = ["govc: VC generation from go/ssa of /repo's current source (/verif/govc)", "z3, cvc5 (unsat answers)", "golang.org/x/tools go/packages, go/ssa (parsing, type checking, SSA)"]
    trusted += ["assumed: " + x for x in res.get("trusted") or []]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "govc -prop %s -hints /verif/hints.json -plans /verif/plans.json (built from /verif/govc; obligations regenerated from /repo)" % PROP,
        "trusted_base": trusted,
        "obligations_by_kind": by_kind, "discharged_by": solvers,
        "solver_ms": res.get("solver_ms", 0), "solver_calls": res.get("solver_calls", 0),
        "functions_under_contract": [{"function": t["name"], "file": os.path.relpath(t["file"], REPO) if t.get("file") else "", "carries_property": t.get("direct", False), "obligations": len(t.get("obligations") or []), "loop_invariants": t.get("loop_invariants", 0), "inlined": t.get("inlined") or []} for t in res.get("targets", [])],
        "external_calls_modelled": res.get("external") or [],
        "bounded_clauses": bounded,
        "contract_evaluations_on_running_code": {k: {"cases": v["cases"], "rejected": v["rejected"]} for k, v in har.items()},
    }
    level = "proof"
    if bounded:
        level = "other"
        cov["explanation"] = ("Contracts are proved for all inputs except the %d clause(s) listed under bounded_clauses, which are only evaluated on the listed number of random cases "
                              "(at most 6 players, 3 tables, 4 blind levels) and are not counted among the obligations." % len(bounded))
    if not ob and not bounded:
        level = "other"
        cov["explanation"] = "no obligation was generated"
    json.dump({
        "property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED0, "level": level, "coverage": cov,
        "assumptions": sorted(set((res.get("notes") or []) + notes)),
        "wall_s": round(time.time() - T0, 2), "violations": viol}, open(os.path.join(EVD, PROP + ".json"), "w"), indent=1)

def main():
    govc = os.path.join(W, "govc")
    rc, out = run(["go", "build", "-o", govc, "."], 300, cwd=os.path.join(VERIF, "govc"))
    if rc != 0:
        print("cannot build govc:\n" + out)
        finish(2)
    rc, out = run(["go", "build", "./..."], 300, cwd=REPO)
    if rc != 0:
        print("/repo does not build:\n" + out)
        finish(2)
    proof = {}
    def prove():
        cmd = [govc, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-prop", PROP, "-hints", os.path.join(VERIF, "hints.json"), "-plans", os.path.join(VERIF, "plans.json"), "-budget", "420s" if not THOROUGH else "700s", "-out", os.path.join(W, "r.json"), "-dump", os.path.join(W, "dump")]
        lf = open(os.path.join(W, "prove.log"), "w")
        p = subprocess.Popen(cmd, cwd=VERIF, env=ENV, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        proof["p"] = p
        try:
            proof["rc"] = p.wait(760)
        except subprocess.TimeoutExpired:
            stop()
            proof["rc"] = 124
        proof["out"] = open(os.path.join(W, "prove.log")).read()
    def stop():
        try:
            os.killpg(proof["p"].pid, 9)
        except Exception:
            pass
    th = threading.Thread(target=prove)
    th.start()
    # the harness is compiled meanwhile
    H = os.path.join(W, "h")
    notes = []
    hpk = {}
    rc, out = run([govc, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-harness", H, "-harness-rt", os.path.join(VERIF, "harness")], 120)
    contracts = None
    if rc != 0:
        notes.append("the run-time harness could not be generated: " + out[-500:])
    else:
        contracts = json.load(open(os.path.join(H, "contracts.json")))
        need = set()
        for t in contracts["targets"]:
            if PROP in (t.get("props") or []) or any(PROP in (c.get("props") or []) for c in t["ensures"] or []):
                k = t["key"]
                if t.get("closure"):
                    k = t["closure"]["parent"] if "parent" in t["closure"] else t["closure"]["Parent"]
                need.add(k.split(".")[0])
        for p in json.load(open(os.path.join(H, "packages.json"))):
            if p["name"] in need:
                b = os.path.join(H, p["name"] + ".test")
                rc, out = run(["go", "test", "-vet=off", "-modfile", os.path.join(H, "go.mod"), "-overlay", os.path.join(H, "overlay.json"), "-c", "-o", b, "."], 300, cwd=p["dir"])
                if rc != 0:
                    notes.append("the run-time harness of %s does not compile: %s" % (p["name"], out[-500:]))
                else:
                    hpk[p["name"]] = b
    def pkgof(t):
        k = t["key"]
        if t.get("closure"):
            k = t["closure"].get("parent") or t["closure"].get("Parent")
        return k.split(".")[0]
    tgts = {t["name"]: t for t in (contracts or {"targets": []})["targets"]}
    mine = [n for n, t in tgts.items() if PROP in (t.get("props") or []) or any(PROP in (c.get("props") or []) for c in t["ensures"] or [])]
    har = {}
    lock = threading.Lock()
    def harness(names, cases, ms, prop=PROP, par=3):
        jobs = []
        for n in names:
            if n in tgts and pkgof(tgts[n]) in hpk and not tgts[n].get("assumed"):
                jobs.append(n)
        def work(n):
            o = os.path.join(W, "h-%s.json" % re.sub(r"\W", "_", n))
            rc, out = run([hpk[pkgof(tgts[n])], "-test.run", "TestGovcHarness", "-test.timeout", "800s"], ms / 1000 + 60, cwd=W, extra={
                "HARNESS_OUT": o, "HARNESS_CONTRACTS": os.path.join(H, "contracts.json"), "HARNESS_TARGETS": n, "HARNESS_CASES": str(cases), "HARNESS_MS": str(ms), "HARNESS_PROP": prop, "HARNESS_SEED": str(SEED)})
            try:
                rs = json.load(open(o)) or []
            except Exception:
                rs = []
                notes.append("the harness gave no result for %s: %s" % (n, out[-400:]))
            with lock:
                for r in rs:
                    old = har.get(r["target"])
                    if old and not r["failures"]:
                        r["failures"] = old["failures"]
                    har[r["target"]] = r
        sem = threading.Semaphore(par)
        ths = []
        def w2(n):
            with sem:
                work(n)
        for n in jobs:
            t = threading.Thread(target=w2, args=(n,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
    harness(mine, 100000 if THOROUGH else 3000, 60000 if THOROUGH else 6000)
    # a proof search that takes unusually long is a sign of a failed obligation: look for a failing input meanwhile
    th.join(max(0, 75 - (time.time() - T0)))
    rnd = 0
    while th.is_alive() and not THOROUGH and not any(r.get("failures") for r in har.values()) and time.time() - T0 < 560:
        rnd += 1
        globals()["SEED"] = SEED + 1000
        harness(mine, 10**7, 15000)
    # a failing input on the running code settles the answer; the proof search is not waited for beyond a minute
    if any(r.get("failures") for r in har.values()):
        th.join(60)
        if th.is_alive():
            notes.append("the proof search was stopped: the running code already violates a clause")
            stop()
    th.join()
    try:
        res = json.load(open(os.path.join(W, "r.json")))
    except Exception:
        res = {"targets": [], "notes": ["govc: " + proof.get("out", "")[-800:]]}
    viol = []  # (target, label, kind, text, confirmed, extra)
    def confirmed():
        out = []
        for n, r in har.items():
            for f in r.get("failures") or []:
                out.append(f)
        return out
    failed = []
    present = 0
    for t in res["targets"]:
        if t.get("error"):
            if "not found" in t["error"]:
                notes.append("not in the code, skipped: " + t["name"])
                continue
            failed.append((t["name"], {"kind": "unsupported", "label": t["error"][:300], "status": "error", "pos": ""}))
        if t.get("direct"):
            present += 1
        for o in t.get("failed") or []:
            failed.append((t["name"], o))
        if t.get("vacuity") == "unsat":
            failed.append((t["name"], {"kind": "vacuity", "label": "the precondition is contradictory", "status": "unsat", "pos": ""}))
    if present == 0:
        failed.append(("-", {"kind": "missing", "label": "no function under contract for this property was verified: " + " ".join(res.get("notes") or [])[:600] + proof.get("out", "")[-300:], "status": "missing", "pos": ""}))
    if failed and not confirmed():
        names = list(dict.fromkeys([n for n, _ in failed] + mine))
        left = 780 - (time.time() - T0)
        per = max(10, min(90, left * 0.8 * 3 / max(1, len(names))))
        globals()["SEED"] = SEED + 7
        harness(names, 10**7, int(per * 1000), prop=PROP)
    kn = known()
    n = 0
    printed = []
    nviol = 0
    def is_known(target, label):
        for p, t, l, text in kn:
            if p == PROP and t == target and l == label:
                return text
        return None
    kf = set()
    fs = confirmed()
    for f in fs:
        text = is_known(f["target"], f["label"])
        if text:
            kf.add(text)
            continue
        n += 1
        nviol += 1
        p = replay_file(n, {"property": PROP, "target": f["target"], "violated": f["label"], "clause": f["clause"], "case": f["case"], "confirmed_on_the_running_code": True,
                            "replay_cmd": "python3 /verif/replay.py " + os.path.join(RPD, "%s-%d.json" % (PROP, n)),
                            "detail": f["detail"], "failed_obligations": [dict(o, function=t) for t, o in failed][:20]})
        printed.append("VIOLATION property=%s replay=%s" % (PROP, p))
        print("%s: %s violates: %s" % (PROP, f["target"], f["label"]))
    if failed and not fs:
        un = [(t, o) for t, o in failed if not is_known(t, o["label"])]
        for t, o in failed:
            if is_known(t, o["label"]):
                kf.add(is_known(t, o["label"]))
        if un:
            n += 1
            nviol += 1
            dump = {}
            p = replay_file(n, {"property": PROP, "failed_obligations": [dict(o, function=t) for t, o in un], "confirmed_on_the_running_code": False, "verifier_output": proof.get("out", "")[-6000:],
                                "searched": {k: v["cases"] for k, v in har.items()}})
            for t, o in un[:10]:
                print("%s: not discharged: %s: %s %s %s [%s]" % (PROP, t, o["kind"], o.get("pos", ""), o["label"], o["status"]))
            printed.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, p))
    for t in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (PROP, t))
    evidence(res, har, nviol, notes)
    tot = sum(len(t.get("obligations") or []) for t in res["targets"])
    print("%s: %d functions, %d obligations, %d not discharged; %d contract evaluations on the running code; %.1f s" % (PROP, len(res["targets"]), tot, len(failed), sum(r["cases"] for r in har.values()), time.time() - T0))
    for x in notes:
        print("note:", x)
    for l in printed:
        print(l)
    finish(1 if nviol else 0)

try:
    main()
except SystemExit:
    raise
except BaseException as x:
    import traceback
    traceback.print_exc()
    finish(2)
