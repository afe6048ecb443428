#!/usr/bin/env python3
"""replay.py FILE - run a reported case again on /repo's current code and print what happens."""
import json, os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
if "case" not in r:
    print(json.dumps(r, indent=1)[:8000])
    sys.exit(0)
W = tempfile.mkdtemp(prefix="govc-replay-")
try:
    sh = """. /opt/vp/env.sh; set -e; cd %s/govc; go build -o %s/govc .; %s/govc -harness %s/h -harness-rt %s/harness >/dev/null""" % (VERIF, W, W, W, VERIF)
    subprocess.run(["bash", "-c", sh], check=True)
    cs = json.load(open(W + "/h/contracts.json"))
    t = [t for t in cs["targets"] if t["name"] == r["target"]][0]
    k = t["key"] if not t.get("closure") else (t["closure"].get("parent") or t["closure"].get("Parent"))
    d = [p["dir"] for p in json.load(open(W + "/h/packages.json")) if p["name"] == k.split(".")[0]][0]
    sh = """. /opt/vp/env.sh; set -e; cd %s; go test -vet=off -modfile %s/h/go.mod -overlay %s/h/overlay.json -c -o %s/t.test .; cd %s
HARNESS_OUT=%s/o.json HARNESS_CONTRACTS=%s/h/contracts.json HARNESS_TARGETS='%s' HARNESS_CASE=%d HARNESS_PROP=%s ./t.test -test.run TestGovcHarness >/dev/null""" % (d, W, W, W, W, W, W, r["target"], r["case"], r["property"])
    subprocess.run(["bash", "-c", sh])
    bad = False
    for x in json.load(open(W + "/o.json")) or []:
        for f in x["failures"] or []:
            bad = True
            print("%s: %s\n  %s\n%s" % (f["target"], f["label"], f["clause"], f["detail"]))
    print("reproduced" if bad else "not reproduced")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(W, ignore_errors=True)
