#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from plants.py and confirms each in a scratch copy."""
import os, sys, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
out = os.path.join(here, "../../seeded")
common, rnd, sh = (open(os.path.join(here, f)).read() for f in ("common.go.txt", "random.go.txt", "demo.sh.txt"))
import importlib
P = []
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith("plants") and f.endswith(".py")):
    P += importlib.import_module(m).P
want = sys.argv[1:]
W = "/tmp/plantrepo"
if os.path.exists(W): shutil.rmtree(W)
subprocess.check_call(["cp", "-a", "/repo", W])
env = dict(os.environ)
def run(cmd, cwd, t=200):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd,str) else None)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
base = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]} if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
bad = 0
for p in P:
    if want and p["id"] not in want: continue
    if not want and os.path.exists(os.path.join(out, p["id"], "ok")): continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    msg = None
    for f, a, b, *k in p["edits"]:
        fn = os.path.join(W, f); s = open(fn).read()
        if s.count(a) != (k[0] if k else 1):
            msg = f"{f}: {s.count(a)} matches of {a[:60]!r}"; break
        open(fn, "w").write(s.replace(a, b))
    if msg: print(p["id"], "EDIT", msg); bad += 1; continue
    run(["gofmt", "-w"] + sorted({e[0] for e in p["edits"]}), W)
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    d = os.path.join(out, p["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    body = p["demo"]
    src = common + (rnd if "zzRandom" in body or "zzFailAfter" in body else "") + "\nfunc TestZZDemo(t *testing.T) {" + body + "}\n"
    open(d + "/demo_test.go", "w").write(src)
    open(d + "/demo.sh", "w").write(sh.replace("@FLAGS@ ", p["flags"] + " " if p["flags"] else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    run(["gofmt", "-w", d + "/demo_test.go"], W)
    E = ". /opt/vp/env.sh; "
    rc, o = run(E + "go vet . && go build ./... && go test -timeout 60s -count=1 ./... 2>&1 | tail -30; exit ${PIPESTATUS[0]}", W)
    if rc: print(p["id"], "TESTS", o[-300:]); bad += 1; shutil.rmtree(d); continue
    rc1, o1 = run(["bash", d + "/demo.sh"], W)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    rc0, o0 = run(["bash", d + "/demo.sh"], W)
    if rc1 == 0 or rc0 != 0 or "build failed" in o1 or "setup failed" in o1:
        print(p["id"], "DEMO patched", rc1, "clean", rc0, o1[-700:], o0[-700:]); bad += 1; shutil.rmtree(d); continue
    print(p["id"], "ok", flush=True)
shutil.rmtree(W)
sys.exit(bad)
