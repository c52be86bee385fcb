#!/usr/bin/env python3
"""developer helper: seedcheck.py ID [check PROPERTY...]: confirms a planted bug in a scratch copy
of the repository (tests pass, the demonstration passes before and fails after) and optionally
runs checks against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def stable(repo):
    log = tempfile.mkdtemp()
    env = dict(os.environ)
    with open(log + "/test.json", "w") as f:
        subprocess.run("go test -json -vet=off -count=1 ./...", shell=True, cwd=repo, stdout=f, stderr=subprocess.DEVNULL, env=env)
    subprocess.run(["python3", "/opt/vp/results.py", log + "/o.json", f"gojson:{log}/test.json"], stdout=subprocess.DEVNULL)
    b, t = json.load(open("/opt/vp/BASELINE.json")), json.load(open(log + "/o.json"))
    g = lambda x: set(x.get("passed") or x.get("pass") or x.get("stable"))
    shutil.rmtree(log)
    return sorted(g(b) - g(t))
def main(sid, checks):
    d = os.environ.get("SEEDDIR", V + "/seeded") + "/" + sid
    work = tempfile.mkdtemp(prefix="seedchk-", dir="/tmp")
    repo = work + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    demo = work + "/demo"; os.makedirs(demo)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch", "meta.json")):
            shutil.copy(f"{d}/{f}", demo)
    ok = True
    try:
        r = subprocess.run(["bash", demo + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0: print(sid, "DEMO FAILS ON CLEAN:", r.stdout[-1500:]); ok = False
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0: print(sid, "PATCH:", r.stdout); return False
        r = subprocess.run("go build ./...", shell=True, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0: print(sid, "BUILD:", r.stdout); return False
        m = stable(repo)
        if m: print(sid, "TESTS BROKEN:", m[:10]); ok = False
        r = subprocess.run(["bash", demo + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0: print(sid, "DEMO PASSES WITH PATCH:", r.stdout[-1500:]); ok = False
        prop = json.load(open(d + "/meta.json"))["property"]
        FAM = {"P": ["P01", "P02", "P03", "P04", "P05", "D01"], "D": ["D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "P04", "A06"],
               "A": ["A01", "A02", "A03", "A04", "A05", "A06", "C02"], "S": ["S01", "S02", "S03", "A06"],
               "G": ["G01", "G02", "G03", "G04", "G05", "G06"], "C": ["C01", "C02", "C03", "A02", "G05"]}
        if checks == ["own"]: checks = [prop]
        if checks == ["family"]: checks = FAM[prop[0]]
        res = []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_MAX="2")
            r = subprocess.run(["./run.sh", c, os.environ.get("VERIF_TIER", "quick")], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
            res.append(f"{c}={'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout else 'missed(rc %d)' % r.returncode}")
            if os.environ.get("SHOW"): print(r.stdout[-3000:])
        rec = os.environ.get("CAUGHT", V + "/lib/caught.json")
        k = json.load(open(rec)) if os.path.exists(rec) else {}
        for x in res:
            c, v = x.split("=", 1)
            k.setdefault(sid, {})[c] = v == "CAUGHT"
        json.dump(k, open(rec, "w"), indent=1, sort_keys=True)
        print(sid, prop, "OK" if ok else "BAD", " ".join(res), flush=True)
    finally:
        shutil.rmtree(work)
    return ok
if __name__ == "__main__":
    ids = sys.argv[1].split(",") if sys.argv[1] != "all" else sorted(os.listdir(V + "/seeded"))
    for s in ids: main(s, sys.argv[2:])
