#!/usr/bin/env python3
"""Build the harness (and the CLI with the fake database driver) against the repository's working tree.

Nothing is written in the repository: the harness sources are laid into the
module through a build overlay."""
import glob, json, os, shutil, subprocess, sys

repo, verif, out, pid = sys.argv[1:5]
NEED_CLI = pid[0] in "AGSC" or pid in ("P01",)
RACE = pid in ("D06",)

def sh(args, **kw):
    r = subprocess.run(args, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        sys.exit(1)

def modcopy():
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(repo, f), os.path.join(out, f))
    return os.path.join(out, "go.mod")

mod = modcopy()
replace = {}
for f in glob.glob(os.path.join(verif, "harness", "*.go")):
    replace[os.path.join(repo, "verifharness", os.path.basename(f))] = f
ov = os.path.join(out, "overlay.json")
json.dump({"Replace": replace}, open(ov, "w"))
env = dict(os.environ)
cmd = ["go", "build", "-modfile=" + mod, "-overlay", ov]
if RACE:
    cmd.append("-race")
sh(cmd + ["-o", os.path.join(out, "harness"), "./verifharness"], env=env)

if NEED_CLI:
    r2 = {os.path.join(repo, "pkg/ddlctl/import.go"): os.path.join(verif, "fakedriver", "import.go"),
          os.path.join(repo, "pkg/ddlctl/fakedriver_verif.go"): os.path.join(verif, "fakedriver", "driver.go")}
    ov2 = os.path.join(out, "overlay2.json")
    json.dump({"Replace": r2}, open(ov2, "w"))
    sh(["go", "build", "-modfile=" + mod, "-overlay", ov2, "-o", os.path.join(out, "ddlctl"), "./cmd/ddlctl"], env=env)
