#!/usr/bin/env python3
"""Runs checks against mutants in a scratch copy (/tmp/mut): which of the expected properties notice each one."""
import glob, os, subprocess, sys, time
here = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/mut"
muts = {}
def m(id, props, *edits):
    assert id not in muts, id
    muts[id] = (props.split(), edits)
for f in sorted(glob.glob(f"{here}/mutants_*.py")):
    exec(open(f).read())
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if "--setup" in sys.argv:
    sh(f"rm -rf /tmp/mut; mkdir -p {W}; cp -a /repo {W}/repo; cp -a /verif {W}/verif; rm -rf {W}/verif/seeded")
    sh(f"sed -i 's#\"/repo/#\"{W}/repo/#' {W}/verif/mc/Cargo.toml {W}/verif/st/Cargo.toml {W}/verif/ui/Cargo.toml")
    sys.argv.remove("--setup")
allp = "--all" in sys.argv
if allp: sys.argv.remove("--all")
check = "--apply" in sys.argv
if check: sys.argv.remove("--apply")
ids = [i for i in sys.argv[1:] if i in muts] or list(muts)
for i in ids:
    props, edits = muts[i]
    sh(f"git -C {W}/repo checkout -- .")
    ok = True
    for f, a, b in edits:
        t = open(f"{W}/repo/{f}").read()
        if t.count(a) != 1:
            print(f"{i}: {f}: {t.count(a)} matches"); ok = False; break
        open(f"{W}/repo/{f}", "w").write(t.replace(a, b))
    if not ok or check: continue
    if allp: props = [f"C{k:02}" for k in range(1, 21)]
    for p in props:
        t0 = time.time()
        r = sh(f"bash {W}/verif/check.sh {p} quick")
        open(f"{W}/{i}.{p}.log", "w").write(r.stdout + r.stderr)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        w = ["caught", "MISSED"][r.returncode == 0] if r.returncode in (0, 1) else f"ERROR {r.returncode}"
        print(f"{i:25} {p} {w} {time.time()-t0:.0f}s {v[0][:120] if v else ''}", flush=True)
sh(f"git -C {W}/repo checkout -- .")
