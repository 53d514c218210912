#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds_*.py (edits, demonstration, meta)."""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
REPO = "/repo"
seeds = {}
def seed(id, prop, edits, main, needs, breaks, files=None):
    assert id not in seeds
    seeds[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, files=files or {})
for f in sorted(glob.glob(f"{here}/seeds_*.py")):
    exec(open(f).read())
only = sys.argv[1:]
for id, s in seeds.items():
    if only and id not in only:
        continue
    d = f"{root}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    by = {}
    for f, a, b in s["edits"]:
        t = by.setdefault(f, subprocess.check_output(["git", "-C", REPO, "show", f"HEAD:{f}"], text=True))
        if t.count(a) != 1:
            sys.exit(f"{id}: {f}: {t.count(a)} matches of {a!r}")
        by[f] = t.replace(a, b)
    patch = ""
    with tempfile.TemporaryDirectory() as w:
        for f, t in by.items():
            for side, txt in (("a", subprocess.check_output(["git", "-C", REPO, "show", f"HEAD:{f}"], text=True)), ("b", t)):
                p = f"{w}/{side}/{f}"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(txt)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True)
            patch += r.stdout
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/main.rs", "w").write("mod sim;\n#[allow(unused_imports)]\nuse sim::*;\n" + s["main"].strip() + "\n")
    shutil.copy(f"{here}/sim.rs", d)
    shutil.copy(f"{here}/demo.sh", d)
    for n, t in s["files"].items():
        if t is None:
            continue
        open(f"{d}/{n}", "w").write(t)
    if "Cargo.lock" in s["files"]:
        shutil.copy(f"{root}/ui/Cargo.lock", d)
    elif "storage_features" not in s["files"]:
        shutil.copy(f"{here}/Cargo.lock", d)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(id)
