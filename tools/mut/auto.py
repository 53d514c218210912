#!/usr/bin/env python3
"""Single-token mutants of the core files, in the scratch copy /tmp/mut (made by run.py --setup).
auto.py list | auto.py run 3 7-12 ... : which check, if any, notices each mutant."""
import os, re, subprocess, sys, time
W = "/tmp/mut"
S = "omnipaxos/src/"
FILES = {
    S + "sequence_paxos/leader.rs": "C17 C10 C01 C05 C08 C13 C12 C07",
    S + "sequence_paxos/follower.rs": "C17 C10 C01 C13 C06 C05 C04",
    S + "sequence_paxos/mod.rs": "C17 C10 C08 C07 C05 C01 C18",
    S + "util.rs": "C10 C17 C12 C08 C01 C13 C20",
    S + "storage/internal_storage.rs": "C09 C17 C13 C05 C07 C08 C10 C06 C02",
    S + "storage/state_cache.rs": "C13 C17 C05 C09",
    S + "ballot_leader_election.rs": "C11 C20 C04",
    S + "omni_paxos.rs": "C18 C11 C09 C20 C10 C13 C17",
    "omnipaxos_ui/src/lib.rs": "C21",
    "omnipaxos_ui/src/app.rs": "C21",
    "omnipaxos_ui/src/render.rs": "C21",
    "omnipaxos_ui/src/util.rs": "C21",
    "omnipaxos_storage/src/memory_storage.rs": "C14",
    "omnipaxos_storage/src/persistent_storage.rs": "C14 C15",
}
def muts():
    out = []
    for f, props in FILES.items():
        lines = open(f"/repo/{f}").read().split("\n")
        skip = 0
        depth = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub fn") or s.startswith("fn ") or "pub(crate) fn" in s:
                continue
            # log statements span until ';'
            if re.match(r"(debug|trace|info|warn)!\(", s) or skip:
                skip = 0 if s.endswith(";") else 1
                continue
            if "valid_config!" in s or "assert" in s: pass
            c = []
            for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), ("true", "false"), ("false", "true"), (".max(", ".min("), (".min(", ".max("), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("if !", "if "), ("Some(idx)", "Some(idx + 1)")]:
                for m in re.finditer(re.escape(a), l):
                    if a in ("true", "false") and re.match(r"\w", l[m.end():m.end()+1] or " "): continue
                    c.append((l[:m.start()] + b + l[m.end():], f"{a.strip()}->{b.strip()}"))
            if s.endswith(";") and re.match(r"(self|paxos|ble|sync_txn|entries|let _ =|buffer)[. ]", s) and s.count("(") == s.count(")") and not s.startswith("self.0"):
                c.append((re.match(r"\s*", l).group() + "{}", "delete"))
            for n, w in c:
                out.append((f, i, n, w, props))
    return out
M = muts()
if sys.argv[1] == "list":
    for k, (f, i, n, w, p) in enumerate(M): print(k, f.split("/")[-1], i + 1, w, "|", n.strip()[:110])
    sys.exit()
def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)
ks = [k for a in sys.argv[2:] for k in (range(int(a.split('-')[0]), int(a.split('-')[1]) + 1) if '-' in a else [int(a)])]
for k in ks:
    f, i, n, w, props = M[k]
    sh(f"git -C {W}/repo checkout -- .")
    p = f"{W}/repo/{f}"
    ls = open(p).read().split("\n")
    ls[i] = n
    open(p, "w").write("\n".join(ls))
    res, t0 = "SURVIVES", time.time()
    for q in props.split():
        r = sh(f"bash {W}/verif/check.sh {q} quick")
        if r.returncode == 1: res = "caught " + q; break
        if r.returncode != 0: res = "nobuild" if "build failed" in r.stderr else f"ERROR {r.returncode} {q}"; break
    print(f"{k} {f.split('/')[-1]}:{i+1} [{w}] {res} {time.time()-t0:.0f}s | {n.strip()[:100]}", flush=True)
sh(f"git -C {W}/repo checkout -- .")
