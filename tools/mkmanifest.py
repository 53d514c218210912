#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; every property of properties.jsonl is claimed or not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
EXPL = ("Explicit-state model checking of the real library code: every interleaving of client calls, elections, "
        "message deliveries and the listed faults within the bounds printed in the evidence is executed on real "
        "servers (each distinct server state and input once, memoised) and the property is checked in every state. ")
TRUST = "Trusted: the explorer, its storage wrapper over the shipped in-memory storage, FIFO links without duplication."
checks = {
    "C01": ("explicit-state exploration of real servers, agreement monitor", "model_checking", EXPL + TRUST),
    "C02": ("explicit-state exploration of real servers, stability monitor across restarts", "model_checking", EXPL + TRUST),
    "C03": ("explicit-state exploration of real servers, validity and order monitor", "model_checking", EXPL + TRUST),
    "C04": ("explicit-state exploration of real servers, promise and ballot monitor", "model_checking", EXPL + TRUST),
    "C05": ("explicit-state exploration of real servers with reconfigurations, stop-sign monitor", "model_checking", EXPL + TRUST),
    "C06": ("explicit-state exploration with crashes at every storage write, durability monitor", "model_checking", EXPL + TRUST),
    "C07": ("explicit-state exploration of real servers with snapshots, snapshot-equivalence monitor", "model_checking", EXPL + TRUST),
    "C08": ("explicit-state exploration of real servers with trims, and recovery continuations", "model_checking", EXPL + TRUST),
    "C09": ("explicit-state exploration; every read call compared with the stored log in every state", "model_checking", EXPL + TRUST),
    "C10": ("explicit-state exploration with a fault-free continuation from every state", "model_checking", EXPL + TRUST),
    "C11": ("exhaustive enumeration of connectivity histories on real servers with elections", "model_checking",
            "Every history of connectivity graphs up to the stated length for 3, 4 and 5 servers, with restarts, priority changes and "
            "forced candidacies, is run on real servers with synchronous heartbeat rounds; within a round messages are delivered in a fixed order. "),
    "C12": ("explicit-state exploration with quorum configurations and exhaustive responsive sets", "model_checking", EXPL + TRUST),
    "C13": ("explicit-state exploration with batching and fault-free continuations", "model_checking", EXPL + TRUST),
    "C14": ("exhaustive enumeration of storage histories on both shipped backends against a reference log", "model_checking",
            "Every history of the storage calls and transaction shapes the library issues, up to the stated depth after six prefixes, with closing and "
            "reopening at every point, is executed on the real backends. Small indexes and values; out-of-range reads are not compared."),
    "C15": ("exhaustive enumeration of crash images and failing operations on the persistent backend", "model_checking",
            "Every operation of the bounded histories is cut at the byte positions of the write-ahead log it wrote, every image is reopened and compared with the state "
            "before and after; operations with an entry that cannot be encoded must leave no trace. A process crash is modelled, not the loss of the page cache."),
    "C16": ("exhaustive enumeration of cache histories and explicit-state exploration of clusters with UniCache", "model_checking",
            "Every value history up to the stated length through encoder and decoder, with every transfer point and transfer format, and " + EXPL + TRUST),
    "C17": ("explicit-state exploration of fault-free interleavings, completeness monitor", "model_checking", EXPL + TRUST),
    "C18": ("exhaustive enumeration of the configuration grid against an independent predicate", "exploration",
            "Every combination of boundary values of every field; the accepted set must equal the one stated. Values between the boundaries are not enumerated."),
    "C19": ("explicit-state exploration; every emitted message round-tripped through two wire formats", "model_checking", EXPL + TRUST),
    "C20": ("explicit-state exploration of real servers and enumeration of connectivity histories, status monitor", "model_checking", EXPL + TRUST),
    "C21": ("exhaustive enumeration of cluster and dashboard histories on a pseudo terminal, screen compared with the server's reports", "model_checking",
            "Every history up to the stated length is executed with the real dashboard drawing on a pseudo terminal; after every refresh the screen contents are "
            "compared with what the server reports. Trusted: the small terminal emulator. The system log panel is not compared."),
}
extra = {}
try:
    exec(open(f"{root}/tools/manifest_extra.py").read())
except FileNotFoundError:
    pass
checks.update(extra)
na = {i: "not yet claimed: the check is under construction" for i in ids if i not in checks}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg(omnipaxos_mc)",
        "enable": "RUSTFLAGS=\"--cfg omnipaxos_mc\" (check.sh; without it the checks still work with a coarser state digest)",
        "source_commits": ["c0a8d33"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": checks[i][0],
            "level": checks[i][1],
            "level_note": checks[i][2],
        }
        for i in ids if i in checks
    ],
    "not_applicable": [{"property": i, "reason": r} for i, r in na.items()],
    "notes": "Checks build in /verif/target from /repo's working tree; see DESIGN.md.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
