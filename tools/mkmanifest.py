#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from plan import PLAN
TECH = {
 "C01": "shadow map of live blocks with content patterns", "C02": "contract oracle at every return", "C03": "contents and identity compared around every realloc",
 "C04": "refusals at every system call, recovery phase", "C05": "unexpected kernel errors injected at every memory call", "C06": "misuse probes in a forked copy of the simulated world",
 "C07": "racing frees under a seeded scheduler", "C08": "zero check of every fresh block", "C09": "scrub and accessibility check after every free", "C10": "stray writes injected into freed slots",
 "C11": "overflow probes and guard-value history", "C12": "reuse distance measured over the history", "C13": "address-space model inspected around every block", "C14": "ownership history of every page",
 "C15": "foreign mappings planted into released ranges", "C16": "address-space accounting at quiescent points", "C17": "happens-before race detection, deadlock and step-bound detection under a seeded scheduler",
 "C18": "fork at arbitrary scheduling points, child continues in the simulation", "C19": "traces of siblings compared", "C20": "interrupted, short and failing getrandom; paired runs with one seed bit flipped",
 "C21": "generator output counted between reseeds; paired runs with all later entropy changed", "C22": "paired runs and seeded statistics over runs with different entropy", "C23": "reference accounting compared at quiescent points",
 "C24": "reference model of empty slabs compared around trims, with refused remaps", "C25": "reference model of block bounds", "C26": "errno bracketed around every free under faults",
 "C27": "matching and mismatching sizes on every block", "C28": "scripted new-handlers under refused memory", "C29": "ownership check of pages, globals and freed contents", "C30": "protection-key model checked on every access",
 "C31": "misuse probes with failing, short and interrupted writes", "C32": "racing first calls and failing initialisation steps", "C33": "software tag memory compared per slot", "C34": "generators run as components of the simulated program, seeded by an interrupted and short entropy source, every keystream request refined against a reference ChaCha8", "C35": "the keystream replaced at its seam by a script that delivers every random word once in a seeded order, accepted words counted per value",
 "C36": "any fatal error in a correct simulated program",
 "C38": "every request that reaches the simulated kernel compared with the documented list, under refused memory",
 "C39": "a thread blocked on another's lock compared with what both calls concern, under a seeded scheduler with stalls",
 "C40": "steps and kernel requests of each simulated call compared with a bound for its size, in heaps of thousands of blocks, under refused memory",
 "C37": "writes to allocator state watched while a simulated thread has the allocator disabled, waiting threads resumed by a seeded scheduler",
}
NA = []
m = {
 "version": 1,
 "setup_cmd": "python3 lib/simbuild.py",
 "hooks": {"guard": "none", "enable": "No hooks in /repo: the simulator compiles the unmodified sources with -fsanitize=thread (own runtime) and -DH_MALLOC_PREFIX and renames the undefined system symbols of the objects with objcopy.", "source_commits": []},
 "checks": [], "not_applicable": NA,
 "notes": "check.py <id> [quick|thorough] runs a check, check.py replay <file> replays a violation. Every check builds the simulator from /repo's working tree (cached by content under build/). Repaired defects are listed in known_findings.txt.",
}
for p in sorted(PLAN):
    m["checks"].append({
        "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + TECH[p], "level": "exploration",
        "level_note": "Seeded search over programs, schedules, entropy, address placement and fault sequences on the real allocator code in %d build configurations; a clean batch is evidence for the explored runs, not a proof. Trusts the simulator's kernel model and sequentially consistent interleaving at instrumented accesses." % len({c for q in PLAN[p] for c in q["configs"]}),
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
