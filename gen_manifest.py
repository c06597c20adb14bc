#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess
ENG = "path-sensitive abstract interpretation of the SSA form of the current source"
T = {
 "S01": "lockset analysis (inferred guards) over the SSA form, interprocedural and path-sensitive",
 "S02": "lock typestate and lock-order analysis over the SSA form, interprocedural and path-sensitive",
 "S03": "effect and loop analysis of blocking operations over the SSA form (stop-signal coverage)",
 "S04": "channel typestate analysis (close/send/join ordering) over the SSA form",
 "W01": "error-flow dataflow analysis of readers over the SSA form",
 "W02": "definite-assignment and provenance dataflow analysis of decoders over the SSA form",
 "W03": "layout comparison of encoder and decoder effect summaries extracted from the SSA form and types",
 "W04": "taint analysis of allocation sizes with bound facts over the SSA form",
 "W05": "typestate and provenance analysis of message reading over the SSA form",
 "W06": "consistency analysis of constant tables and dispatch extracted from the SSA form and types",
 "S05": "condition-variable protocol (typestate) analysis over the SSA form",
}
T.update({
 "N01": "guard-dominance dataflow: what must hold on every path to a hand-over or store of a header",
 "N02": "request/response provenance dataflow over message handlers (what is answered, from where, to whom)",
 "N03": "provenance (taint) analysis of network-dependent values to their single source",
 "N04": "effect and typestate analysis of the peer table and connection lifetimes over the SSA form",
 "N06": "path-sensitive dataflow over the SSA form: facts that hold where readiness is signalled and where the handlers return",
 "N05": "set-typestate and provenance analysis of mempool updates and events over the SSA form",
 "R01": "effect analysis of repository writes (transaction brackets, SQL statements, key provenance)",
 "R02": "read-path dataflow: which stored value, found or absence, each repository read returns",
 "R04": "path-sensitive dataflow over the locator walk (provenance of every entry, descent of the height, exit conditions)",
 "R03": "key and schema consistency analysis of storage (SQL text, struct tags, key derivations)",
 "X01": "ownership (linear-resource) analysis of scan requests over the SSA form",
 "X02": "provenance dataflow of scan requests built from options and re-queued after a report",
 "X04": "loop-step, bound and provenance dataflow of the scanning loop over the SSA form",
 "X03": "provenance and guard-dominance dataflow of reports, filters and events",
})
T.update({
 "A01": "path-counting and guard-dominance dataflow of answers to requests, and error-flow of service startup, over the SSA form",
 "A02": "typestate analysis of the client registry (enter/remove pairing on every path) over the SSA form",
 "A03": "provenance and guard-dominance dataflow of deliveries to subscribers over the SSA form",
 "A04": "typestate and provenance lint of every HTTP, web-socket and request-body use over the SSA form",
 "A05": "nil, index, presence and type-kind dataflow, and recovery-coverage analysis of goroutines, over the SSA form",
 "A06": "error-flow dataflow analysis of every function that can report failure, over the SSA form",
 "A07": "effect-ordering and provenance dataflow of file updates and configuration keys over the SSA form",
 "A09": "def-use and call-graph queries over the SSA form for construction, hand-over and routing, with path-sensitive typestate for ends of goroutines and connections",
 "A10": "comparison of message types, constants, routes and flags with the documented ones over the type-checked program, and path-sensitive provenance of what the client sends and shows",
 "A11": "interprocedural value-flow (taint) of settings to their sinks over the SSA form, with path-sensitive error and guard analysis of loading and starting",
 "A12": "resource typestate: path-sensitive symbolic execution over the SSA form, with escape tracking of what was opened",
 "A08": "constant-table extraction and inverse check by conditional constant propagation, with guard-dominance of its uses",
})
DEF = "dataflow and typestate rules decided by path-sensitive abstract interpretation of the SSA form"
NOTE = ("Every feasible path of the functions concerned in the current source is examined, for all inputs and schedules, with loops abstracted; "
        "trusts the SSA construction of golang.org/x/tools and the rule texts in DESIGN.md, and does not look inside dependencies.")
NOTES = {}
NA = {
 "Z01": "Whether a watched script's transactions are all found depends on the contents of filters and blocks (golomb-coded sets, script matching in a dependency), runtime data that no static argument bounds; the static parts are claimed as X01-X04.",
 "Z02": "Reaching the peer's tip and surviving reorganisations is liveness over an adversarial remote party and the stored chain's contents; only the safety part (which headers may be stored) is decidable from source and is claimed as N01.",
 "Z03": "The locator's heights are produced by arithmetic over the stored chain's length in a loop; its shape is a numeric property of all iterations that needs symbolic execution or proof, not a dataflow rule.",
 "Z04": "Value-level round-trip and id equality are functional properties over all byte values of arithmetic code and a hashing dependency; layout agreement is claimed as W03, values need testing or proof.",
 "Z05": "Wall-clock intervals depend on scheduling and timers at run time; that each wait is bounded and leads to disconnection is claimed in N04 and S03.",
 "Z06": "The code has no commitment to check filters against (no cfheaders), so the property holds only if peers are honest; there is no construct in the source whose analysis could decide it.",
}
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(here, "tool")):
    if f.startswith("rule_"):
        for l in open(os.path.join(here, "tool", f)):
            if 'register("' in l:
                have.add(l.split('register("')[1].split('"')[0])
checks = []
na = []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i,
            "technique": "static analysis: " + T.get(i, DEF), "level": "other", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "All checks decide from the source alone: tool/ type-checks /repo, builds its SSA form and evaluates the rules described in DESIGN.md. There are no hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
