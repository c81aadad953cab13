#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DB = "seeded schedules of client fibers switched at single shared-memory accesses, simulated futexes, clocks, files and segments with injected faults"
T = "deterministic simulation with fault injection: "
GK = "whole gkc in simulated processes (fork, signals, clocks, shared memory, files, allocation failures simulated) with basic-block preemption; "
claimed = {
 "L01": ("exploration", T + "seeded search over lock schedules, wait faults and client deaths", DB + "; sequentially consistent memory; holders do not die."),
 "L02": ("exploration", T + "seeded search over lock schedules and wait faults, bounded-time liveness in virtual time", DB + "; bounds: 25 ms (queued) or 120 ms (spin) of idle lock."),
 "R01": ("exploration", T + "seeded whole-prover runs on inputs true in a random finite model, under worker schedules, clock rates and faults", GK + "inputs satisfiable by construction."),
 "R02": ("exploration", T + "seeded whole-prover runs, every printed step checked by z3 for entailment", GK + "steps of string distinctness, arithmetic and propositional instantiation are outside the generator."),
 "R03": ("exploration", T + "seeded whole-prover runs with questions, every printed answer decided by grounding, a finite model or z3", GK + "complete decision for function-free cases."),
 "R04": ("exploration", T + "seeded whole-prover runs on small problems contradictory by construction, bounded simulated work", GK + "bound: 60 million basic blocks."),
 "R05": ("exploration", T + "seeded whole-prover runs judged by the exit reports of a finite case and by comparison across worker counts, with worker deaths, failing forks and stalls", GK + "problems whose outcome is known by construction."),
 "R06": ("exploration", T + "seeded whole-prover runs on slow simulated processors with virtual alarms, deadlines checked in virtual time", GK + "limits of 1-3 virtual seconds."),
 "R07": ("exploration", T + "seeded failing allocations, exhausted segments and failing shared memory in whole-prover runs and conversions", GK + "one failed allocation per run, once or from then on."),
 "R08": ("exploration", T + "the same input run under different heap and stack contents, addresses, clocks and read sizes, outputs compared byte for byte", GK + "sequential runs of given strategies, far from their limits."),
 "I01": ("exploration", T + "input texts damaged, cut, nested or missing, with read faults and includes, in every syntax; the outcome compared with a parser-independent expectation", GK + "the damage of a text is one of the kinds the generator knows."),
 "I02": ("exploration", T + "one problem rendered in several syntaxes and converted between them, each proved, clausified or converted in the simulator; verdicts compared with the others and with z3 or finite models", GK + "the fragment every syntax can express."),
 "K01": ("exploration", T + "whole-prover runs over a shared knowledge base: queries of several processes against one written segment, each verdict and proof compared with the run over the joined text and with z3", GK + "single strategies; knowledge bases of up to a few thousand clauses."),
 "K02": ("exploration", T + "concurrent writers, readers, deleters and provers of one shared memory key under seeded schedules, deaths and failing system calls", GK + "documented sequences of gkc commands."),
 "K03": ("exploration", T + "dump written and read back with failing, short and torn writes, full disks, damaged files and deaths at arbitrary points", GK + "one knowledge base per run."),
 "D01": ("exploration", T + "seeded search over schedules of concurrent atomic field operations, histories decided by linearizability", DB + "; sequentially consistent memory."),
 "D02": ("exploration", T + "seeded search over schedules and histories, refinement of a sequential record store model in lock order", DB + "; sequentially consistent memory."),
 "D03": ("exploration", T + "seeded search over index and query histories with allocation faults and full segments, against a full scan of a model", DB + "; new records entered with wg_index_add_rec as the library asks."),
 "D04": ("exploration", T + "seeded search over allocation histories with full segments and allocation faults, no overlap, contents and reuse against a model", DB + "; segments up to a few MB."),
 "D05": ("exploration", T + "seeded search over schedules of a dump with concurrent writers, snapshot consistency against the states of the lock order", DB + "; stdio replaced by a simulated disk."),
 "D06": ("exploration", T + "seeded search over disk faults, deaths and damaged files", DB + "; stdio replaced by a simulated disk; deaths at file operations."),
 "D07": ("exploration", T + "seeded search over process schedules, deaths and segment call faults, against a model of the segment table", DB + "; System V shared memory is simulated."),
}
na = {
 "J01": "the journal is compiled out of this program: USE_DBLOG is undefined in config.h and QUICK_REASONER removes the mutators it hooks, so the shipped system has no logged operation to recover",
 "B01": "batch mode is an unfinished competition driver that starts other programs with system() from hard-wired paths; there is no time, I/O or multi-party contract of this code base to simulate",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in claimed:
        lv, tech, note = claimed[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the seams are compiler instrumentation and link-time wrapping of the unmodified sources", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "check not built yet")} for i in ids if i not in claimed]}
print(json.dumps(m, indent=1))
