#!/usr/bin/env python3
"""run.py <property>: decide one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common, build
from common import Evidence, err


def secs(quick, thorough):
    return float(os.environ.get("VERIF_SECONDS", quick if common.TIER != "thorough" else thorough))


REAL_DB = "real code: all of /repo/Db (locks, allocator, records, indexes, queries, dump, segments); "
STUB_OS = "stand-ins: scheduler, clocks, nanosleep, futex system call"
LOCK_ASSUME = ["memory accesses of different clients interleave sequentially consistently (the shipped target is x86; weaker reordering is not simulated)",
               "a client that dies is one that waits for a lock or sleeps; a holder's death is outside the property",
               "spin variants measure their timeout by the sleeps they make, as documented in the code"]


def c_locks(prop):
    import dbcheck
    ev = Evidence(prop)
    with_build = [(build.build_dbsim(v), prop, w, v) for v, w in (("tfqueue", 4), ("rpspin", 2), ("wpspin", 2))]
    ev.d["coverage"]["components"] = REAL_DB + STUB_OS
    dbcheck.run_check(prop, with_build, secs(40, 600),
                      "a run is a seeded program of 2-8 clients (lock requests with timeouts, hold and think times) under a seeded schedule "
                      "with seeded signals, spurious wakes, deaths, stalls and oversleeps, for one of the three lock protocols; "
                      "non-trivial: at least one forced preemption or injected fault; distinct: by hash of the event history with its times",
                      ev, LOCK_ASSUME)


DB_RULES = {
    "D01": ("a run is a seeded program of 2-6 clients doing wg_update_atomic_field, wg_set_atomic_field and wg_add_int_atomic_field on a few shared "
            "fields (indexed ones included) under a seeded schedule with preemption at every memory access, stalls and clients dying between operations; "
            "the recorded history is decided by a Wing-Gong search against a sequential field; non-trivial: at least one forced preemption or injected "
            "fault; distinct: by hash of the event history", ["memory accesses of different clients interleave sequentially consistently"]),
    "D02": ("a run is a seeded program of 1-5 clients (mapped at different addresses) creating, filling, reading, scanning and deleting records and "
            "values of every type inside write and read transactions under a seeded schedule with preemption at every memory access and stalls; every "
            "result is compared with a plain sequential model kept in lock order, and the whole store at the end; non-trivial: at least one forced "
            "preemption or injected fault; distinct: by hash of the event history",
            ["memory accesses of different clients interleave sequentially consistently",
             "values whose decoding the library documents as unsupported (anonymous constants) are left out"]),
    "D03": ("a run is a seeded history by 1-3 clients of adding, changing and removing indexed records, creating and dropping T-tree, hash, multi-column "
            "and template indexes (with failing local allocations and a segment that gets full in part of the runs), and queries, single lookups and raw "
            "index searches; every result is compared with a full scan of a plain model, its order included; non-trivial: at least one forced "
            "preemption or injected fault; distinct: by hash of the event history",
            ["new records are entered with wg_index_add_rec as this version asks of its callers", "no NaN, negative zero, or blobs in conditions"]),
    "D04": ("a run is a seeded history of allocating, growing and freeing records, strings, blobs and raw objects of every size, mostly on small segments "
            "that run full, and of local memory pools with failing allocations; no two live objects may overlap, contents stay, a refused request leaves "
            "everything intact and space that was freed serves again; non-trivial: at least one refused or failed request or forced preemption; "
            "distinct: by hash of the event history",
            ["a request may be refused when the next storage part, which doubles in size, does not fit any more"]),
    "D05": ("a run is a seeded history by 1-4 clients with a dump taken while the others write in transactions, loaded into another segment at another "
            "address with other contents before; the loaded contents must be one state of the lock order during the dump and the loaded database must keep working; "
            "non-trivial: at least one forced preemption or injected fault; distinct: by hash of the event history",
            ["memory accesses of different clients interleave sequentially consistently"]),
    "D06": ("a run dumps a seeded database to a simulated disk with failing, short and lost writes, failing open, seek, flush and close, a full disk and a death "
            "at any disk operation, then checks and loads that file, cut, torn or changed in part of the runs, with failing and short reads; success must "
            "mean the whole image, a damaged file must be refused and leave the target as it was; non-trivial: at least one injected fault or "
            "forced preemption; distinct: by hash of the event history",
            ["the process dies only at operations on the file", "a file damaged at random is taken to have another 32-bit checksum (chance 2^-32 per file)"]),
    "D07": ("a run is a seeded history of 1-5 simulated processes creating, attaching, detaching, deleting and dying on a few names and sizes with failing "
            "segment calls; results, contents and the table of segments are compared with what the calls promise; non-trivial: at least one forced "
            "preemption or injected fault; distinct: by hash of the event history",
            ["System V shared memory is a model of the kernel's (keys, permissions, marks for removal, attach counts)"]),
}


def c_db(prop):
    import dbcheck
    ev = Evidence(prop)
    plan = [(build.build_dbsim("tfqueue", True), prop, 1, "tfqueue")]
    ev.d["coverage"]["components"] = REAL_DB + STUB_OS + "; System V shared memory, malloc and stdio streams where the property uses them"
    dbcheck.run_check(prop, plan, secs(40, 600), DB_RULES[prop][0], ev, DB_RULES[prop][1])


CHECKS = {"L01": lambda: c_locks("L01"), "L02": lambda: c_locks("L02")}
for _p in DB_RULES:
    CHECKS[_p] = (lambda p: lambda: c_db(p))(_p)


def c_gk(prop):
    import gkcheck, gkchecks, kbchecks
    gkcheck.run_check(gkchecks.GK[prop](), secs(gkchecks.GK[prop].quick, 900))


Z3 = ("R02", "R03", "R07", "K01")       # need z3, which only the tools' own python has


def main():
    prop = sys.argv[1]
    if prop in Z3 and not os.environ.get("VERIF_PY"):
        os.environ["VERIF_PY"] = "1"
        os.execv("/usr/local/bin/python3-vt", ["python3-vt", os.path.abspath(__file__)] + sys.argv[1:])
    if len(sys.argv) > 2:
        common.TIER = os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        CHECKS.get(prop, lambda: c_gk(prop))()
    except build.BuildError as e:
        err(prop, "build: %s" % e)


if __name__ == "__main__":
    main()
