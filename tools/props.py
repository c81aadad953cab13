#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LK=["Db/dblock.c","Db/dblock.h"]
p("L01","Database lock excludes: one writer alone, or readers only",
  "While a client holds the database write lock no other client holds the read or the write lock, and while any client holds the read lock nobody holds the write lock. This is true however the clients' memory accesses interleave, whichever of the shipped locking protocols is selected, and also when waits are interrupted by signals, wake spuriously, time out, or a waiting client dies.",
  ["schedules","fault_sequences","configurations"],
  "Every interleaving (at single memory access granularity) of any number of clients taking and releasing read and write locks with any timeouts, under EINTR, spurious and delayed wakeups, timeouts firing at any moment, and clients dying while they wait, for lock protocols RPSPIN, WPSPIN and TFQUEUE.",
  "The tests lock from a single thread; an exclusion failure needs a particular interleaving, often combined with an interrupted or timed-out wait.",
  LK,[("queued futex lock","Db/dblock.c db_tfqueue_wlock/rlock/wulock/rulock"),("spinlocks","Db/dblock.c db_rpspin_*, db_wpspin_*")],
  ["wg_start_write/wg_end_write/wg_start_read/wg_end_read"],
  [("locks area in the segment header","lock word, queue tail/length and lock nodes shared by all clients")])
p("L02","Lock waiting makes progress: no lost wakeup, no hang, no leaked lock",
  "When every holder releases in bounded time, every lock request returns within a bounded time, and it returns failure only after its own timeout has really elapsed. After all clients have released or given up, the lock is free again and any later request succeeds at once: no sequence of grants, timeouts, interrupted waits and releases loses a wakeup or leaks the lock.",
  ["schedules","fault_sequences","configurations"],
  "Every interleaving of lock, unlock and timeout events of any number of clients, with signals interrupting waits, spurious and delayed wakeups, slow clients and clock jumps, for all three protocols; a client that dies while holding a lock may block others only until their timeouts.",
  "The tests never make two clients wait; lost wakeups and leaked queue entries appear only when a timeout or release hits a particular window of another client's enqueue or dequeue.",
  LK,[("futex wait and wake","Db/dblock.c futex_wait/futex_trywait/futex_wake"),("queue maintenance on timeout","Db/dblock.c db_tfqueue_* ETIMEDOUT paths")],
  ["wg_start_write/wg_start_read return value and virtual time spent","a probing request after quiescence"])
p("D01","Concurrent atomic field updates never lose an update",
  "Updating, setting or adding to a record field with the atomic field operations behaves as if each operation took effect at one instant between its call and its return: no addition is lost, an update conditional on an old value succeeds only if the field held that value, and a failing call changes nothing.",
  ["schedules","inputs","fault_sequences"],
  "Every interleaving of any number of concurrent atomic add, set and conditional-update calls on shared fields by clients holding only read locks, with any small-integer operands including overflow and non-integer values, with clients stalled or dying between accesses.",
  "The tests call these from one thread, where a plain read-modify-write would pass as well.",
  ["Db/dbdata.c"],[("compare-and-swap loops","Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field")],
  ["return codes and values read back with wg_get_field"])
p("D02","Shared record store behaves like a simple sequential model",
  "Clients that create, fill, read, scan and delete records and values of every type under the proper locks see exactly the records and field values that a plain sequential model holds at that point of the lock order. Values decode to what was encoded, scans return each live record exactly once, and equal strings stored by different clients stay distinguishable from different ones.",
  ["histories","schedules","inputs"],
  "Every history of record and value operations of any length by any number of clients, in every lock order, with values of every supported type and size, attached at different addresses.",
  "The tests use fixed short scripts by one client at one mapping address; record reuse after deletion, string sharing and multi-subarea scans depend on long histories.",
  ["Db/dbdata.c","Db/dballoc.c","Db/dbhash.c"],[("record and value storage","Db/dbdata.c"),("allocation and reuse","Db/dballoc.c"),("string interning","Db/dbhash.c wg_hash_typedstr")],
  ["wg_create_record, wg_set_new_field, wg_get_*, wg_delete_record, wg_get_first_record/wg_get_next_record, wg_encode_*/wg_decode_*"])
p("D03","Index and query results agree with a full scan",
  "After any history of adding records (entered with wg_index_add_rec, which this version leaves to the caller), changing and removing them and creating and dropping indexes, every index lookup and every query returns exactly the records a full scan of the table would return for the same condition, in the promised order for ordered indexes.",
  ["histories","inputs","fault_sequences"],
  "Every history of index creation and removal, record addition and removal (with index maintenance), template and multi-column indexes, T-tree and hash, any key distribution including duplicates and mixed types, and queries with any conditions, also when allocations start failing.",
  "The tests build a few fixed trees; rebalancing, chained-node and template code paths depend on the particular insertion and deletion history.",
  ["Db/dbindex.c","Db/dbquery.c","Db/dbcompare.c","Db/dbhash.c"],
  [("T-tree and hash index maintenance","Db/dbindex.c"),("query planning and evaluation","Db/dbquery.c"),("ordering of encoded values","Db/dbcompare.c")],
  ["wg_search_ttree_index, wg_search_hash, wg_make_query/wg_fetch, wg_find_record"])
p("D04","Storage allocator never overlaps live objects and survives a full segment",
  "Live objects never overlap, keep their contents until freed, and freed space is reusable. When the segment is full the failing operation reports an error and everything stored before stays intact and usable, and after enough is freed operations succeed again.",
  ["histories","fault_sequences"],
  "Every history of allocations and frees of every object kind and size, on segments of any size including exhausted and nearly exhausted ones.",
  "The tests allocate a fixed pattern in a big segment; splitting, coalescing, bucket and new-subarea paths and exhaustion depend on the history and the remaining space.",
  ["Db/dballoc.c","Db/dbmpool.c"],[("free lists and subareas","Db/dballoc.c wg_alloc_gints, wg_free_object, extend_varlen_area"),("memory pools","Db/dbmpool.c")],
  ["returned offsets and object contents; wg_check_db"])
p("D05","A dump is one consistent snapshot and loads back identically",
  "Loading a successfully written dump into another segment, at any address, gives a database with exactly the contents the dumped one had at one instant of the lock order while it was being dumped, and that keeps working for further reads, writes and queries.",
  ["histories","schedules"],
  "Every database history before the dump, every interleaving of concurrent lock-respecting writers with the dump, any target segment address and prior contents.",
  "The only dump test on this tree needs System V segments and fails; none runs concurrent writers.",
  ["Db/dbdump.c","Db/dbmem.c"],[("dump under read lock, import under write lock","Db/dbdump.c wg_dump, wg_dump_internal, wg_import_dump")],
  ["contents of the loaded database through the API"])
p("D06","Dump success means a complete file; damaged files are never loaded",
  "When writing a dump reports success the whole image is in the file, whatever the disk did; when the disk fails, fills up or the process dies the damage is reported or detectable. A truncated, torn or bit-flipped dump file is rejected by the check, and a refused load leaves the target database unchanged.",
  ["fault_sequences","crash_points"],
  "Every sequence of short, failed and lost writes, full disk at any byte, flush, seek and close errors, process death at any point of the write, and any truncation or corruption of the file afterwards; read errors and short reads while loading.",
  "The tests never see a failing disk or a damaged file.",
  ["Db/dbdump.c"],[("checksummed dump format","Db/dbdump.c wg_dump_internal, wg_check_dump, wg_import_dump")],
  ["return codes of wg_dump, wg_check_dump, wg_import_dump and the file bytes"])
p("D07","Segment create, attach, detach and delete follow the requested state",
  "Attaching to a named segment yields either a fully initialised database of the requested size or a clean error, never a half-made one, whatever other processes create, delete or hold that name and whichever system calls fail. Failure leaves no segment behind that was not there before, and deleting a name makes a later open of an existing segment fail.",
  ["schedules","fault_sequences","histories"],
  "Every history of create, attach, attach-existing, detach and delete calls by concurrent processes on the same names with any sizes, with failures of the segment system calls (EEXIST, ENOENT, ENOMEM, EACCES, EINVAL, ENOSPC, address exhaustion) and process death between them.",
  "The tests attach only local memory; the shared-memory test is not part of the reliable suite.",
  ["Db/dbmem.c"],[("segment life cycle","Db/dbmem.c wg_attach_memsegment, create_shared_memory, link_shared_memory, wg_delete_database")],
  ["return values and contents; segment table afterwards"])

p("R01","A reported proof is real: satisfiable input is never refuted",
  "The prover reports that a proof was found only when the given clauses or formulas are really contradictory (the conjecture follows from the axioms). This holds for every input, every strategy, any timing of clocks and workers, and when memory allocation fails or workers die during the search.",
  ["inputs","schedules","fault_sequences","configurations"],
  "Every clause set or formula set in any accepted syntax, every strategy setting, every progress of the process clock against the search, every interleaving of the parallel workers, every failing allocation and every worker crash.",
  "The tests run about two hundred fixed problems that have known proofs; an unsound step that only shows on satisfiable input, under a particular strategy or a mid-search cutoff, passes them.",
  ["Reasoner/resolve.c","Reasoner/derive.c","Reasoner/subsume.c","Reasoner/unify.c","Reasoner/simp.c","Reasoner/rewrite.c","Reasoner/hash.c","Reasoner/strat.c","Builtparser/dbclausify.c"],
  [("inference and simplification","Reasoner/resolve.c, Reasoner/derive.c, Reasoner/simp.c, Reasoner/rewrite.c"),("clausification","Builtparser/dbclausify.c")],
  ["printed result of a prover run against a constructed model or decision procedure"])
p("R02","Every printed proof is a valid derivation from the input",
  "Each proof the prover prints is a complete derivation: its leaves are clauses of the given input, every other step follows logically from the steps it cites, cited steps come earlier, and the last step is the contradiction or the printed answer.",
  ["inputs","schedules","configurations","fault_sequences"],
  "Every proved input, strategy and output form, with the clock, worker scheduling and memory pressure varying during search and proof output.",
  "The tests look only for the words 'proof found'; nobody reads the steps.",
  ["Reasoner/history.c","Reasoner/derive.c","Reasoner/build.c"],[("derivation history","Reasoner/history.c wr_build_*_history, wr_show_result")],
  ["steps of the printed proof (text and json) checked by an independent entailment test"])
p("R03","Printed answers are correct",
  "Every answer the prover prints for a question is a correct one: substituting it for the question's variables gives a statement that follows from the given facts and rules, and for a disjunctive answer the disjunction follows.",
  ["inputs","configurations","schedules"],
  "Every set of facts and rules and every question with answer variables, any number of requested answers, any strategy, clock progress and worker interleaving.",
  "A few fixed questions are tested, with the answer not compared.",
  ["Reasoner/derive.c","Reasoner/history.c","Reasoner/build.c"],[("answer literals","Reasoner/derive.c, Reasoner/build.c, wr_register_answer")],
  ["the printed answer clauses against a ground decision procedure"])
p("R04","Small provable problems are proved within bounded simulated time",
  "For small contradictory problems the default automatic search, sequential or parallel, and also a single run of a strategy that only sets the order of the work (negative_pref, positive_pref, hardness_pref, double, knuthbendix_pref or none), finds and prints a proof within a bounded amount of processor time once no faults are injected, rather than giving up or claiming that no proof exists.",
  ["inputs","schedules"],
  "Every small contradictory ground, function-free or equational clause set of the stated size, under every worker interleaving and clock rate within the bound.",
  "The tests cover a fixed list; a pruning step that wrongly discards a needed clause only shows on other inputs.",
  ["Reasoner/rgenloop.c","Reasoner/subsume.c","Reasoner/resolve.c","Reasoner/makeguide.c","Reasoner/clstore.c"],
  [("given-clause loop and redundancy elimination","Reasoner/rgenloop.c, Reasoner/subsume.c, Reasoner/simp.c"),("automatic strategies","Reasoner/makeguide.c")],
  ["printed result within the simulated time bound"])
p("R05","Parallel search returns what its workers found and leaves nobody behind",
  "A parallel run reports a proof if some worker found one and reports no proof only when every worker ended without one. It ends within bounded time after its workers have ended, in whatever order and manner they end, including crashes, kills and failed forks; and when it ends no worker is left running.",
  ["schedules","fault_sequences","crash_points"],
  "Every interleaving of the parent and any number of workers, every order and manner of worker termination (proof, exhausted, error, killed by a signal at any point), failing forks, and interrupted waits.",
  "The tests run with the real scheduler and workers that all succeed; crashes, failed forks and early finishers never occur.",
  ["Reasoner/rmain.c","Reasoner/history.c","Main/gkc.c"],[("fork, wait and kill loop","Reasoner/rmain.c wg_run_reasoner")],
  ["combined output, exit status and surviving processes of a run"])
p("R06","The time limit is obeyed and reported honestly",
  "A run with a time limit ends within a bounded time after that limit, whatever the clock and the workers do; it then reports that no proof was found unless a proof really was printed. Without the limit being reached, the limit changes nothing in the result. No process of the run crashes, however far into its time the search is.",
  ["schedules","fault_sequences","configurations"],
  "Every input, including ones with infinite search spaces, every limit, any clock rate, coarse or jumping process clocks, the alarm arriving at any instruction, sequential or parallel.",
  "The tests hardly run into time limits, and only with the real clock.",
  ["Reasoner/rgenloop.c","Reasoner/resolve.c","Reasoner/rmain.c","Main/gkc.c"],[("clock checks","Reasoner/rgenloop.c, Reasoner/resolve.c"),("alarm","Main/gkc.c sig_handler")],
  ["simulated time from start to end and the printed result"])
p("R07","Running out of memory stops the search cleanly",
  "When memory runs out anywhere (in the parser, the database segment, the search buffers or the proof printer) the run ends by itself with an error or a no-proof result: it does not crash, hang, or print a result that is wrong or a proof that is incomplete but presented as complete.",
  ["fault_sequences","inputs"],
  "Every allocation of the run failing, once or from some point on, and every segment size, on any input.",
  "No test makes an allocation fail.",
  ["Reasoner/mem.c","Reasoner/glb.c","Reasoner/rmain.c","Db/dballoc.c","Db/dbmem.c","Builtparser/dbparse.c","Builtparser/jsparse.c"],
  [("allocation wrappers","Reasoner/mem.c"),("out-of-memory flag checks","Reasoner/*.c alloc_err"),("start-up allocation","Reasoner/glb.c, Reasoner/rmain.c")],
  ["exit status and output under allocation failure"])
p("R08","A sequential run is a function of its input",
  "Running the same input with the same strategy again gives the same result, the same proof and the same answers: nothing in the result depends on memory contents or addresses, on the machine's speed while no time limit strikes, or on how the input bytes are delivered.",
  ["schedules","inputs"],
  "Every input and fixed strategy run sequentially, over all initial heap contents, allocation addresses, clock progressions below the limits and read chunk sizes.",
  "The tests compare each run with a fixed expectation once, on one machine state; a dependence on uninitialised or stale memory is invisible there.",
  ["Reasoner/glb.c","Reasoner/build.c","Reasoner/clstore.c","Db/dbmem.c","Builtparser/dbotter.yy.c"],[("initialisation of search state","Reasoner/glb.c"),("input scanners","Builtparser/*.yy.c")],
  ["complete normalised output of two runs of the same input"])

p("K01","Querying a shared knowledge base equals querying the combined input",
  "Proving a query against a knowledge base attached from shared memory finds a proof exactly when the knowledge base text and the query text together are contradictory for searches that the same strategy completes, and never reports a proof for a satisfiable combination; answers agree as well.",
  ["inputs","histories","configurations"],
  "Every split of a problem into a knowledge base and a query, every strategy, sequential and parallel, for knowledge bases just read or loaded from a dump, at any attach address.",
  "One fixed knowledge base and query are in the examples.",
  ["Main/gkc.c","Reasoner/init.c","Reasoner/rmain.c","Reasoner/resolve.c","Db/dbmem.c"],[("attached knowledge base","Reasoner/init.c init_shared_database, Reasoner/rmain.c kb_g"),("two-database clause access","Reasoner/resolve.c")],
  ["results of -readkb then -usekb against the oracle for the combined input"])
p("K02","Queries never change the shared knowledge base",
  "Any number of queries, run concurrently or one after another, ending normally, by time limit, by crash or for lack of memory, leave the shared knowledge base byte for byte as it was built; each query's result is what it would be if it ran alone.",
  ["schedules","crash_points","histories","fault_sequences"],
  "Every history of query processes over one knowledge base, their interleaving at shared-memory and system-call granularity, and their termination at any point.",
  "The tests run at most one query against a knowledge base and do not look at it afterwards.",
  ["Main/gkc.c","Db/dbmem.c","Db/dbdata.c","Reasoner/rmain.c"],[("read-only attach","Db/dbmem.c wg_attach_existing_database"),("guards for the attached kb","Db/dbdata.c wg_in_attached_kb")],
  ["bytes of the segment before and after; results of the queries"])
p("K03","Knowledge base commands do what they say over any history",
  "Over any sequence of reading, writing, loading, using and deleting knowledge bases by number, a command that reports success has its effect (a written dump loads to a knowledge base answering like the original, a deleted one is gone, a loaded or read one is the one queried) and a command that fails says so with a nonzero exit status; commands on one number never affect another.",
  ["histories","fault_sequences","crash_points"],
  "Every sequence of -readkb, -usekb, -writekb, -loadkb, -readwritekb and -deletekb over several numbers, with failing system calls, disk errors and process death in between.",
  "The tests run one such sequence, and on this tree it fails.",
  ["Main/gkc.c","Db/dbdump.c","Db/dbmem.c","Reasoner/init.c"],[("command dispatch","Main/gkc.c gkc_main"),("dump and load","Db/dbdump.c")],
  ["exit status and output of each command against a small model of named knowledge bases"])
p("I01","Input is read completely or an error is reported",
  "The prover works on exactly the text it was given: how the bytes arrive makes no difference, and when opening or reading an input, strategy or included file fails or ends early the run reports an error with nonzero exit status instead of silently searching a truncated problem.",
  ["fault_sequences","inputs"],
  "Every input file in every accepted syntax, every chunking of reads, every read error and open error at any point, for main, strategy and knowledge base files.",
  "The tests read intact files from a healthy disk.",
  ["Builtparser/dbparse.c","Builtparser/dbotter.yy.c","Builtparser/dbprolog.yy.c","Builtparser/jsparse.c","Reasoner/guide.c","Main/gkc.c"],
  [("scanner input","Builtparser/*.yy.c YY_INPUT"),("json reading","Builtparser/jsparse.c"),("strategy reading","Reasoner/guide.c wr_parse_guide_file")],
  ["exit status and result under read faults compared with the fault-free run"])
p("I02","The accepted syntaxes mean the same",
  "One problem written in the simple syntax, in TPTP cnf or fof form and in JSON is understood as the same problem: the runs agree on whether there is a proof, and a problem printed by the converter or clausifier and read back again has the same verdict.",
  ["inputs","configurations"],
  "Every problem expressible in all syntaxes, any strategy, over varying read chunk sizes and clock progress.",
  "A handful of hand-written pairs exist.",
  ["Builtparser/dbparse.c","Builtparser/jsparse.c","Builtparser/dbclausify.c","Printer/dbotterprint.c"],[("parsers","Builtparser/*"),("printers","Printer/dbotterprint.c")],
  ["verdicts of runs over renderings of one problem; verdict after -convert and -clausify"])
p("J01","Journal replay restores the logged database",
  "With logging switched on, replaying the journal into the last dump restores every change whose operation returned before a crash.",
  ["crash_points","fault_sequences","histories"],
  "Every history of logged operations and every crash point and disk fault in writing the journal.",
  "Logging is compiled out in the shipped configuration.",
  ["Db/dblog.c","Db/dbdata.c"],[("journal","Db/dblog.c")],["contents after wg_replay_log"])
p("B01","Batch mode runs every listed problem and reports each honestly",
  "In batch mode every problem listed in the batch file is tried until solved, and each printed status matches what the run of that problem reported.",
  ["inputs","fault_sequences"],
  "Every batch file and every outcome of the started runs.",
  "No test covers batch mode.",
  ["Main/gkc.c"],[("batch driver","Main/gkc.c gkc_ltb_main")],["printed statuses"])
for x in P: print(json.dumps(x,ensure_ascii=True))
