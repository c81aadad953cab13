"""Driver of the prover simulator (gksim) checks: seeded search, gate, minimisation, replay, evidence."""
import json, multiprocessing as mp, os, random, signal, sys, time, traceback
from common import *
import gk


class Runner:
    """Runs the scenarios of one case; records or replays the decisions of each."""

    def __init__(self, srv, case, trace=False):
        self.srv, self.case, self.trace = srv, case, trace
        self.rec, self.hashes, self.res = {}, [], []
        self.nontrivial = False
        self.count = {}

    def __call__(self, key, sc):
        d = self.case.get("decs", {}).get(key)
        if d is not None:
            sc = sc.copy(decs=[tuple(x) for x in d])
            sc.cfg["replay"] = 1
        r = self.srv.run(sc, self.trace)
        self.rec[key] = r.decs
        self.hashes.append(r.hash)
        self.res.append((key, sc, r))
        return r

    def tick(self, what, n=1):
        self.count[what] = self.count.get(what, 0) + n


class Check:
    """gen(rng) -> json-able case; run(R, case) -> None or 'class: text'; shrink(case) -> smaller cases"""
    prop = ""
    rule = ""
    assume = []
    quick = 40           # seconds of search in the quick tier
    crash = False        # whether a crash of any process violates the property
    small = True         # hash tables reduced from 1000000 to 1009 entries (a compile-time define of the code itself is overridden in the simulated build)
    components = ("real code: all of /repo (Main, Reasoner, Builtparser, Parser, Printer, cjson, Db) as compiled by compile.sh, every basic block instrumented; "
                  "stand-ins: processes (fork/wait/kill/exit/signals), processor and wall clocks, alarm, shared memory segments, futexes, malloc failures, "
                  "files (open/read/write/close/remove/rename), standard output, environment")

    def gen(self, rng):
        raise NotImplementedError

    def run(self, R, case):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def sample(self, case):
        return json.dumps(case)[:600]


def run_case(chk, srv, case, trace=False):
    R = Runner(srv, case, trace)
    v = chk.run(R, case)
    if v is None and chk.crash:
        v = crashed(R)
    return v, R


def crashed(R):
    """A process that dies of a fault of its own (not one the simulator killed)."""
    for key, sc, r in R.res:
        for p in r.procs:
            if p["ended"] and p["status"] & 0x7f in (4, 6, 7, 8, 11):
                return "crash: %s: process %d dies of signal %d\n%s" % (key, p["id"], p["status"] & 0x7f, " ".join(sc.cmds[min(p["cmd"], len(sc.cmds) - 1)].argv))
    return None


def worker(chk, binary, w, seed0, stride, seconds, conn, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)

    def late(*_):
        raise gk.Hung("the case takes too long outside the simulator")
    signal.signal(signal.SIGALRM, late)
    srv = gk.Server(binary)
    st = {"cases": 0, "runs": 0, "sim": 0.0, "bb": 0, "switch": 0, "procs": 0, "redone": 0, "clipped": 0, "hung": 0, "faults": {}, "count": {}, "samples": [], "known": {}}
    hs, ilv = set(), set()
    end = time.time() + seconds
    k = seed0
    viol = None
    try:
        while time.time() < end:
            seed = k
            k += stride
            rng = random.Random(seed * 7919 + 13)
            case = chk.gen(rng)
            if case is None:
                continue
            signal.alarm(150)
            try:
                v, R = run_case(chk, srv, case)
                signal.alarm(0)
            except gk.Hung as e:
                signal.alarm(0)
                srv.close()
                st["hung"] += 1
                st["lasthung"] = "%d %s" % (seed, e)
                if st["hung"] > 20:
                    raise
                continue
            st["cases"] += 1
            st["runs"] += len(R.res)
            for _, sc, r in R.res:
                st["sim"] += r.now
                st["bb"] += r.bb
                st["switch"] += r.switches
                st["procs"] += r.np
                st["clipped"] += r.clipped
                for f, n in r.faults.items():
                    st["faults"][f] = st["faults"].get(f, 0) + n
                ilv.add(r.ilv)
            for f, n in R.count.items():
                st["count"][f] = st["count"].get(f, 0) + n
            if R.nontrivial:
                hs.add("".join(R.hashes))
            if len(st["samples"]) < 2 and R.nontrivial:
                st["samples"].append("seed %d: %s" % (seed, chk.sample(case)))
            if v:
                m = next((t for rx, t in known if rx.search(v)), None)
                if not m:
                    viol = (seed, case, v)
                    break
                st["known"][m] = st["known"].get(m, 0) + 1
            if st["cases"] % 40 == 7:
                _, R2 = run_case(chk, srv, case)
                st["redone"] += 1
                if R2.hashes != R.hashes:
                    conn.send(("nondet", "seed %d: %s vs %s" % (seed, R.hashes, R2.hashes)))
                    return
        st["cov"] = srv.coverage() if srv.p else 0
        conn.send(("ok", st, hs, ilv, viol))
    except Exception:
        conn.send(("fail", traceback.format_exc()))
    finally:
        srv.close()
        conn.close()


def gate(chk, binary, case, tries=2):
    """verdict and hashes of the case in fresh servers; None when they differ between runs"""
    got = None
    for _ in range(tries):
        srv = gk.Server(binary)
        try:
            v, R = run_case(chk, srv, case)
        finally:
            srv.close()
        cur = (v, tuple(R.hashes))
        if got is not None and cur != got:
            return None
        got = cur
    return got


def vclass(v):
    return (v or "").split(":")[0]


def minimise(chk, binary, case, budget=75):
    want = vclass(case["expect"])
    end = time.time() + budget
    srv = gk.Server(binary)

    def ok(c):
        try:
            v, R = run_case(chk, srv, c)
        except Exception:
            srv.close()
            return None
        return R if v and vclass(v) == want else None

    def ddm(items, test, dl):
        n, cur = 2, list(items)
        if cur and test([]):
            return []
        while len(cur) >= 2 and time.time() < dl:
            k = max(1, len(cur) // n)
            ch = [cur[i:i + k] for i in range(0, len(cur), k)]
            for i in range(len(ch)):
                if time.time() > dl:
                    break
                c = sum(ch[:i] + ch[i + 1:], [])
                if test(c):
                    cur, n = c, max(n - 1, 2)
                    break
            else:
                if n >= len(cur):
                    break
                n = min(len(cur), 2 * n)
        return cur
    try:
        # smaller problems first, decisions still drawn from the seed
        changed = True
        while changed and time.time() < end - budget * 0.5:
            changed = False
            for c in chk.shrink(case):
                if time.time() > end - budget * 0.5:
                    break
                c = dict(c)
                c.pop("decs", None)
                if ok(c):
                    case, changed = c, True
                    break
        R = ok(case)
        if R is None:
            return None
        base = dict(case)
        base["decs"] = {k: [list(x) for x in d] for k, d in R.rec.items()}
        if not ok(base):
            return case          # the recorded decisions do not lead there again; keep the seed form
        case = base
        for key in list(case["decs"]):
            def test(d, key=key):
                c = dict(case)
                c["decs"] = dict(case["decs"])
                c["decs"][key] = d
                return ok(c) is not None
            d = ddm(case["decs"][key], test, end)
            case = dict(case)
            case["decs"] = dict(case["decs"])
            case["decs"][key] = d
        return case
    finally:
        srv.close()


def write_replay(chk, binary, case, path):
    srv = gk.Server(binary)
    try:
        v, R = run_case(chk, srv, case, trace=True)
    finally:
        srv.close()
    case = dict(case)
    case["expect"] = v
    with open(path, "w") as f:
        json.dump({"kind": "gksim", "property": chk.prop, "case": case, "hashes": R.hashes}, f, indent=1)
        f.write("\n")
    with open(path + ".trace", "w", errors="replace") as f:
        f.write("%s\n" % v)
        for key, sc, r in R.res:
            f.write("== scenario %s\n%s\n" % (key, json.dumps(sc.to_json())))
            f.write(r.trace.decode("latin1"))
            for o in r.outs:
                f.write("-- output of process %d command %d at %.9f:\n%s\n" % (o[0], o[1], o[2], o[3].decode("latin1")))
    return v, R.hashes


def replay(chk, binary, path):
    j = json.load(open(path))
    v, hashes = write_replay(chk, binary, j["case"], path + ".again")
    print(open(path + ".again.trace").read())
    os.unlink(path + ".again")
    os.unlink(path + ".again.trace")
    print("verdict: %s" % v)
    if v and hashes == j["hashes"] and v == j["case"]["expect"]:
        print("same execution as recorded")
    return 1 if v else 0


def run_check(chk, seconds):
    prop = chk.prop
    ev = Evidence(prop)
    t00 = time.time()
    binary = build.build_gksim(chk.small)
    known = known_findings(prop)
    os.makedirs(REPLAYS, exist_ok=True)
    t0 = time.time()
    ps = []
    for w in range(NCPU):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(chk, binary, w, SEED * 1000003 + w, NCPU, seconds, b, known), daemon=True)
        p.start()
        b.close()
        ps.append((p, a))
    tot = {"cases": 0, "runs": 0, "sim": 0.0, "bb": 0, "switch": 0, "procs": 0, "redone": 0, "clipped": 0, "hung": 0, "faults": {}, "count": {}, "known": {}}
    hs, ilv, viols, cov = set(), set(), [], 0
    samples = []
    for p, a in ps:
        try:
            if not a.poll(seconds + 400):
                err(prop, "simulator worker does not end")
            m = a.recv()
        except EOFError:
            err(prop, "simulator worker died")
        if m[0] == "nondet":
            err(prop, "simulation is not deterministic: " + m[1])
        if m[0] == "fail":
            err(prop, "simulator worker failed: " + m[1])
        _, st, h, i, v = m
        for k in tot:
            if isinstance(tot[k], dict):
                for f, n in st[k].items():
                    tot[k][f] = tot[k].get(f, 0) + n
            else:
                tot[k] += st[k]
        samples += st["samples"]
        if st.get("lasthung"):
            log("hung run: seed", st["lasthung"])
        cov |= st["cov"]
        hs |= h
        ilv |= i
        if v:
            viols.append(v)
    for p, a in ps:
        p.join(10)
    wall = time.time() - t0
    c = ev.d["coverage"]
    c["evaluations"] = tot["cases"]
    c["distinct_nontrivial"] = len(hs)
    c["rule"] = chk.rule
    c["samples"] = samples[:6]
    c["components"] = chk.components
    c["simulated_runs"] = tot["runs"]
    c["runs_per_hour"] = int(tot["runs"] / max(wall, 0.1) * 3600)
    c["seeds_per_hour"] = int(tot["cases"] / max(wall, 0.1) * 3600)
    c["simulated_time_s"] = round(tot["sim"], 3)
    c["simulated_processes"] = tot["procs"]
    c["basic_blocks_executed"] = tot["bb"]
    c["basic_blocks_reached_hash_buckets"] = bin(cov).count("1")
    c["context_switches"] = tot["switch"]
    c["distinct_interleavings"] = len(ilv)
    c["distinct_interleavings_measure"] = "hash over the sequence of (process, its basic-block count, next process) at every process switch"
    c["faults_injected"] = tot["faults"]
    c["counters"] = tot["count"]
    c["same_seed_reruns"] = tot["redone"]
    c["runs_cut_by_step_budget"] = tot["clipped"]
    c["runs_without_answer"] = tot["hung"]
    c["build_s"] = round(t0 - t00, 1)
    ev.d["assumptions"] = list(chk.assume)
    if tot["cases"] == 0:
        err(prop, "no case was run")
    for m in sorted(set(tot["known"]) | {t for _, t in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, m))
    c["known_findings_seen"] = tot["known"]
    for seed, case, v in sorted(viols, key=lambda x: len(json.dumps(x[1]))):
        case = dict(case)
        case["expect"] = v
        g = gate(chk, binary, case)
        if g is None or not g[0]:
            err(prop, "seed %d reported '%s' but running it again does not (%s)" % (seed, v, g))
        case["expect"] = g[0]
        small = minimise(chk, binary, case) or case
        path = os.path.join(REPLAYS, "%s-%d.json" % (prop, seed))
        v2, h2 = write_replay(chk, binary, small, path)
        g2 = gate(chk, binary, json.load(open(path))["case"])
        if not v2 or g2 is None or g2[0] != v2:
            small = case
            v2, h2 = write_replay(chk, binary, small, path)
        violation(prop, path, "seed %d: %s" % (seed, v2), ev)
    ev.write()
    print("%s: %d cases, %d runs, %d distinct, %.0f s simulated, no violation" % (prop, tot["cases"], tot["runs"], len(hs), tot["sim"]))
