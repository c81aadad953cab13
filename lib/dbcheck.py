"""Driver of the database simulator (dbsim) checks."""
import array, json, os, shutil, struct, subprocess, sys, tempfile, time
from common import *


def replay_run(binary, path, trace=False, timeout=90):
    try:
        r = subprocess.run([binary, "replay", path] + (["t"] if trace else []), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, None, ""
    h = res = None
    for line in r.stdout.splitlines():
        if line.startswith("HASH "):
            h = line[5:]
        elif line.startswith("RESULT "):
            res = line[7:]
    return h, res, r.stdout


def cls(text):
    return (text or "").split(":")[0]


def minimise(binary, raw, out, budget=90):
    lines = open(raw).read().splitlines()
    head = [l for l in lines if not l.startswith(("op ", "dec "))]
    ops = [l for l in lines if l.startswith("op ")]
    decs = [l for l in lines if l.startswith("dec ")]
    expect = [l for l in lines if l.startswith("expect ")][0][7:]
    want = cls(expect)
    tmpd = tempfile.mkdtemp(prefix="ddmin-", dir=os.path.dirname(out))
    cnt = [0]

    def test(o, d):
        cnt[0] += 1
        p = os.path.join(tmpd, "c%d-%d" % (cnt[0], os.getpid()))
        with open(p, "w") as f:
            f.write("\n".join(head + o + d) + "\n")
        _, res, _ = replay_run(binary, p, timeout=30)
        os.unlink(p)
        return res is not None and cls(res) == want

    end = time.time() + budget
    if not test(ops, decs):
        shutil.rmtree(tmpd, ignore_errors=True)
        return None
    for _ in range(2):
        decs = ddmin(decs, lambda d: test(ops, d), time.time() + (end - time.time()) * 0.5)
        ops = ddmin(ops, lambda o: test(o, decs), time.time() + (end - time.time()) * 0.5)
    with open(out, "w") as f:
        f.write("\n".join(head + ops + decs) + "\n")
    shutil.rmtree(tmpd, ignore_errors=True)
    h1, r1, _ = replay_run(binary, out)
    h2, r2, tr = replay_run(binary, out, trace=True)
    if r1 is None or r1 == "ok" or r1 != r2 or h1 != h2:
        return None
    lines = [("expect " + r1 if l.startswith("expect ") else l) for l in open(out).read().splitlines()]
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(out + ".trace", "w") as f:
        f.write(tr)
    return r1


def run_check(prop, plan, seconds, rule, ev, assumptions=(), known_ok=True):
    """plan: list of (binary, check name, weight, label).  Runs NCPU workers."""
    os.makedirs(REPLAYS, exist_ok=True)
    outd = tempfile.mkdtemp(prefix="run-", dir=REPLAYS)
    tot = sum(w for _, _, w, _ in plan)
    procs = []
    # hand out workers by weight, at least one each; when there are more parts than cores, run them in turn
    parts = []
    for b, c, w, lab in plan:
        parts.append([b, c, max(1, round(NCPU * w / tot)), lab])
    base = SEED * 1000003
    jobs = []
    for b, c, n, lab in parts:
        for k in range(n):
            jobs.append((b, c, base + k, n, lab))
    rounds = max(1, (len(jobs) + NCPU - 1) // NCPU)
    per = seconds / rounds
    results, viols = [], []
    t0 = time.time()
    for r in range(rounds):
        batch = jobs[r * NCPU:(r + 1) * NCPU]
        ps = [(subprocess.Popen([b, "run", c, str(s), str(st), "100000000", "%.1f" % per, outd],
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace"), b, lab)
              for b, c, s, st, lab in batch]
        for p, b, lab in ps:
            try:
                out, _ = p.communicate(timeout=per + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                err(prop, "simulator worker does not end")
            got = False
            for line in out.splitlines():
                if line.startswith("VIOL "):
                    _, path, what = line.split(" ", 2)
                    viols.append((path, what, b))
                    got = True
                elif line.startswith("NONDET"):
                    err(prop, "simulation is not deterministic: " + line)
                elif line.startswith("HASHES "):
                    hp = line.split()[1]
                elif line.startswith("STATS "):
                    results.append((json.loads(line[6:]), lab, hp))
                    got = True
            if not got:
                err(prop, "simulator worker failed with status %s: %s" % (p.returncode, out[-400:]))
        if viols:
            break
    cov = ev.d["coverage"]
    runs_hash, ilv = set(), set()
    agg = {}
    faults, counters, comp = {}, {}, {}
    for st, lab, hp in results:
        data = open(hp, "rb").read()
        na = struct.unpack("<Q", data[:8])[0]
        a = array.array("Q"); a.frombytes(data[8:8 + 8 * na]); runs_hash.update(a)
        b = array.array("Q"); b.frombytes(data[8 + 8 * na:]); ilv.update(b)
        for k in ("runs", "steps", "switches", "preempts", "sim_seconds", "redone", "clipped"):
            agg[k] = agg.get(k, 0) + st[k]
        agg["distinct_states"] = max(agg.get("distinct_states", 0), st["distinct_states"])
        comp[lab] = comp.get(lab, 0) + st["runs"]
        for k, v in st["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in st["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if len(cov["samples"]) < 6:
            cov["samples"] += st["samples"][:2]
    shutil.rmtree(outd, ignore_errors=True) if not viols else None
    wall = time.time() - t0
    cov["evaluations"] = int(agg.get("runs", 0))
    cov["distinct_nontrivial"] = len(runs_hash)
    cov["rule"] = rule
    cov["runs_by_configuration"] = comp
    cov["runs_per_hour"] = int(agg.get("runs", 0) / max(wall, 0.1) * 3600)
    cov["seeds_per_hour"] = cov["runs_per_hour"]
    cov["simulated_time_s"] = round(agg.get("sim_seconds", 0), 3)
    cov["scheduling_steps"] = int(agg.get("steps", 0))
    cov["context_switches"] = int(agg.get("switches", 0))
    cov["forced_preemptions"] = int(agg.get("preempts", 0))
    cov["distinct_interleavings"] = len(ilv)
    cov["distinct_interleavings_measure"] = "hash over the sequence of (client, its shared-access count, next client) at every context switch"
    cov["faults_injected"] = faults
    cov["counters"] = counters
    cov["same_seed_reruns"] = int(agg.get("redone", 0))
    cov["runs_cut_by_step_budget"] = int(agg.get("clipped", 0))
    ev.d["assumptions"] = list(assumptions)
    if viols:
        path, what, b = viols[0]
        out = os.path.join(REPLAYS, "%s-%s.replay" % (prop, os.path.basename(path).rsplit(".", 1)[0]))
        final = minimise(b, path, out)
        if final is None:
            # not reproducible in a fresh process: never report it
            h1, r1, _ = replay_run(b, path)
            h2, r2, _ = replay_run(b, path)
            if r1 is None or r1 != r2 or h1 != h2 or cls(r1) != cls(what):
                err(prop, "a run reported '%s' but its replay in a fresh process does not (%s)" % (what, r1))
            shutil.copy(path, out)
            final = r1
        with open(out) as f:
            body = f.read()
        with open(out, "w") as f:
            f.write("binary %s\n" % os.path.basename(b) + body)
        shutil.rmtree(outd, ignore_errors=True)
        violation(prop, out, final, ev)
    ev.write()
    print("%s: %d runs, %d distinct, %.0f s simulated, no violation" % (prop, cov["evaluations"], len(runs_hash), cov["simulated_time_s"]))
