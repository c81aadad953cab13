"""Checks of knowledge bases in shared memory (K01-K03) on the prover simulator."""
import json, os, random, re
import logic as L
import problems as P
import gkchecks as G
from gkcheck import Check
from gk import Scenario, Cmd

SYN = ("plain", "plain", "cnf", "fof", "js")
CONJ = ("conjecture", "negated_conjecture")


def nojs(syn, items, *others):
    """["w"] in json is not the atom w of the other syntaxes: no json beside another syntax when there are such atoms"""
    if syn == "js" and all(isinstance(it, dict) for it in items) and any(o != "js" for o in others) and re.search(r'"[a-z]\w*", \[\]', json.dumps(items)):
        return "cnf" if all(it["k"] == "c" for it in items) else "fof"
    return syn


def named(base, items, syn):
    if syn == "raw":
        return base + ".txt", "\n".join(items) + "\n"
    n, t = G.infile(items, syn)
    return base + "." + n.split(".")[-1], t


def kb_cfg(rng):
    c = {"bb_ps": 8400, "ncpu": rng.choice((1, 2, 4, 8)), "garbage": rng.choice((0, 1, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30), "lowmem": rng.choice((0, 1))}
    if rng.random() < 0.3:
        c["clock_gran"] = rng.choice((1, 1000, 10000))
    if rng.random() < 0.2:
        c["p_tod"] = 0.2
    if rng.random() < 0.2:
        c["chunk_rand"] = 1
        c["read_chunk"] = rng.choice((7, 64, 4096))
    return c


def split(rng, items):
    """part of the items for the knowledge base, the rest, with the conjectures, for the query"""
    pr = rng.choice((0.3, 0.5, 0.8, 1))
    k, q = [], []
    for it in items:
        (q if it["r"] in CONJ or it.get("q") or rng.random() >= pr else k).append(it)
    return k, q


EX = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "examples.json")))      # statements of contradictory example files of the repository


def raw_problem(rng):
    """(what, statements) of a contradictory problem with numbers, lists, strings and the like"""
    k = rng.choice(("ex", "ex", "count", "less", "mul", "list", "distinct", "real"))
    a, c = rng.randrange(0, 50), rng.randrange(1, 9)
    n = rng.randrange(2, 9)
    if k == "ex":
        f = rng.choice(sorted(EX))
        st = list(EX[f])
        if len(st) < 2:
            return raw_problem(rng)
        return "ex_" + f, st
    if k == "count":
        big = rng.choice((0, 0, 10000, 1 << 27, 1 << 31, 1 << 40)) if rng.random() < 0.5 else 0
        st = ["p(%d)." % (big + a), "-p(X) | p(%s)." % rng.choice(("X+%d" % c, "%d+X" % c, "$sum(X,%d)" % c)), "-p(%d)." % (big + a + n * c)]
    elif k == "less":
        st = ["age(x%d,%d)." % (i, rng.randrange(1, 30)) for i in range(n)] + ["age(old,%d)." % (40 + a), "-age(X,Y) | -$greater(Y,35) | senior(X).", "-senior(old)."]
    elif k == "mul":
        st = ["p(%d)." % rng.choice((1, 2, 3)), "-p(X) | p(%d*X)." % rng.choice((2, 3)), "-p(X) | $less(X,%d)." % rng.choice((20, 100, 1000))]
    elif k == "list":
        xs = [rng.randrange(50) for _ in range(n)]
        st = ["data(d1,[%s])." % ",".join(map(str, xs)), "=(lsum([]),0).", "=(lsum($list(X0,X1)),lsum(X1)+X0).", "-data(X,Y) | -$greater(lsum(Y),%d) | big(X)." % (sum(xs) - 1), "-big(d1)."]
    elif k == "distinct":
        u, v = rng.sample(("cat", "dog", "some longer text of a distinct object", "x y"), 2)
        st = ['type(s1,"%s").' % u, 'type(s2,"%s").' % v, "-type(X,Z) | -type(Y,U) | Z=U | X!=Y.", "s1=s2."]
    else:
        st = ["w(%d.5)." % a, "-w(X) | w($sum(X,%d.25))." % c, "-w(%s)." % repr(a + 0.5 + n * (c + 0.25))]
    for i in range(rng.choice((0, 0, 1, 3))):
        st.append("z%d(f(X),%s)." % (i, rng.choice(("1", "abc", "[a,b]", "2.5", '"str"'))))
    return k, st


def padding(rng):
    """many clauses that take part in nothing"""
    return [{"k": "c", "c": [[True, "pad%d" % rng.randrange(9), [["k%d" % i]]], [True, "pae", [0, ["k%d" % (i + 1)]]]], "r": "axiom"} for i in range(rng.choice((60, 105, 130, 300)))]


ROUTES = {"read": [["-readkb", "{k}", "-mbsize", "1000"]],
          "dump": [["-readkb", "{k}", "-mbsize", "1000"], ["-writekb", "kb.dmp"], ["-deletekb"], ["-loadkb", "kb.dmp"]],
          "over": [["-readkb", "{k}", "-mbsize", "1000"], ["-writekb", "kb.dmp"], ["-loadkb", "kb.dmp"]],
          "rw": [["-readwritekb", "{k}", "kb.dmp", "-mbsize", "1000"], ["-loadkb", "kb.dmp"]]}


def S(seconds):
    return int(seconds * 1e9)


def route(name, kn):
    return [["gkc"] + [a.replace("{k}", kn) for a in c] for c in ROUTES[name]]


def chain(argvs):
    return [Cmd(a, start=S(0.1) if i else 0, after=i - 1 if i else -1) for i, a in enumerate(argvs)]


class K01(Check):
    prop = "K01"
    small = "kb"
    quick = 50
    crash = True
    budget = 40000000
    rule = ("a case splits a problem (contradictory by construction, true in a random finite model, or a question over Horn rules) into a knowledge base text and a query text in random syntaxes, "
            "builds the knowledge base by -readkb, or through a dump by -writekb and -loadkb, in simulated shared memory, runs the query with a complete strategy or the automatic choice, sequential or parallel, "
            "and runs the same two texts as ordinary input files; non-trivial: the query had to use clauses of both, or the combination is satisfiable; distinct: by hash of the execution")
    assume = ["both searches get 40 million basic blocks, the one over the knowledge base, when that is not enough and the flat one proved, 30 times what the flat one took; one cut off there counts as undecided",
              "no faults are injected here (K02 and K03 do): the property is about what a completed search reports"]

    def gen(self, rng):
        kind = rng.choice(("unsat", "unsat", "unsat", "sat", "ask", "raw", "raw"))
        ask = None
        if kind == "raw":
            return self.gen_raw(rng)
        if kind == "unsat":
            items, k = P.gen(rng)
        elif kind == "sat":
            items, _, _ = G.gen_true_items(rng)
            k = "sat"
        else:
            h = P.horn(rng, funcs=rng.random() < 0.5)
            if not h:
                return None
            cls = list(h[0])
            if any(P.var_eq(c) for c in cls):
                return None
            preds = {l[1]: len(l[2]) for c in cls for l in c}
            q = G.question(rng, preds, sorted({a[0] for c in cls for l in c for a in l[2] if not isinstance(a, int) and len(a) == 1}))
            if not q:
                return None
            items = [{"k": "c", "c": c, "r": "axiom"} for c in cls] + [{"k": "c", "c": q, "r": "axiom", "q": 1}]
            k = "ask"
            ask = rng.choice((1, 2, 5))
        if not items or any(it["k"] == "c" and P.var_eq(it["c"]) for it in items):
            return None
        a, b = split(rng, items)
        if not a or not b:
            return None
        if rng.random() < 0.06:
            (a if rng.random() < 0.3 else b).extend(padding(rng))
        auto = rng.random() < 0.3
        guide = None
        if not auto:
            guide = {"query_preference": 0, "print_level": 10, "max_dseconds": 100}
            st = rng.choice(G.COMPLETE)
            if st:
                guide["strategy"] = [st]
            if ask:
                guide["max_answers"] = ask
        syn = rng.choice(SYN) if not ask else rng.choice(("plain", "cnf"))
        return {"kb": a, "q": b, "kind": kind, "what": k, "syn": [syn, syn if rng.random() < 0.6 or ask else rng.choice(SYN)], "guide": guide, "ask": ask,
                "par": rng.choice((0, 0, 0, 2, 4)) if guide is None else 0, "fmt": rng.choice(("", "", "", "-json", "-tptp")),
                "route": rng.choice(("read",) * 8 + ("dump", "over", "rw")), "cfg": kb_cfg(rng), "seed": rng.randrange(1, 1 << 40)}

    def gen_raw(self, rng):
        what, st = raw_problem(rng)
        pr = rng.choice((0.3, 0.5, 0.8, 0.95))
        order = list(range(len(st)))
        a = [i for i in order if rng.random() < pr]
        b = [i for i in order if i not in a]
        if not a or not b:
            return None
        guide = None
        if rng.random() < 0.4 and what in ("count", "less", "mul", "list", "real"):      # a single strategy is not complete for equality in longer clauses
            guide = {"query_preference": 0, "print_level": 10, "max_dseconds": 100}
            st1 = rng.choice(G.COMPLETE)
            if st1:
                guide["strategy"] = [st1]
        cfg = kb_cfg(rng)
        return {"kb": [st[i] for i in a], "q": [st[i] for i in b], "kind": "raw", "what": what, "syn": ["raw", "raw"], "guide": guide, "ask": None, "par": rng.choice((0, 0, 0, 2)) if guide is None else 0,
                "fmt": "", "route": rng.choice(("read",) * 8 + ("dump", "over", "rw")), "cfg": cfg, "seed": rng.randrange(1, 1 << 40)}

    def args(self, case):
        a = ["-mbsize", "10", "-parallel", str(case["par"])]
        if case["fmt"]:
            a.append(case["fmt"])
        if case["guide"]:
            a += ["-strategytext", json.dumps(case["guide"])]
        return a

    def run(self, R, case):
        kn, kt = named("kb", case["kb"], nojs(case["syn"][0], case["kb"] + case["q"], case["syn"][1]))
        qn, qt = named("q", case["q"], nojs(case["syn"][1], case["kb"] + case["q"], case["syn"][0]))
        files = {kn: kt, qn: qt}
        args = self.args(case)
        rt = route(case["route"], kn)
        n = len(rt)
        if case["cfg"].get("read_chunk") and n > 1:
            case = dict(case, cfg=dict(case["cfg"], read_chunk=4096))
        fr = R("flat", Scenario(case["seed"], dict(case["cfg"], max_bb=self.budget), files, [Cmd(["gkc"] + args + [kn, qn])]))
        pf = G.proved(fr.out())
        R.tick("kind_" + case["what"].split("_")[0])
        R.tick("route_" + case["route"])
        bb = self.budget
        for key, bb in (("kb", self.budget), ("kblong", max(self.budget, 30 * fr.bb))):
            # building and dumping take steps of their own
            r = R(key, Scenario(case["seed"], dict(case["cfg"], max_bb=bb + (60000000 if n > 1 else 0)), files, chain(rt + [["gkc"] + args + ["-usekb", qn]])))
            if not (r.clipped and pf):
                break
        pk = G.proved(r.out(n))
        desc = "%s\n-- %s\n%s\n-- %s\n%s" % (" ".join(args), kn, kt, qn, qt)
        for i in range(n):
            if r.procs[i]["ended"] and (r.status(i) != 0) or re.search("error", r.out(i) + r.err(i), re.I):
                return "not built: %s ends with status %s: %s\n%s" % (" ".join(rt[i]), r.status(i), (r.out(i) + r.err(i))[-300:], desc)
        if not all(r.procs[i]["ended"] for i in range(n)):
            R.tick("undecided_not_built")
            return None
        if case["kind"] == "sat" and pk:
            return "unsound: a proof over the knowledge base for a satisfiable combination\n%s\n%s" % (desc, r.out(n)[-2000:])
        if pf and not pk:
            if r.clipped:
                R.tick("undecided")
                return None
            return "not found: over the knowledge base the query ends with status %s and without the proof that the same texts as files have\n%s\n%s" % (r.status(n), desc, (r.out(n) + r.err(n))[-600:])
        if pk and not pf and not fr.clipped and case["guide"] and not case["ask"]:
            R.tick("proved_only_with_kb")
        if pk and r.status(n) not in (0, None):
            return "exit status %s after a proof over the knowledge base\n%s" % (r.status(n), desc)
        if pk or case["kind"] == "sat":
            R.nontrivial = True
        R.tick("proved" if pk else "not_proved")
        return self.check_proofs(R, case, r, n, desc) if pk and case["kind"] != "raw" else None

    def check_proofs(self, R, case, r, n, desc):
        import proofs as F
        parse = {"": F.parse_text, "-json": F.parse_json, "-tptp": F.parse_tptp}[case["fmt"]]
        items = case["kb"] + case["q"]
        clausal = all(it["k"] == "c" and it["r"] != "conjecture" for it in items) and case["syn"] == [x for x in case["syn"] if x != "js"]
        cls = [it["c"] for it in items] if clausal else None
        ent = F.Ent()
        outs = {}
        for o in r.outs:
            if o[1] == n:
                outs.setdefault(o[0], []).append(o[3])
        try:
            for p, t in sorted(outs.items()):
                t = b"".join(t).decode("latin1")
                if not G.proved(t) or not G.ended_well(r, p):
                    continue
                for ans, steps in parse(t):
                    bad = self.steps_ok(F, ans, steps, cls, R, ent)
                    if bad:
                        return "bad proof: %s\n%s\n%s" % (bad, desc, t[-2500:])
                    R.tick("proofs_checked")
                    if ans is not None:
                        if case["kind"] == "ask":
                            v, how = G.R03.decide([it["c"] for it in items], None, ans)
                            R.tick("answers_%s" % {True: "right", False: "wrong", None: "undecided"}[v])
                            if v is False:
                                return "wrong answer: %s\n%s\n%s" % (L.ren_clause(ans), desc, t[-2000:])
        except F.Bad as e:
            return "unreadable proof: %s\n%s\n%s" % (e, desc, r.out(n)[-2500:])
        return None

    @staticmethod
    def steps_ok(F, ans, steps, cls, R, ent):
        if cls is not None:
            return F.check((ans, steps), cls, R.tick, ent)
        # clauses made from formulas: their form is not known here, the leaves are taken as they are
        return F.check((ans, steps), [s[3] for s in steps if s[1] == "in"], R.tick, ent)

    def shrink(self, case):
        for k in ("kb", "q"):
            for c in G.drop_each(case[k]):
                if c:
                    yield dict(case, **{k: c})
        if case["par"]:
            yield dict(case, par=0)
        if case["route"] != "read":
            yield dict(case, route="read")
        if case["fmt"]:
            yield dict(case, fmt="")
        if case["kind"] != "raw" and case["syn"] != ["plain", "plain"]:
            yield dict(case, syn=["plain", "plain"])


STORM = (4, 5, 6, 7, 8, 9, 10, 11, 12, 17)         # kinds of decisions that fail something (not those that only order or delay)


class K02(Check):
    prop = "K02"
    small = "kb"
    quick = 50
    crash = True
    rule = ("a case builds one knowledge base (Horn rules, clauses true in a finite model, numbers and lists), runs each of 2-5 queries alone, then 3-8 of them at overlapping times under a seeded schedule, "
            "with processes killed at any block, failing allocations, forks, reads, attaches and outputs, time limits and stalls, then one query alone again; the segment's bytes are hashed when each command ends; "
            "queries are contradictory or satisfiable by construction, endless, unreadable, or write a dump; non-trivial: at least two queries overlapped in time or one was disturbed; distinct: by hash of the execution")
    assume = ["a query met by a fault may end in any way but must not report a false proof, crash by a signal of its own or change the knowledge base",
              "simulated processes that are not disturbed get the result of the query alone; a search cut by the block budget counts as undecided"]

    def gen(self, rng):
        k = rng.choice(("horn", "horn", "model", "raw"))
        qs = []

        def cl(*cs):
            return [{"k": "c", "c": c, "r": "axiom"} for c in cs]
        if k == "horn":
            h = P.horn(rng, funcs=rng.random() < 0.5)
            if not h:
                return None
            kb = [{"k": "c", "c": c, "r": "axiom"} for c in h[0]]
            if any(P.var_eq(it["c"]) for it in kb):
                return None
            db = [f for fs in h[2][2].values() for f in fs]
            for _ in range(rng.choice((1, 2, 3))):
                f = rng.choice(db)
                qs.append([True, cl([[False, f[1], f[2]]])])
            for _ in range(rng.choice((1, 2))):                    # definite clauses only: never contradictory
                p = rng.choice(db)
                qs.append([False, cl([[False, p[1], [i for i in range(len(p[2]))]], [True, "new", [0] if p[2] else [["a"]]]], [[False, "new", [0]], [True, "newer", [["f", 0]]]])])
        elif k == "model":
            kb, m, sig = G.gen_true_items(rng, form=0.2, conj=False)
            cs = [it["c"] for it in kb if it["k"] == "c"]
            if not cs or any(P.var_eq(c) for c in cs):
                return None
            for _ in range(rng.choice((1, 2))):
                c = rng.choice(cs)
                env = {v: ["new%d" % v] for v in L.cvars(c)}
                qs.append([True, cl(*[[[not l[0], l[1], [L.subst(t, env) for t in l[2]]]] for l in c])])
            for _ in range(rng.choice((1, 2))):
                t = [c for c in (L.true_clause(rng, sig, m, peq=0.2) for _ in range(3)) if c and not P.var_eq(c)]
                if t:
                    qs.append([False, cl(*t)])
        else:
            kb = None
            raw, st = raw_problem(rng)
            if raw.startswith("ex_") or len(st) < 2:
                return None
            qs.append([None, [st[-1]] if not st[-1].startswith("z") else [next(x for x in reversed(st) if not x.startswith("z"))]])
            st = [x for x in st if x not in qs[0][1]]
            kb = st
            qs.append([None, ["-zz(X) | zy(%s)." % rng.choice(("X+1", "$product(X,3)", "$list(X,[])", '"text of some length"')), "zz(%s)." % rng.choice(("3", "2.5", "a", '"abc"'))]])
        if rng.random() < 0.6:
            ren = {"k": "c"}
            inf = G.infinite(rng)
            for it in inf:
                it["c"] = [[l[0], "=" if l[1] == "=" else "inf_" + l[1], [G_ren(t) for t in l[2]]] for l in it["c"]]
            qs.append([False if k != "model" else None, inf])
        if rng.random() < 0.3:
            qs.append([None, rng.choice((["p(X.\n"], ["-usekb\n"], [""]))])
        if not kb or not qs:
            return None
        cmds = []
        for i, (truth, items) in enumerate(qs):
            auto = rng.random() < 0.3
            guide = None
            if not auto:
                guide = G.rguide(rng, exotic=False, dsec=(100,)) if rng.random() < 0.5 else {"query_preference": 0, "print_level": 10, "max_dseconds": 100}
            cmds.append({"truth": truth, "items": items, "guide": guide, "par": rng.choice((0, 0, 2, 3)) if auto else rng.choice((0, 0, 2)) if guide and "runs" in guide else 0,
                         "fmt": rng.choice(("", "", "-json", "-tptp")), "sec": rng.choice((None, None, None, 1)) if truth else 1, "syn": rng.choice(SYN) if isinstance(items[0], dict) else "raw", "dump": 0})
        batch = [[rng.randrange(len(cmds)), rng.choice((0, 0, 0.001, 0.01, 0.1))] for _ in range(rng.choice((3, 4, 6, 8)))]
        if rng.random() < 0.15:
            batch[rng.randrange(len(batch))][0] = -1               # -writekb at the same time
        cfg = dict(kb_cfg(rng), bb_ps=84000, quantum=rng.choice((3000, 20000, 20000, 50000)))
        f = rng.choice(("", "", "die", "malloc", "fork", "read", "shm", "stdout", "all"))
        if f in ("die", "all"):
            cfg["p_die"] = rng.choice((0.001, 0.01, 0.1))
            cfg["die_procs"] = rng.choice((0, 1, 1))
        if f in ("malloc", "all"):
            cfg["p_malloc"] = rng.choice((0.002, 0.02))
        if f in ("fork", "all"):
            cfg["p_fork"], cfg["p_eintr"] = 0.3, 0.2
        if f in ("read", "all"):
            cfg["p_read"], cfg["p_readshort"], cfg["p_open"] = 0.1, 0.3, 0.1
        if f in ("shm", "all"):
            cfg["p_shm"] = 0.15
        if f in ("stdout", "all"):
            cfg["p_stdout"] = 0.05
        if rng.random() < 0.3:
            cfg["p_stall"], cfg["stall_max"] = 0.02, 100000000
        cfg["max_bb"] = 250000000
        cfg["shmhash"] = 1
        return {"kb": kb, "kind": k, "ksyn": rng.choice(SYN) if isinstance(kb[0], dict) else "raw", "qs": cmds, "batch": batch, "probe": rng.randrange(len(cmds)),
                "route": rng.choice(("read",) * 9 + ("dump",)), "cfg": cfg, "seed": rng.randrange(1, 1 << 40)}

    def run(self, R, case):
        syns = [case["ksyn"]] + [q["syn"] for q in case["qs"]]
        kn, kt = named("kb", case["kb"], nojs(case["ksyn"], case["kb"] + sum((q["items"] for q in case["qs"]), []), *syns))
        files = {kn: kt}
        argvs = []
        for i, q in enumerate(case["qs"]):
            qn, qt = named("q%d" % i, q["items"], nojs(q["syn"], case["kb"] + q["items"], *syns))
            files[qn] = qt
            a = ["gkc", "-mbsize", "10", "-print", "10", "-parallel", str(q["par"])] + ([q["fmt"]] if q["fmt"] else []) + (["-strategytext", json.dumps(q["guide"])] if q["guide"] else [])
            if q["sec"]:
                a += ["-seconds", str(q["sec"])]
            argvs.append(a + ["-usekb", qn])
        rt = route(case["route"], kn)
        nq, n0 = len(argvs), len(rt)
        cmds = chain(rt + argvs)
        calm = len(cmds)
        for i, t in case["batch"]:
            cmds.append(Cmd(argvs[i] if i >= 0 else ["gkc", "-writekb", "out.dmp"], start=S(t), after=calm - 1))
        storm = len(cmds)
        cmds.append(Cmd(argvs[case["probe"]], start=S(1000), after=calm - 1))
        cfg = dict(case["cfg"], calm=calm, storm_end=storm)
        if cfg.get("read_chunk") and case["route"] != "read":
            cfg["read_chunk"] = 4096
        r = R("main", Scenario(case["seed"], cfg, files, cmds))
        desc = "%s\n%s\n%s" % ("\n".join("%d %s" % (i, " ".join(c.argv)) for i, c in enumerate(cmds)), "\n".join("-- %s\n%s" % x for x in files.items()), case["cfg"])
        if not all(r.procs[i]["ended"] for i in range(n0)):
            R.tick("undecided_not_built")
            return None
        for i in range(n0):
            if r.status(i) != 0:
                return "not built: %s ends with status %s: %s\n%s" % (" ".join(rt[i]), r.status(i), (r.out(i) + r.err(i))[-300:], desc)
        h0 = r.left[n0 - 1][2]
        for i in range(n0, len(cmds)):
            if r.procs[i]["ended"]:
                R.tick("hashes_compared")
                if r.left[i][2] != h0:
                    return "changed: the knowledge base differs when command %d (%s) ends\n%s" % (i, " ".join(cmds[i].argv), desc)
        if r.overflow:
            R.tick("too_much_to_record")
            return None
        procs = {}
        for p in r.procs:
            procs.setdefault(p["cmd"], []).append(p["id"])
        hit = {d[0] for d in r.decs if d[1] in STORM}
        R.tick("kind_" + case["kind"])
        for i in range(n0, len(cmds)):
            k = i - n0 if i < calm else case["batch"][i - calm][0] if i < storm else case["probe"]
            if k < 0:
                continue
            q = case["qs"][k]
            pr = G.proved(r.out(i))
            if pr and q["truth"] is False:
                return "unsound: command %d reports a proof for a satisfiable combination\n%s\n%s" % (i, desc, r.out(i)[-1500:])
            if any(p in hit for p in procs.get(i, [])):
                R.tick("disturbed")
                R.nontrivial = True
                continue
            if not r.procs[i]["ended"]:
                R.tick("undecided")
                continue
            R.tick("proved" if pr else "not_proved")
            if i < calm:
                if q["truth"] and not pr and q["sec"] is None and not q["guide"]:
                    return "not found: command %d, alone, has no proof\n%s\n%s" % (i, desc, r.out(i)[-800:])
                continue
            R.nontrivial = True
            lone = n0 + k
            if not r.procs[lone]["ended"]:
                continue
            if pr != G.proved(r.out(lone)) or r.status(i) != r.status(lone):
                if "time limit" in r.out(i) + r.out(lone):
                    R.tick("differs_by_time_limit")
                    continue
                return "differs: command %d ends with status %s and %s, the same query alone with status %s and %s\n%s\n-- %s\n-- %s" % (
                    i, r.status(i), "a proof" if pr else "no proof", r.status(lone), "a proof" if G.proved(r.out(lone)) else "no proof", desc, r.out(i)[-600:], r.out(lone)[-600:])
            R.tick("same_as_alone")
        return None

    def shrink(self, case):
        for b in G.drop_each(case["batch"]):
            yield dict(case, batch=b)
        for i in range(len(case["qs"])):
            if i != case["probe"] and len(case["qs"]) > 1 and all(b[0] != i for b in case["batch"]):
                f = lambda x: x - 1 if x > i else x
                yield dict(case, qs=case["qs"][:i] + case["qs"][i + 1:], batch=[[f(a), t] for a, t in case["batch"]], probe=f(case["probe"]))
        for c in G.drop_each(case["kb"]):
            if c:
                yield dict(case, kb=c)


def G_ren(t):
    return t if isinstance(t, int) else ["inf_" + t[0]] + [G_ren(x) for x in t[1:]]


ANS = re.compile(r"\$ans\(([^()]*)\)")


class K03(Check):
    prop = "K03"
    small = "kb"
    quick = 50
    crash = True
    rule = ("a case is a history of 4-14 commands (-readkb, -readwritekb, -writekb, -loadkb, -deletekb, -usekb) over 1-3 knowledge base numbers and 2 dump files, one after another or overlapping, with unreadable texts, "
            "missing and damaged dumps, full disks, short and failing writes and closes, failing reads, attaches and allocations, and processes killed at any block in a window of the history; "
            "a small model holds what each number and each dump may contain, and a query asks every number at the end; non-trivial: at least one query was answered or refused as the model demands; distinct: by hash of the execution")
    assume = ["a command that fails or dies may leave its own number as before, gone, not ready or with its new content, and its dump file in any state",
              "commands overlapping on one number are only required to leave one of the contents involved, whole, or none"]

    def gen(self, rng):
        nrs = rng.sample([None, 5, 77, 1001, 2000000000], rng.choice((1, 2, 2, 3)))
        dumps = ["d1.dmp", "d2.dmp"]
        ops = []
        for i in range(rng.choice((4, 6, 8, 10, 14))):
            n = rng.randrange(len(nrs))
            k = rng.choice(("read", "read", "use", "use", "write", "write", "load", "load", "delete", "rw"))
            if i == 0 or (i == 1 and rng.random() < 0.5):
                k = rng.choice(("read", "read", "read", "rw"))
            o = {"k": k, "n": n, "gap": rng.choice((0.1, 0.1, 0.1, 5, 4000))}
            if k in ("read", "rw"):
                o["c"] = -1 if rng.random() < 0.08 else i
            if k in ("write", "load", "rw"):
                o["d"] = rng.randrange(2) if rng.random() < 0.93 else 2           # 2: a text file
            o["over"] = int(i > 1 and rng.random() < 0.12)                       # starts together with the command before
            ops.append(o)
        cfg = kb_cfg(rng)
        cfg.update(max_bb=900000000, quantum=rng.choice((3000, 20000, 50000)))
        f = rng.choice(("", "die", "die", "malloc", "write", "write", "read", "shm", "all", "cap", "stdout"))
        if f in ("die", "all"):
            cfg["p_die"] = rng.choice((0.0003, 0.003, 0.03))
            cfg["die_procs"] = 1
        if f in ("malloc", "all"):
            cfg["p_malloc"] = rng.choice((0.005, 0.05))
        if f in ("write", "all"):
            cfg["p_write"], cfg["p_close"], cfg["p_open"] = rng.choice((0.02, 0.3)), 0.1, 0.05
        if f in ("read", "all"):
            cfg["p_read"], cfg["p_readshort"] = rng.choice((0.02, 0.2)), 0.2
        if f in ("shm", "all"):
            cfg["p_shm"] = rng.choice((0.05, 0.2))
        if f == "cap":
            cfg["disk_cap"] = rng.choice((100000, 1000000, 8000000))
        if f == "stdout":
            cfg["p_stdout"] = 0.1
        if rng.random() < 0.05:
            cfg["shm_limit"] = rng.choice((500, 1500, 2500)) << 20
        a = rng.randrange(len(ops))
        return {"nrs": nrs, "ops": ops, "window": [a, min(len(ops), a + rng.choice((1, 2, 4, 20)))], "cfg": cfg, "seed": rng.randrange(1, 1 << 40), "pad": rng.choice((0, 0, 3, 40))}

    @staticmethod
    def text(i, pad):
        if i < 0:
            return "base(broken).\nlink(broken,\n"
        s = ["base(k%d)." % i, "link(k%d,t%d)." % (i, i), "-base(X) | -link(X,Y) | has(X,Y)."]
        return "\n".join(s + ["-zp%d(X,k%d) | zq(f(X),X)." % (j, i) for j in range(pad)]) + "\n"

    def run(self, R, case):
        nrs, ops = case["nrs"], case["ops"]
        files = {"q.txt": "-has(X,Y) | $ans(X,Y).\n", "no.dmp": "base(nothing).\n"}
        cmds = []

        def nr(n):
            return [] if nrs[n] is None else ["-mbnr", str(nrs[n])]
        for o in ops:
            if "c" in o:
                fn = "t%d.txt" % o["c"] if o["c"] >= 0 else "bad.txt"
                files[fn] = self.text(o["c"], case["pad"])
            d = ["d1.dmp", "d2.dmp", "no.dmp"][o.get("d", 0)]
            a = {"read": lambda: ["-readkb", fn, "-mbsize", "1000"], "rw": lambda: ["-readwritekb", fn, d, "-mbsize", "1000"], "write": lambda: ["-writekb", d],
                 "load": lambda: ["-loadkb", d], "delete": lambda: ["-deletekb"], "use": lambda: ["-usekb", "q.txt", "-mbsize", "10", "-parallel", "0", "-print", "10"]}[o["k"]]()
            i = len(cmds)
            o = dict(o, over=o["over"] and i > 0)
            if o["over"]:
                cmds.append(Cmd(["gkc"] + a + nr(o["n"]), start=cmds[i - 1].start, after=cmds[i - 1].after))
            else:
                cmds.append(Cmd(["gkc"] + a + nr(o["n"]), start=S(o["gap"]) if i else 0, after=i - 1 if i else -1))
        # an overlapping command may still run when the one before it ends: wait for both
        for i in range(2, len(cmds)):
            if ops[i - 1]["over"] and not ops[i]["over"]:
                cmds[i].start = S(1000)
                for j in range(i + 1, len(ops)):
                    if not ops[j]["over"]:
                        break
                    cmds[j].start, cmds[j].after = cmds[i].start, cmds[i].after
        last = len(cmds) - 1
        for n in range(len(nrs)):
            cmds.append(Cmd(["gkc", "-usekb", "q.txt", "-mbsize", "10", "-parallel", "0", "-print", "10"] + nr(n), start=S(1000) if not n else S(1), after=last if not n else len(cmds) - 1))
        cfg = dict(case["cfg"], calm=case["window"][0], storm_end=case["window"][1])
        if cfg.get("read_chunk"):
            cfg["read_chunk"] = 4096
        r = R("main", Scenario(case["seed"], cfg, files, cmds))
        desc = "%s\n%s" % ("\n".join("%d %s -> %s" % (i, " ".join(c.argv), r.status(i) if i < len(r.procs) else "not run") for i, c in enumerate(cmds)), cfg)
        if r.overflow or r.clipped:
            R.tick("too_long")
            return None
        hit = {}
        for d in r.decs:
            if d[1] in STORM:
                hit[d[0]] = 1
        if r.deadlock:
            return "stuck: the history does not end\n%s" % desc
        st = [{None} for _ in nrs]             # contents each number may have; -2: not ready
        df = [{None}, {None}, {None}]          # contents each dump may have; -2: damaged
        lim = "shm_limit" in cfg
        cap = "disk_cap" in cfg
        allops = ops + [{"k": "use", "n": n, "over": 0} for n in range(len(nrs))]
        i = 0
        while i < len(allops):
            group = [i]
            while group[-1] + 1 < len(allops) and allops[group[-1] + 1]["over"]:
                group.append(group[-1] + 1)
            i = group[-1] + 1
            if len(group) == 1:
                v = self.step(R, r, group[0], allops[group[0]], st, df, hit, lim, cap)
                if v:
                    return v + "\n" + desc + "\n" + (r.out(group[0]) + r.err(group[0]))[-500:]
                continue
            R.tick("overlaps")
            conts = [{o.get("c") for o in (allops[g] for g in group) if o["n"] == n and o.get("c", -1) >= 0} for n in range(len(nrs))]
            touched = {o["n"] for o in (allops[g] for g in group) if o["k"] in ("read", "rw", "load", "delete")}
            # a few rounds, as one command may take up what another just made
            for _ in range(3):
                ost = [set(x) for x in st]
                for g in group:
                    o = allops[g]
                    if o["n"] in touched:
                        st[o["n"]] |= {None, -2} | conts[o["n"]]
                        if o["k"] == "load":
                            st[o["n"]] |= df[o["d"]] - {None, -2}
                    if o["k"] in ("write", "rw"):
                        df[o["d"]] |= {-2} | {x for x in st[o["n"]] | conts[o["n"]] if x is not None and x != -2}
                if ost == st:
                    break
            for g in group:
                if allops[g]["k"] == "use":
                    v = self.use(R, r, g, allops[g], st[allops[g]["n"]], False)
                    if v:
                        return v + "\n" + desc + "\n" + (r.out(g) + r.err(g))[-500:]
        return None

    def use(self, R, r, i, o, poss, sure):
        t = r.out(i)
        s = r.status(i)
        if G.proved(t):
            a = ANS.search(t)
            m = a and re.fullmatch(r"k(\d+),t(\d+)", a.group(1))
            if not m or m.group(1) != m.group(2):
                return "wrong content: command %d answers %s" % (i, a.group(1) if a else "nothing")
            c = int(m.group(1))
            if c not in poss:
                return "wrong content: command %d finds k%d, number %s can only hold %s" % (i, c, o["n"], sorted(poss, key=str))
            R.nontrivial = True
            R.tick("answered")
            if sure:
                poss.clear()
                poss.add(c)
            return None
        if s == 0:
            if sure and not any(x is not None and x != -2 for x in poss):
                return "silent: command %d on a knowledge base that is not there ends with status 0" % i
            if sure:
                return "lost: command %d finds nothing in number %s, which may hold %s" % (i, o["n"], sorted(poss, key=str))
            return None
        if sure:
            if None not in poss and -2 not in poss:
                return "lost: command %d ends with status %s, number %s holds %s" % (i, s, o["n"], sorted(poss, key=str))
            poss &= {None, -2}
            R.tick("refused")
            R.nontrivial = True
        return None

    def step(self, R, r, i, o, st, df, hit, lim, cap):
        n, k, s = o["n"], o["k"], r.status(i)
        h = i in hit or lim
        ok = s == 0
        real = lambda x: {y for y in x if y is not None and y != -2}
        R.tick(k + ("_disturbed" if i in hit else ""))
        if k == "use":
            return self.use(R, r, i, o, st[n], not h)
        if k == "delete":
            if ok:
                st[n] = {None}
            elif not h:
                return "fails: command %d, -deletekb, ends with status %s" % (i, s)
            else:
                st[n] |= {None}
            return None
        if k in ("read", "rw"):
            good = o["c"] >= 0
            if ok:
                if not good:
                    return "silent: command %d reads a broken text and ends with status 0" % i
                st[n] = {o["c"]}
                if k == "rw":
                    df[o["d"]] = {o["c"]}
            else:
                if good and not h and not (k == "rw" and cap):
                    return "fails: command %d, a good text, ends with status %s" % (i, s)
                st[n] |= {None, -2} | ({o["c"]} if good else set())
                if k == "rw":
                    df[o["d"]] |= {-2} | ({o["c"]} if good else set())
            return None
        if k == "write":
            if ok:
                if not real(st[n]):
                    return "silent: command %d writes a knowledge base that is not there and ends with status 0" % i
                st[n] = real(st[n])
                df[o["d"]] = set(st[n])
            else:
                if not h and not cap and None not in st[n] and -2 not in st[n]:
                    return "fails: command %d, -writekb, ends with status %s" % (i, s)
                df[o["d"]] |= {-2} | real(st[n])
            return None
        if k == "load":
            d = df[o["d"]]
            if ok:
                if not real(d):
                    return "silent: command %d loads a file that is no dump and ends with status 0" % i
                st[n] = real(d)
            else:
                if not h and None not in d and -2 not in d:
                    return "fails: command %d, -loadkb of a good dump, ends with status %s" % (i, s)
                st[n] |= {None, -2} | real(d)
            return None
        return None

    def shrink(self, case):
        for k in range(len(case["ops"])):
            w = [x - (x > k) for x in case["window"]]
            yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1:], window=w) if len(case["ops"]) > 1 else dict(case)
        if case["pad"]:
            yield dict(case, pad=0)


KB = {"K01": K01, "K02": K02, "K03": K03}
G.GK.update(KB)
