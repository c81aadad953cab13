"""The prover checks."""
import json, random, re
import logic as L
import problems as P
from gk import Cmd, Scenario
from gkcheck import Check

# ---------------------------------------------------------------- shared pieces
NAMES = ["negative_pref", "positive_pref", "hyper", "unit", "double", "triple", "pure_unit", "hardness_pref", "query_focus", "knuthbendix_pref",
         "prohibit_nested_para", "prohibit_unordered_para", "prohibit_deep_para", "posunitpara", "max_ground_weight", "max_weight", "hornpref",
         "posweightdoublepref", "negweightdoublepref"]
MAIN = ["negative_pref", "negative_pref", "positive_pref", "hyper", "unit", "hardness_pref", "query_focus", "knuthbendix_pref", "query_focus"]


def rstrategy(rng, exotic=True):
    s = {"strategy": sorted({rng.choice(MAIN)} | {rng.choice(NAMES) for _ in range(rng.choice((0, 0, 1, 1, 2)))})}
    s["query_preference"] = rng.choice((0, 0, 1, 1, 2, 3, 4))
    for k, vals, p in (("weight_select_ratio", (1, 5, 20, 100), 0.2), ("depth_penalty", (1, 50, 100), 0.15), ("length_penalty", (1, 50, 100), 0.15),
                       ("max_size", (10, 20, 30), 0.08), ("max_depth", (1, 2, 3, 6), 0.1), ("max_length", (1, 2, 4), 0.08), ("max_weight", (50, 300), 0.05),
                       ("rewrite", (0, 1), 0.15), ("equality", (0,), 0.03), ("reverse_clauselist", (1,), 0.12), ("var_weight", (1, 7, 70), 0.1),
                       ("repeat_var_weight", (1, 7, 70), 0.1), ("sine", (1, 2), 0.04), ("instgen", (1,), 0.04 if exotic else 0), ("propgen", (1,), 0.04 if exotic else 0),
                       ("arith_instantiation", (0, 2), 0.05)):
        if rng.random() < p:
            s[k] = rng.choice(vals)
    return s


def rguide(rng, nruns=None, dsec=(1, 1, 2, 5), exotic=True, answers=None):
    """A strategy text: one run or several."""
    n = rng.choice((1, 1, 1, 2, 3)) if nruns is None else nruns
    runs = []
    for _ in range(n):
        s = rstrategy(rng, exotic)
        s["max_dseconds"] = rng.choice(dsec)
        runs.append(s)
    g = {"print": 1, "runs": runs} if n > 1 or rng.random() < 0.3 else dict(runs[0], print=1)
    if answers is not None:
        g = dict([("max_answers", answers)] + list(g.items()))
    return g


def swarm(rng, faults=0.0, parallel=False, slow=True):
    """Simulator settings of one run; every class of disturbance is switched on or off per run."""
    c = {"bb_ps": rng.choice((84000, 420000, 840000)) if slow else 8400, "max_bb": 40000000, "ncpu": rng.choice((1, 2, 4, 4, 8))}
    if parallel:
        c["quantum"] = rng.choice((300, 3000, 20000, 50000))
        if rng.random() < 0.3:
            c["p_stall"] = rng.choice((0.02, 0.2))
            c["stall_max"] = rng.choice((1000000, 100000000))
    c["garbage"] = rng.choice((0, 1, 1, 2))
    c["garbage_seed"] = rng.randrange(1, 1 << 30)
    if rng.random() < 0.3:
        c["clock_gran"] = rng.choice((1, 1000, 10000))
    if rng.random() < 0.15:
        c["p_clock"] = 0.3
    if rng.random() < 0.2:
        c["p_tod"] = 0.2
    if rng.random() < 0.3:
        c["chunk_rand"] = 1
        c["read_chunk"] = rng.choice((1, 7, 64, 4096))
    if rng.random() < faults:
        k = rng.choice(("die", "fork", "eintr", "malloc", "malloc", "mem"))
        if k == "die":
            c["p_die"] = rng.choice((0.001, 0.01, 0.1))
        elif k == "fork":
            c["p_fork"] = rng.choice((0.2, 0.6))
        elif k == "eintr":
            c["p_eintr"] = 0.3
        elif k == "malloc":
            c["p_malloc"] = rng.choice((0.002, 0.02))
        else:
            c["memlimit"] = rng.choice((100, 400, 1000, 3000)) << 20
    return c


def gen_true_items(rng, form=0.3, sig=None, n=None, conj=True, size=None, eq=None):
    """A satisfiable problem: items all true in a random finite model."""
    sig = sig or L.Sig(rng, eq=eq)
    m = L.Model.random(rng, size or rng.choice((1, 2, 2, 2, 3, 3, 4)), sig.fn, sig.pr)
    items = []
    n = n or rng.choice((3, 5, 7, 9, 12))
    forms = rng.random() < form
    for i in range(n):
        if forms and rng.random() < 0.35:
            f = L.rformula(rng, sig, rng.choice((2, 3, 3)), [])
            r = rng.choice(("axiom", "axiom", "hypothesis", "assumption", "negated_conjecture"))
            if not m.closed(f):
                f = ["~", f]
            items.append({"k": "f", "f": f, "r": r})
        else:
            c = L.true_unit(rng, sig, m) if rng.random() < 0.4 else L.true_clause(rng, sig, m, peq=rng.choice((0.2, 0.5, 0.8)))
            if c:
                items.append({"k": "c", "c": c, "r": rng.choice(("axiom",) * 6 + ("assumption", "negated_conjecture", "hypothesis"))})
    if conj and rng.random() < 0.4:
        # a conjecture that is false in the model does not follow
        if rng.random() < 0.5:
            f = L.rformula(rng, sig, 2, [])
            if m.closed(f):
                f = ["~", f]
            items.append({"k": "f", "f": f, "r": "conjecture"})
        else:
            for _ in range(20):
                c = L.rclause(rng, sig, maxlen=2)
                it = {"k": "c", "c": c, "r": "conjecture"}
                if m.item(it):
                    items.append(it)
                    break
    # some functions of the signature may not occur: keep the model for all
    return items, m, sig


def infile(items, syntax, name="in.txt"):
    return ("in.js" if syntax == "js" else name), L.render(items, syntax)


PROOF = re.compile(r'result: proof found|"result": "proof found"|SZS status (?:Theorem|Unsatisfiable|ContradictoryAxioms)')
NOPROOF = re.compile(r'result: proof not found|"result": "proof not found|SZS status Timeout')
CRASH = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}


def proved(text):
    return PROOF.search(text) is not None


def drop_each(lst):
    n = len(lst)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def shrink_items(case, keep=lambda it: True, minlen=1):
    its = case["items"]
    for c in drop_each(its):
        if len(c) >= minlen and all(it in c for it in its if not keep(it)):
            d = dict(case)
            d["items"] = c
            yield d


# ---------------------------------------------------------------- R01
DERIVED = re.compile(r"^[^:{}\[\]%]*\.\s*$")


class R01(Check):
    prop = "R01"
    rule = ("a case is a clause/formula set made true by a random finite model (1-4 elements, equality as identity), a random syntax, strategy, clock rate, worker schedule and fault set; "
            "non-trivial: the run derived at least one clause or was disturbed by a fault; distinct: by hash of the execution (scheduling, faults and output)")
    assume = ["input is taken from the standard first-order fragment without arithmetic, lists and distinct symbols for most runs",
              "satisfiability is by construction: the printed input is true in a finite model held by the harness"]

    def gen(self, rng):
        items, m, sig = gen_true_items(rng)
        par = rng.choice((0, 0, 0, 2, 3, 4))
        syn = rng.choice(("plain", "plain", "cnf", "fof", "js"))
        case = {"items": items, "model": m.to_json(), "syntax": syn, "seed": rng.randrange(1, 1 << 40), "cfg": swarm(rng, 0.15, par > 0), "par": par,
                "guide": None if rng.random() < 0.12 else rguide(rng, nruns=None if not par else rng.choice((2, 3, 5))),
                "derived": rng.random() < 0.75, "print": rng.choice((10, 10, 10, 11, 12)), "fmt": rng.choice(("", "", "", "-tptp", "-json"))}
        if case["guide"] is None:
            case["cfg"]["bb_ps"] = 8400000
            case["seconds"] = rng.choice((1, 2, 4))
        return case

    def run(self, R, case):
        m = L.Model.from_json(case["model"])
        name, text = infile(case["items"], case["syntax"])
        argv = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", str(case["par"])]
        if case["derived"]:
            argv.append("-derived")
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        if case.get("seconds"):
            argv += ["-seconds", str(case["seconds"])]
        r = R("main", Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv + [name])]))
        out = r.out()
        if proved(out):
            return "unsound: proof reported for a satisfiable input\n%s\n%s" % (text, out[-1500:])
        ext = None
        if case["derived"] and not case["fmt"]:
            ext = self.model_for(R, case, m, name, text)
            seen = set()
            for p in sorted({o[0] for o in r.outs}):
                po = b"".join(o[3] for o in r.outs if o[0] == p).decode("latin1")
                for line in po.splitlines():
                    line = line.strip()
                    if not line.endswith(".") or line in seen or line.startswith(("result", "for ", "by run", "*", "{", "run ")):
                        continue
                    seen.add(line)
                    if len(seen) > 1500 or len(line) > 1000:
                        R.tick("derived_beyond_limit")
                        continue
                    try:
                        c = L.parse_clause(line)
                    except (L.ParseError, IndexError, AttributeError):
                        R.tick("derived_unparsed")
                        continue
                    v = self.holds(c, ext)
                    R.tick("derived_checked" if v is not None else "derived_unknown_symbols")
                    if v is False:
                        return "unsound: derived clause %s is false in a model of the input\n%s" % (line, text)
            if seen:
                R.nontrivial = True
        if r.faults:
            R.nontrivial = True
        R.tick("no_proof" if NOPROOF.search(out) else "other_end")
        return None

    def model_for(self, R, case, m, name, text):
        if not any(it["k"] == "f" or it["r"] == "conjecture" for it in case["items"]):
            return m
        r = R("cnf", Scenario(1, {"max_bb": 40000000}, {name: text}, [Cmd(["gkc", "-mbsize", "10", "-clausify", name])]))
        try:
            cs = [L.parse_clause(l) for l in r.out().splitlines() if l.strip()]
            e = L.expand(m, cs)
        except (L.ParseError, OverflowError, IndexError):
            R.tick("clausified_unparsed")
            return m
        R.tick("expansion_found" if e else "expansion_missing")
        return e or m

    @staticmethod
    def holds(c, m):
        fn, pr, _ = L.symbols([{"k": "c", "c": c}])
        if any(f not in m.f for f in fn) or any(p not in m.p and p not in ("$true", "$false") for p in pr):
            return None
        if m.n ** len(L.cvars(c)) > 1000:
            return m.sampled(c, 100) is None
        return m.clause(c) is None

    def shrink(self, case):
        for c in shrink_items(case):
            yield c
        if case["par"]:
            yield dict(case, par=0)
        if isinstance(case["guide"], dict) and "runs" in case["guide"]:
            for q in case["guide"]["runs"]:
                yield dict(case, guide=dict(q, print=1))


# ---------------------------------------------------------------- R04
COMPLETE = ("negative_pref", "positive_pref", "hardness_pref", "double", "knuthbendix_pref", None)


class R04(Check):
    prop = "R04"
    rule = ("a case is a small contradictory problem (Horn chains, minimal contradictory propositional or function-free sets found by DPLL, rewriting chains), a random syntax, "
            "sequential or 2-8 workers with the automatic strategy choice or a single run of one of six complete strategies, a clock rate and a worker schedule without faults; non-trivial: a proof was needed beyond parsing (all cases); "
            "distinct: by hash of the execution")
    assume = ["contradictory by construction (forward chaining, DPLL over the ground instances, rewriting), decided by the harness before the run",
              "bounds: 60 million basic blocks of all processes together and, for a search not finished by then, a second one with 480 million, at simulated rates of 8.4 to 84 ns per block"]
    quick = 45
    limit = 60000000

    def gen(self, rng):
        items, kind = P.gen(rng)
        if not items:
            return None
        if rng.random() < 0.004:
            # X=Y. p(a). -p(b). in other names: needs an equation used from its bare variable side
            a, b, p = rng.sample("abcd", 2) + [rng.choice("pqr")]
            items, kind = [{"k": "c", "c": c, "r": "axiom"} for c in ([[True, "=", [0, 1]]], [[True, p, [[a]]]], [[False, p, [[b]]]])], "vareq"
            rng.shuffle(items)
        par = rng.choice((0, 0, 0, 2, 3, 4, 8, -1))
        syn = rng.choice(("plain", "plain", "cnf", "fof", "js"))
        cfg = {"bb_ps": rng.choice((8400, 20000, 84000)), "max_bb": self.limit, "ncpu": rng.choice((1, 2, 4, 8)), "garbage": rng.choice((0, 1, 2)),
               "garbage_seed": rng.randrange(1, 1 << 30), "quantum": rng.choice((3000, 20000, 50000))}
        if rng.random() < 0.3:
            cfg["p_stall"] = 0.02
            cfg["stall_max"] = 1000000
        if rng.random() < 0.3:
            cfg["clock_gran"] = rng.choice((1, 1000, 10000))
        if rng.random() < 0.3:
            cfg["p_tod"] = 0.2
        if rng.random() < 0.3:
            cfg["chunk_rand"] = 1
            cfg["read_chunk"] = rng.choice((1, 7, 64, 4096))
        guide = None
        if rng.random() < 0.7 and kind != "vareq":
            # one run with one of the strategies that give up nothing but the preferred order
            guide = []
            for st in rng.sample(COMPLETE, 3):
                g = {"query_preference": 0, "print_level": 10, "max_dseconds": rng.choice((15, 100))}
                if st:
                    g["strategy"] = [st]
                guide.append(g)
            par = 0
            cfg["bb_ps"] = 8400
        return {"items": items, "kind": kind, "syntax": syn, "seed": rng.randrange(1, 1 << 40), "cfg": cfg, "par": par, "guide": guide,
                "fmt": rng.choice(("", "", "", "-tptp", "-json"))}

    def run(self, R, case):
        name, text = infile(case["items"], case["syntax"])
        argv = ["gkc", "-mbsize", "10", "-print", "10"]
        if case["par"] >= 0:
            argv += ["-parallel", str(case["par"])]
        for i, g in enumerate(case.get("guide") or [None]):
            v = self.one(R, "run%d" % i, case, argv + (["-strategytext", json.dumps(g)] if g else []), name, text)
            if v:
                return v + ("" if not g else "\nstrategy: %s" % json.dumps(g))
        return None

    def one(self, R, key, case, argv, name, text):
        r = R(key, Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv + [name])]))
        R.nontrivial = True
        R.tick("kind_" + case["kind"])
        out = r.out()
        if proved(out):
            if r.status() != 0:
                return "exit status %s after a proof\n%s" % (r.status(), text)
            R.tick("blocks_%dM" % (1 << max(0, r.bb // 1000000).bit_length()))
            return None
        if r.clipped and case["cfg"]["max_bb"] <= self.limit:
            # the length of a search has a long tail: only a second search with eight times the steps decides
            R.tick("searched_again")
            return self.one(R, key + "long", dict(case, cfg=dict(case["cfg"], max_bb=8 * self.limit)), argv, name, text)
        return ("variable equation " if case["kind"] == "vareq" else "") + "not proved: a contradictory problem %s after %.2f s simulated, %d blocks\n%s\n%s" % (
            "still searched" if r.clipped else "given up with status %s" % r.status(), r.now, r.bb, text, out[-300:])

    def shrink(self, case):
        if case["par"] > 0:
            yield dict(case, par=0)
        if len(case.get("guide") or []) > 1:
            for g in case["guide"]:
                yield dict(case, guide=[g])
        if case["syntax"] != "cnf":
            yield dict(case, syntax="cnf")


# ---------------------------------------------------------------- R02, R03
def process_texts(r):
    """what each process printed, with its number; the main process is first"""
    d = {}
    for o in r.outs:
        d.setdefault(o[0], []).append(o[3])
    return [(p, b"".join(x).decode("latin1")) for p, x in sorted(d.items())]


def ended_well(r, p):
    return any(q["id"] == p and q["ended"] and q["status"] & 0x7f == 0 for q in r.procs)


def question(rng, preds, consts):
    """a question clause: some atoms with an answer literal over some of their variables"""
    n = rng.choice((1, 1, 1, 2))
    body = []
    for _ in range(n):
        p = rng.choice(sorted(preds))
        body.append([False, p, [rng.choice((0, 1, 2)) if rng.random() < 0.85 or not consts else [rng.choice(consts)] for _ in range(preds[p])]])
    vs = L.cvars(body)
    if not vs:
        return None
    vs = [v for v in vs if rng.random() < 0.8] or vs[:1]
    return body + [[True, "$ans", vs]]


def rproblem(rng):
    """(items, kind, has answers)"""
    if rng.random() < 0.35:
        h = P.horn(rng)
        if h:
            cls, _, (facts, rules, db) = h
            preds = {l[1]: len(l[2]) for c in cls for l in c}
            q = question(rng, preds, sorted({a[0] for l in facts for a in l[2] if len(a) == 1}))
            if q and not any(P.var_eq(c) for c in cls):
                items = [{"k": "c", "c": c, "r": "axiom"} for c in cls] + [{"k": "c", "c": q, "r": "axiom"}]
                if rng.random() < 0.5:
                    rng.shuffle(items)
                return items, "ask", True
    items, kind = P.gen(rng)
    return items, kind, False


class R02(Check):
    prop = "R02"
    rule = ("a case is a small contradictory problem or a question over Horn rules, with distracting clauses, a random syntax, strategy (or the automatic choice), output form (text, json, tptp), "
            "clock rate, worker schedule and fault set; every printed proof is read and every step checked by z3; non-trivial: at least one proof was printed and all its steps were checked; "
            "distinct: by hash of the execution")
    assume = ["a step counts as wrong when z3 finds a countermodel to 'cited clauses imply it'; steps z3 cannot decide within its step limit are counted as undecided",
              "instantiation steps of built-in arithmetic and of string distinctness are not checked (the generator makes no such problems)"]
    quick = 45
    strategies = (0.25, None)

    def gen(self, rng):
        items, kind, ask = rproblem(rng)
        if not items:
            return None
        if rng.random() < 0.4:
            sig = L.Sig(rng, eq=False)
            for _ in range(rng.choice((1, 2, 4))):
                c = L.rclause(rng, sig, maxlen=2)
                if not L.tautology(c) and not P.var_eq(c):
                    items.insert(rng.randrange(len(items) + 1), {"k": "c", "c": c, "r": "axiom"})
        par = rng.choice((0, 0, 0, 2, 3, 4))
        syn = rng.choice(("plain", "plain", "cnf", "fof", "js")) if not ask else rng.choice(("plain", "plain", "cnf"))
        auto = rng.random() < 0.25
        case = {"items": items, "kind": kind, "syntax": syn, "seed": rng.randrange(1, 1 << 40), "cfg": swarm(rng, 0.25, par > 0), "par": par, "ask": ask,
                "guide": None if auto else rguide(rng, nruns=None if not par else rng.choice((2, 3, 5)), exotic=False, answers=rng.choice((1, 2, 3, 6)) if ask else None),
                "fmt": rng.choice(("", "", "", "-tptp", "-json")), "print": rng.choice((10, 10, 10, 11, 12))}
        if auto:
            case["cfg"]["bb_ps"] = rng.choice((8400, 84000))
        case["cfg"]["max_bb"] = 25000000
        if case["fmt"] == "-json":
            case["print"] = 10
        return case

    def run_main(self, R, case):
        name, text = infile(case["items"], case["syntax"])
        argv = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", str(case["par"])]
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        r = R("main", Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv + [name])]))
        R.tick("kind_" + case["kind"])
        return name, text, r

    def proofs(self, R, case, r):
        """[(answer, steps)] of the processes that ended by themselves"""
        import proofs as F
        parse = {"": F.parse_text, "-json": F.parse_json, "-tptp": F.parse_tptp}[case["fmt"]]
        res = []
        for p, t in process_texts(r):
            if not proved(t):
                continue
            R.tick("proof_outputs")
            if not ended_well(r, p):
                R.tick("proof_outputs_of_killed_processes")
                continue
            ps = parse(t)
            if not ps:
                raise F.Bad("a proof is announced and none is printed")
            res += ps
        return res

    def inputs(self, R, case, name, text):
        cls = [it["c"] for it in case["items"] if it["k"] == "c" and it["r"] != "conjecture"]
        if len(cls) < len(case["items"]) or case["syntax"] == "js":
            r = R("cnf", Scenario(1, {"max_bb": 40000000}, {name: text}, [Cmd(["gkc", "-mbsize", "10", "-clausify", name])]))
            cls += [L.parse_clause(l) for l in r.out().splitlines() if l.strip()]
        return cls

    def run(self, R, case):
        import proofs as F
        name, text, r = self.run_main(R, case)
        try:
            ps = self.proofs(R, case, r)
            if not ps:
                R.tick("no_proof_printed")
                return None
            inputs = self.inputs(R, case, name, text)
            ent = F.Ent()
            for pr in ps:
                bad = F.check(pr, inputs, R.tick, ent)
                if bad:
                    return "bad proof: %s\n%s\n%s" % (bad, text, r.out()[-3000:])
                if pr[0] is not None:
                    R.tick("answers")
                R.tick("proofs_checked_" + (case["fmt"] or "text"))
            R.nontrivial = True
        except F.Bad as e:
            return "unreadable proof: %s\n%s\n%s" % (e, text, r.out()[-3000:])
        return None

    def shrink(self, case):
        for c in shrink_items(case):
            yield c
        if case["par"]:
            yield dict(case, par=0)
        if isinstance(case["guide"], dict) and "runs" in case["guide"]:
            for q in case["guide"]["runs"]:
                yield dict(case, guide=dict(q, print=1))


class R03(R02):
    prop = "R03"
    rule = ("a case is a question over Horn rules, over random function-free clauses (disjunctive answers included) or over clauses true in a random finite model, 1-8 answers asked for, "
            "with a random syntax, strategy or the automatic choice, output form, clock rate, worker schedule and fault set; every printed answer is decided by grounding (function-free cases), "
            "by the model, or by z3; non-trivial: at least one answer was printed and decided; distinct: by hash of the execution")
    assume = ["an answer is wrong when some model of the input falsifies the question instance (disjunction of instances): complete for the function-free cases, "
              "for the others only the random model and z3's models are tried"]

    def gen(self, rng):
        k = rng.choice(("horn0", "horn0", "horn", "epr", "epr", "model", "model"))
        model, consts = None, []
        if k in ("horn0", "horn"):
            h = P.horn(rng, funcs=k == "horn")
            if not h:
                return None
            cls = list(h[0])
            if rng.random() < 0.4 and k == "horn0":        # some disjunctive facts
                for _ in range(rng.choice((1, 2))):
                    a, b = rng.choice(h[2][0]), rng.choice(h[2][0])
                    cls.append([a, [True, b[1], [[rng.choice("abcd")] for _ in b[2]]]])
            preds = {l[1]: len(l[2]) for c in cls for l in c}
        elif k == "epr":
            sig = L.Sig(rng, funcs=False, eq=rng.random() < 0.3)
            cs = [c for c, a in sig.fn.items() if a == 0][:3]
            sig.fn = {c: 0 for c in cs}
            preds = sig.pr = {p: a for p, a in sig.pr.items() if a <= 2} or {"p": 1}
            cls = [c for c in (L.rclause(rng, sig, maxlen=3, depth=0) for _ in range(rng.choice((4, 6, 8, 10)))) if not L.tautology(c)]
            for _ in range(rng.choice((2, 3, 5))):
                p = rng.choice(sorted(preds))
                cls.append([[True, p, [[rng.choice(cs)] for _ in range(preds[p])]]])
        else:
            its, model, sig = gen_true_items(rng, form=0, conj=False)
            cls = [it["c"] for it in its]
            preds = sig.pr
            for _ in range(rng.choice((2, 4))):
                c = L.true_unit(rng, sig, model)
                if c:
                    cls.append(c)
            preds = {p: a for p, a in preds.items()}
        if any(P.var_eq(c) for c in cls):
            return None
        consts = sorted({a[0] for c in cls for l in c for a in l[2] if not isinstance(a, int) and len(a) == 1})
        preds = {p: a for p, a in preds.items() if a and p in {l[1] for c in cls for l in c}}
        if not preds:
            return None
        q = question(rng, preds, consts)
        if not q:
            return None
        syn = rng.choice(("plain", "plain", "cnf", "js", "jsq"))
        if syn == "jsq":                                   # @question answers with all its variables
            q = q[:-1] + [[True, "$ans", L.cvars(q[:-1])]]
        items = [{"k": "c", "c": c, "r": "axiom"} for c in cls]
        items.insert(rng.randrange(len(items) + 1) if syn != "jsq" else len(items), {"k": "c", "c": q, "r": "axiom", "q": 1})
        par = rng.choice((0, 0, 0, 2, 3, 4))
        auto = rng.random() < 0.1
        case = {"items": items, "kind": k, "syntax": syn, "seed": rng.randrange(1, 1 << 40), "cfg": swarm(rng, 0.2, par > 0), "par": par,
                "guide": None if auto else rguide(rng, nruns=None if not par else rng.choice((2, 3, 5)), exotic=False, answers=rng.choice((None, 1, 2, 3, 5, 8))),
                "fmt": rng.choice(("", "", "", "-tptp", "-json")), "print": 10, "model": model and model.to_json()}
        case["cfg"]["max_bb"] = 20000000
        if auto:
            case["cfg"]["bb_ps"] = 84000
        return case

    def run_main(self, R, case):
        if case["syntax"] != "jsq":
            return super().run_main(R, case)
        js = json.loads(L.render([it for it in case["items"] if not it.get("q")], "js"))
        q = [it for it in case["items"] if it.get("q")]
        for it in q:
            lits = [L.js_formula(["lit", [True, l[1], l[2]]]) for l in it["c"][:-1]]
            js.append({"@question": lits[0] if len(lits) == 1 else sum(([x, "&"] for x in lits), [])[:-1]})
        text = json.dumps(js) + "\n"
        argv = ["gkc", "-mbsize", "10", "-print", "10", "-parallel", str(case["par"])]
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        r = R("main", Scenario(case["seed"], case["cfg"], {"in.js": text}, [Cmd(argv + ["in.js"])]))
        R.tick("kind_" + case["kind"])
        return "in.js", text, r

    def run(self, R, case):
        import proofs as F
        name, text, r = self.run_main(R, case)
        m = case["model"] and L.Model.from_json(case["model"])
        cls = [it["c"] for it in case["items"]]
        try:
            ps = self.proofs(R, case, r)
            answers = []
            for a, _ in ps:
                if a is not None and a not in answers:
                    answers.append(a)
        except F.Bad as e:
            return "unreadable answer: %s\n%s\n%s" % (e, text, r.out()[-3000:])
        arity = {len(l[2]) for c in cls for l in c if l[1] == "$ans"}
        for a in answers:
            if any(l[1] != "$ans" or not l[0] or len(l[2]) not in arity for l in a) or not a:
                return "not an answer to the question: %s\n%s\n%s" % (L.ren_clause(a), text, r.out()[-2000:])
            v, how = self.decide(cls, m, a)
            R.tick("answers_%s_%s" % (how, {True: "right", False: "wrong", None: "undecided"}[v]))
            if len(a) > 1:
                R.tick("disjunctive_answers")
            if v is False:
                return "wrong answer: %s does not follow\n%s\n%s" % (L.ren_clause(a), text, r.out()[-2000:])
            if v:
                R.nontrivial = True
        if not answers:
            R.tick("no_answer")
        return None

    @staticmethod
    def decide(cls, m, a):
        fns = {}

        def scan(t):
            if not isinstance(t, int):
                fns[t[0]] = max(len(t) - 1, fns.get(t[0], 0))
                for x in t[1:]:
                    scan(x)
        for c in cls + [a]:
            for l in c:
                for t in l[2]:
                    scan(t)
        if all(n == 0 for n in fns.values()):
            vs = L.cvars(a)
            env = {v: ["sk_a%d" % v] for v in vs}
            neg = [[[False, "$ans", [L.subst(t, env) for t in l[2]]]] for l in a]
            try:
                g = L.Ground(cls + neg, sorted(fns) + [env[v][0] for v in vs])
                return not g.sat(), "ground"
            except OverflowError:
                pass
        if m:
            qs = [c for c in cls if any(l[1] == "$ans" for l in c)]
            tab = set()
            import itertools
            for q in qs:
                vs = L.cvars(q)
                for vals in itertools.product(range(m.n), repeat=len(vs)):
                    e = dict(zip(vs, vals))
                    if not any(m.lit(l, e) for l in q if l[1] != "$ans"):
                        for l in q:
                            if l[1] == "$ans":
                                tab.add(tuple(m.term(t, e) for t in l[2]))
            m.p["$ans"] = tab
            return m.clause(a) is None, "model"
        import proofs as F
        return F.Ent().entails(cls, a, 400000), "z3"


# ---------------------------------------------------------------- R05
def exit_code(q):
    """exit code, -signal, or None while running"""
    if not q["ended"]:
        return None
    return -(q["status"] & 0x7f) if q["status"] & 0x7f else q["status"] >> 8 & 0xff


class R05(Check):
    prop = "R05"
    rule = ("a case is a small problem (contradictory or satisfiable), a list of 2-7 strategies, 2-5 workers, a worker schedule and faults: workers killed at any block, failing forks, "
            "interrupted waits, SIGCHLD ignored by the parent's parent, stalls; a sequential run and, where needed, runs of single strategies are the reference; "
            "non-trivial: at least two workers were created, or a fork failed; distinct: by hash of the execution")
    assume = ["strategies of workers that could not be created are not run by anybody (the run says which fork failed)",
              "two workers may both print a proof when both find one before the parent has stopped them",
              "a worker killed by the parent while it prints its own proof may leave that printout incomplete"]

    def gen(self, rng):
        if rng.random() < 0.55:
            items, kind = P.gen(rng, form=0.1)
        else:
            kind = "sat"
            items = None
            for _ in range(20):
                sig = L.Sig(rng, funcs=False, eq=False)
                cs = [c for c, a in sig.fn.items() if a == 0][:3]
                sig.fn = {c: 0 for c in cs}
                sig.pr = {p: a for p, a in sig.pr.items() if a <= 2} or {"p": 1}
                cls = [c for c in (L.rclause(rng, sig, maxlen=3, depth=0) for _ in range(rng.choice((2, 3, 4, 6)))) if not L.tautology(c)]
                if cls and L.Ground(cls, cs).sat():
                    items = [{"k": "c", "c": c, "r": "axiom"} for c in cls]
                    break
        if not items:
            return None
        par = rng.choice((2, 2, 3, 4, 5))
        cfg = {"bb_ps": rng.choice((420000, 840000)), "max_bb": 60000000, "ncpu": rng.choice((1, 2, 4, 8)), "quantum": rng.choice((300, 3000, 20000, 50000)),
               "garbage": rng.choice((0, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30)}
        for k, p, vals in (("p_die", 0.35, (0.001, 0.01, 0.1, 0.5)), ("p_fork", 0.15, (0.2, 0.5, 1)), ("p_eintr", 0.3, (0.3, 0.8)),
                           ("p_stall", 0.3, (0.02, 0.2)), ("p_tod", 0.2, (0.2,)), ("sigchld_ign", 0.15, (1,)), ("clock_gran", 0.2, (1, 1000, 10000))):
            if rng.random() < p:
                cfg[k] = rng.choice(vals)
        if "p_stall" in cfg:
            cfg["stall_max"] = rng.choice((1000000, 100000000, 1000000000))
        n = rng.choice((2, 3, 3, 4, 5, 7))
        return {"items": items, "kind": kind, "syntax": rng.choice(("plain", "cnf")), "seed": rng.randrange(1, 1 << 40), "cfg": cfg, "par": par,
                "guide": rguide(rng, nruns=n, dsec=(10, 20), exotic=False), "print": rng.choice((10, 10, 11, 12)), "fmt": rng.choice(("", "", "-json", "-tptp"))}

    def run(self, R, case):
        name, text = infile(case["items"], case["syntax"])

        def argv(par, guide):
            a = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", str(par)]
            return a + ([case["fmt"]] if case["fmt"] else []) + ["-strategytext", json.dumps(guide), name]

        def alone(k):
            g = dict(case["guide"]["runs"][k], print=1)
            g["max_dseconds"] = max(1, g["max_dseconds"] // 2)
            q = R("run%d" % k, Scenario(1, {"bb_ps": case["cfg"]["bb_ps"], "max_bb": case["cfg"]["max_bb"]}, {name: text}, [Cmd(argv(0, g))]))
            return proved(q.out())
        r = R("main", Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv(case["par"], case["guide"]))]))
        R.tick("kind_" + case["kind"])
        if r.clipped:
            R.tick("clipped")
            return None
        stall = case["cfg"].get("stall_max", 0) / 1e9
        main, ws = r.procs[0], [q for q in r.procs[1:]]
        R.nontrivial = len(ws) >= 2 or "fork_fail" in r.faults
        R.tick("workers", len(ws))
        texts = dict(process_texts(r))
        out = r.out()
        info = "\n%s\n%s" % (text, out[-1500:])
        if r.deadlock:
            return "hang: the run never ends, with workers ending as %s%s" % ([exit_code(q) for q in ws], info)
        mst = exit_code(main)
        if mst is None or mst < 0:
            return "main process ended by signal: %s%s" % (mst, info)
        left = r.left.get(0)
        if left and left[0]:
            R.tick("alive_when_main_ends", left[0])
            late = left[1] - main["t1"] / 1e9
            if late > 0.05 + 3 * stall:
                return "left behind: %d workers run on for %.3f s after the main process has ended%s" % (left[0], late, info)
        if ws:
            late = (main["t1"] - max(q["t1"] for q in ws)) / 1e9
            if late > 0.5 + 5 * stall:
                return "late end: the run ends %.3f s after its last worker%s" % (late, info)
        codes = [exit_code(q) for q in ws]
        for q, c in zip(ws, codes):
            t = texts.get(q["id"], "")
            if c == 0 and not proved(t):
                return "worker success without a proof: worker %d ends with 0 and printed no proof%s" % (q["id"], info)
            if c is not None and c > 0 and proved(t):
                return "worker failure with a proof: worker %d ends with %d and printed a proof%s" % (q["id"], c, info)
            R.tick("worker_end_%s" % ("proof" if c == 0 else "none" if c is not None and c > 0 else "signal"))
        no = NOPROOF.search(out) is not None
        if 0 in codes:
            if no:
                return "contradicting reports: a worker found and printed a proof, and the run says none was found%s" % info
            if mst != 0:
                return "exit status: %s after a worker has found a proof%s" % (mst, info)
            return None
        if ws:
            if proved(texts.get(main["id"], "")):
                return "proof of nobody: the main process reports a proof which no worker found%s" % info
            if not no and not any(proved(texts.get(q["id"], "")) for q in ws):
                return "no report: every worker has ended without a proof and nothing is reported%s" % info
        elif not no and not proved(out):
            return "no report: nothing is reported%s" % info
        if no:
            for k in range(len(case["guide"]["runs"])):
                w = k % case["par"]
                if ws and (w >= len(ws) or codes[w] is None or codes[w] < 0):
                    continue
                if alone(k):
                    return "proof missed: strategy %d alone finds a proof, its worker ended by itself, and the run says none was found%s" % (k, info)
        R.tick("proof_expected" if proved(out) else "no_proof")
        return None

    def shrink(self, case):
        yield from shrink_items(case)
        for g in drop_each(case["guide"]["runs"]):
            if len(g) > 1:
                yield dict(case, guide=dict(case["guide"], runs=g))
        if case["par"] > 2:
            yield dict(case, par=2)


# ---------------------------------------------------------------- R06
LIMIT = re.compile(r'"result": "time limit, proof not found"')


def infinite(rng):
    """clauses with no proof and endless consequences"""
    base = rng.choice(([[[True, "p", [["a"]]]], [[False, "p", [0]], [True, "p", [["f", 0]]]]],
                       [[[True, "p", [["a"], ["b"]]]], [[False, "p", [0, 1]], [True, "p", [["f", 0], 1]]], [[False, "p", [0, 1]], [True, "p", [1, ["g", 0]]]]],
                       [[[True, "=", [["h", ["h", 0, 1], 2], ["h", 0, ["h", 1, 2]]]]], [[True, "=", [["h", ["i", 0], 0], ["a"]]]], [[True, "=", [["h", ["a"], 0], 0]]], [[False, "=", [["b"], ["c"]]]]],
                       [[[True, "p", [["g", 0, ["g", 1, 0]]]]], [[False, "p", [["g", 0, 1]]], [False, "p", [0]], [True, "p", [1]]], [[False, "p", [["g", ["a"], ["a"]]]]]]))
    items = [{"k": "c", "c": c, "r": "axiom"} for c in base]
    for p in "rst":
        if rng.random() < 0.4:
            items.append({"k": "c", "c": [[True, p, [["a"]]], [False, p, [["f", 0]]]], "r": "axiom"})
    rng.shuffle(items)
    return items


class R06(Check):
    prop = "R06"
    rule = ("a case is an input (endless search space, contradictory, or without proof but finite), a limit of 1-3 seconds, a slow processor (0.3-4 microseconds per block), sequential or 2-4 workers, "
            "given strategies or the automatic choice, with stalls, coarse processor clocks, wall clock jumps, worker deaths and failing forks; "
            "non-trivial: the limit was reached, or the run was compared with one without a limit; distinct: by hash of the execution")
    assume = ["a parallel run may use 2 seconds more for a proof that is just being printed and 2 seconds of waiting for its slot to print",
              "a worker that is killed while it prints its proof 2 seconds after the limit may leave that printout incomplete"]
    crash = True
    quick = 45

    def gen(self, rng):
        k = rng.choice(("inf", "inf", "proof", "proof", "sat", "ask", "busy", "busy", "busy"))
        ask = k == "ask"
        if k == "inf":
            items = infinite(rng)
        elif k == "proof":
            items, _ = P.gen(rng)
        elif k == "busy":
            items, _, _ = gen_true_items(rng, form=0.6, n=rng.choice((10, 14, 20)))
        elif k == "sat":
            items, _, _ = gen_true_items(rng)
        else:
            items, _, ask = rproblem(rng)
        if not items:
            return None
        par = rng.choice((0, 0, 2, 3, 4) if k != "busy" else (0, 0, 0, 2))
        sec = rng.choice((1, 1, 2, 3))
        cfg = {"bb_ps": rng.choice((300000, 840000, 2000000, 4000000)), "ncpu": rng.choice((1, 2, 4)), "quantum": rng.choice((300, 3000, 20000, 50000)),
               "garbage": rng.choice((0, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30)}
        cfg["max_bb"] = 30000000
        for f, p, vals in (("p_stall", 0.4, (0.002, 0.02, 0.2)), ("clock_gran", 0.3, (1, 1000, 10000)), ("p_tod", 0.2, (0.2,)), ("p_eintr", 0.2, (0.3,)),
                           ("p_die", 0.12, (0.001, 0.01)), ("p_fork", 0.05, (0.5,))):
            if rng.random() < p:
                cfg[f] = rng.choice(vals)
        if "p_stall" in cfg:
            cfg["stall_max"] = rng.choice((1000000, 50000000, 500000000))
        # so slow that the limit strikes while parsing, or while a proof is printed
        if rng.random() < 0.25 and k not in ("inf", "busy"):
            cfg["bb_ps"] = rng.choice((10, 20, 40, 80)) * 1000000
        auto = rng.random() < 0.3
        guide = None if auto else rguide(rng, nruns=rng.choice((1, 2)) if not par else rng.choice((2, 4)), dsec=(5, 20, 100), answers=rng.choice((1, 3, 6)) if ask else None)
        if k == "busy":
            # enough work for every phase of a run (slowing down, end game), sharing its time over 1-10 million blocks
            guide = rguide(rng, nruns=1 if not par else 2, dsec=(rng.choice((3, 5, 10)),), exotic=False)
            cfg["bb_ps"] = int(guide.get("max_dseconds", 5) * 1e11 / (rng.choice((1, 1, 3, 10)) * 1e6))
            sec = 3
            for q in guide.get("runs", [guide]):
                if rng.random() < 0.4:
                    q["strategy"] = sorted(set(q["strategy"]) | {"hyper"})
        return {"items": items, "kind": k, "syntax": rng.choice(("plain", "cnf", "js")) if not ask else "plain", "seed": rng.randrange(1, 1 << 40), "cfg": cfg, "par": par, "sec": sec,
                "guide": guide, "fmt": rng.choice(("", "", "-json", "-tptp")), "print": rng.choice((10, 10, 11)), "ask": ask}

    def run(self, R, case):
        name, text = infile(case["items"], case["syntax"])
        argv = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", str(case["par"])]
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        cfg = case["cfg"]
        r = R("main", Scenario(case["seed"], cfg, {name: text}, [Cmd(argv + ["-seconds", str(case["sec"]), name])]))
        R.tick("kind_" + case["kind"])
        out = r.out()
        info = "\n%s\n%s" % (text, out[-1500:])
        stall = cfg.get("stall_max", 0) / 1e9
        step = cfg["bb_ps"] * 1e-12
        main = r.procs[0]
        mst = exit_code(main)
        N = case["sec"]
        # the handler and the printing are some thousand blocks of work on top of the allowances
        slack = 0.2 + 20000 * step + 4 * stall + (4.2 if case["par"] else 0)
        crowd = 1 if cfg["ncpu"] > case["par"] else 1 + case["par"] / cfg["ncpu"]
        if r.deadlock:
            return "hang: the run never ends%s" % info
        end = r.now if mst is None else main["t1"] / 1e9
        if mst is None:
            if end > N + slack * crowd:
                return "limit ignored: still running %.2f s after a limit of %d s%s" % (end - N, N, info)
            R.tick("clipped")
            return None
        if end > N + slack * crowd:
            return "late: ended %.2f s after a limit of %d s%s" % (end - N, N, info)
        if mst < 0:
            return "main process ended by signal: %d%s" % (mst, info)
        left = r.left.get(0)
        if left and left[0] and left[1] - end > 0.05 + 4 * stall + 5000 * step * crowd:
            return "left behind: %d workers run on for %.3f s after the end%s" % (left[0], left[1] - end, info)
        lim = LIMIT.search(out) is not None
        no = NOPROOF.search(LIMIT.sub("", out)) is not None
        pr = False
        for p, t in process_texts(r):
            if proved(t):
                if ended_well(r, p):
                    pr = True
                    if not case["ask"] and not self.complete(t, case["fmt"]):
                        return "cut: a printed proof is not complete%s" % info
                elif not case["par"]:
                    return "cut: the process that printed the proof did not end normally%s" % info
                else:
                    R.tick("proof_of_killed_worker")
        if pr and lim and not case["ask"]:
            return "contradicting reports: a proof was printed and the time limit reported%s" % info
        if lim and end < N - 0.000001:
            return "early: the time limit of %d s is reported after %.3f s%s" % (N, end, info)
        if lim and mst == 0:
            return "exit status: 0 with a time limit report%s" % info
        if pr and mst != 0 and not case["ask"]:
            return "exit status: %d with a proof%s" % (mst, info)
        if not pr and not lim and not no and "error" not in out and "rror" not in out and not any(proved(t) for _, t in process_texts(r)):
            return "no report: nothing is reported%s" % info
        R.tick("limit_reached" if lim else "before_the_limit")
        if lim:
            R.nontrivial = True
        elif not case["par"] and r.now < N and not cfg.get("p_fork"):
            c2 = dict(cfg)
            for f in ("p_stall", "p_tod", "p_die"):
                c2.pop(f, None)
            q = R("free", Scenario(case["seed"], c2, {name: text}, [Cmd(argv + [name])]))
            R.nontrivial = True
            if q.clipped:
                R.tick("free_clipped")
            elif q.out() != out:
                # the given time slices of a strategy can be used up a few blocks earlier or later
                if proved(q.out()) != proved(out) and not self.slices(case, r):
                    return "the limit changes the result: it was not reached, and without it the run prints\n%s%s" % (q.out()[-800:], info)
                R.tick("differs_from_free_run")
            else:
                R.tick("same_as_free_run")
        return None

    @staticmethod
    def slices(case, r):
        """did a strategy use up its own time?"""
        if case["guide"] is None:
            return r.now > 0.05
        g = case["guide"]
        return r.now > min(q["max_dseconds"] for q in g.get("runs", [g])) * 0.09

    @staticmethod
    def complete(t, fmt):
        if fmt == "-tptp":
            return "% SZS output end" in t
        if fmt == "-json":
            return t.rstrip().endswith("}")
        return re.search(r"^ \d+: \[[^\n]*\] false\s*$", t, re.M) is not None

    def shrink(self, case):
        yield from shrink_items(case)
        if case["par"] > 2:
            yield dict(case, par=2)



# ---------------------------------------------------------------- R08
class R08(Check):
    prop = "R08"
    rule = ("a case is an input (contradictory, satisfiable, with questions or with an endless search space; a short or a very long file name), a fixed strategy text, and three machine states: heap and stack contents, "
            "addresses, processor speed and clock grain, wall clock jumps, size of the reads; the run is made on each and the outputs compared byte for byte; "
            "non-trivial: a clause was derived (all cases but the trivial); distinct: by hash of the execution")
    assume = ["time limits far above what the runs need", "sequential runs with strategies given by the user"]
    quick = 45

    def gen(self, rng):
        k = rng.choice(("proof", "proof", "sat", "ask", "ask", "rand"))
        ask = False
        if k == "sat":
            items, _, _ = gen_true_items(rng)
        elif k == "rand":
            sig = L.Sig(rng)
            items = [{"k": "c", "c": L.rclause(rng, sig), "r": rng.choice(("axiom", "axiom", "negated_conjecture"))} for _ in range(rng.choice((3, 6, 12, 20)))]
        else:
            items, _, ask = rproblem(rng)
        if not items:
            return None
        name = "in"
        if rng.random() < 0.1:
            name = rng.choice(("x", "long", "ab")) * rng.choice((20, 26, 40, 79, 80, 81, 100))
            name = name[:rng.choice((70, 79, 80, 81, 99, 120, 200))]
        vs = []
        for i in range(3):
            c = {"bb_ps": rng.choice((4200, 8400, 84000)), "garbage": (0, 1, 2)[i], "garbage_seed": rng.randrange(1, 1 << 30), "heap_shift": rng.choice((0, 16, 48, 4096, 100000)), "max_bb": 15000000}
            if rng.random() < 0.5:
                c["chunk_rand"] = rng.choice((0, 1))
                c["read_chunk"] = rng.choice((1, 2, 7, 64, 500, 4096))
            if rng.random() < 0.4:
                c["p_tod"] = 0.3
            if rng.random() < 0.4:
                c["clock_gran"] = rng.choice((1, 1000, 10000))
            vs.append(c)
        args = []
        if rng.random() < 0.3:
            args.append("-derived")
        mode = rng.random()
        guide = None
        if mode < 0.15:
            args.append(rng.choice(("-clausify", "-convert")))
        else:
            guide = rguide(rng, dsec=(100,), answers=rng.choice((1, 2, 3, 6)) if ask else None)
        return {"items": items, "syntax": rng.choice(("plain", "plain", "cnf", "fof", "js")) if not ask else rng.choice(("plain", "js")), "seed": rng.randrange(1, 1 << 40), "vs": vs, "guide": guide, "args": args,
                "fmt": rng.choice(("", "", "-json", "-tptp")), "print": rng.choice((1, 10, 10, 11, 12, 15)), "name": name, "kind": k}

    def run(self, R, case):
        name, text = infile(case["items"], case["syntax"])
        name = case["name"] + name[2:]
        argv = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", "0"] + case["args"]
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        R.tick("kind_" + case["kind"])
        ref = None
        for i, c in enumerate(case["vs"]):
            r = R("v%d" % i, Scenario(case["seed"], c, {name: text}, [Cmd(argv + [name])]))
            if r.clipped:
                R.tick("clipped")
                return None
            if LIMIT.search(r.out()) or r.now > 4:
                R.tick("limit")
                return None
            o = (TIMING.sub("", r.out()), r.status(), r.err())
            if ref is None:
                ref = o
                R.nontrivial = len(o[0]) > 100
            elif o != ref:
                a, b = ref[0].split("\n"), o[0].split("\n")
                n = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                return "different: the output depends on the machine state: status %s and %s, line %d:\n%s\n---\n%s\n%s" % (
                    ref[1], o[1], n + 1, "\n".join(a[n:n + 3])[:400], "\n".join(b[n:n + 3])[:400], text)
        return None

    def shrink(self, case):
        for i in (1, 2):
            if len(case["vs"]) == 3:
                yield dict(case, vs=[case["vs"][0], case["vs"][i]])
        for i, c in enumerate(case["vs"]):
            for f in ("chunk_rand", "read_chunk", "p_tod", "clock_gran"):
                if f in c:
                    d = {k: v for k, v in c.items() if k != f}
                    yield dict(case, vs=case["vs"][:i] + [d] + case["vs"][i + 1:])
            if c.get("bb_ps") != 8400:
                yield dict(case, vs=case["vs"][:i] + [dict(c, bb_ps=8400)] + case["vs"][i + 1:])
        yield from shrink_items(case)


# ---------------------------------------------------------------- R07
ERRTEXT = re.compile(r"error|cannot|failed|could not|unable|not enough|out of memory|not allocate", re.I)


def bulky(rng):
    """Many different clauses: the 10 megabyte database segment fills while they are read, or shortly after. One renderer call per clause would
    be slow, so the text itself is made here: satisfiable unless the contradictory pair is put in (at the start or at the end)."""
    n = rng.choice((4000, 9000, 14000, 20000))
    k = rng.randrange(4)
    out = []
    for i in range(n):
        out.append(("p(a%d,f(b%d)) | q(c%d)." % (i, i, i), "p(a%d,f(b))." % i, "p(X,f(a%d)) | q(X) | r(a%d,X)." % (i % 50, i), "p(\"string number %d\",%d)." % (i, i))[k])
    unsat = rng.random() < 0.5
    if unsat:
        out.insert(rng.choice((0, n)), "s(X) | t(a). ")
        out.insert(rng.choice((0, n)), "-s(b).")
        out.insert(rng.choice((0, n)), "-t(X).")
    return "\n".join(out) + "\n", unsat


class R07(R02):
    prop = "R07"
    rule = ("a case is an input (contradictory, satisfiable, with questions, endless, or with more clauses than the database segment can hold), a strategy or the automatic one, an output form, and four executions in which an "
            "allocation of one process fails (every place from the first to the last allocation of the undisturbed run, once or from then on), or the process has a limited amount of memory; "
            "non-trivial: an allocation failed; distinct: by hash of the execution")
    assume = ["allocations inside the C library do not fail", "a proof is complete when its steps are numbered, cite earlier steps, begin at input clauses, follow (z3), and end with the contradiction or the answer"]
    crash = True
    quick = 50

    def gen(self, rng):
        kind = rng.choice(("proof", "proof", "proof", "ask", "sat", "infinite", "bulk") if rng.random() < 0.5 else ("proof", "ask", "sat"))
        ask = False
        text = None
        if kind == "sat":
            items, _, _ = gen_true_items(rng)
        elif kind == "infinite":
            items = infinite(rng)
        elif kind == "bulk":
            text, unsat = bulky(rng)
            kind = "bulk" if unsat else "bulksat"
            items = []
        else:
            for _ in range(50):
                items, k2, ask = rproblem(rng)
                if items and (ask == (kind == "ask")):
                    break
        if not items and not text:
            return None
        par = rng.choice((0, 0, 0, 2))
        cfg = {"bb_ps": 168000, "garbage": rng.choice((0, 1, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30), "max_bb": 90000000, "ncpu": rng.choice((1, 2, 4)), "quantum": rng.choice((300, 3000, 50000))}
        if rng.random() < 0.3:
            cfg["chunk_rand"] = 1
            cfg["read_chunk"] = rng.choice((64, 4096))
        args = []
        fmt = rng.choice(("", "", "", "-tptp", "-json", "-json"))
        if rng.random() < 0.12 and not text:
            args.append(rng.choice(("-clausify", "-convert")))
            if args[0] == "-convert" and not fmt:
                fmt = rng.choice(("-tptp", "-json"))
        faults = []
        for _ in range(4):
            if rng.random() < 0.2 or text:
                faults.append({"memlimit": int(10.5e6 * 10 ** rng.uniform(0, 1.2))} if rng.random() < 0.7 else {})
            else:
                faults.append({"proc": rng.random(), "at": rng.random(), "how": rng.choice((1, 1, 2))})
        auto = rng.random() < 0.2
        syn = rng.choice(("plain", "plain", "cnf", "fof", "js")) if not ask else rng.choice(("plain", "plain", "cnf"))
        return {"items": items, "text": text, "kind": kind, "syntax": syn, "seed": rng.randrange(1, 1 << 40), "cfg": cfg, "par": par, "ask": ask, "args": args, "faults": faults,
                "guide": None if auto or args else rguide(rng, nruns=None if not par else 2, exotic=False, dsec=(3, 5), answers=rng.choice((1, 2, 3, 6)) if ask else None),
                "fmt": fmt, "print": rng.choice((10, 10, 11, 12, 15)) if fmt != "-json" else 10}

    def run(self, R, case):
        import proofs as F
        name, text = infile(case["items"], case["syntax"]) if case["text"] is None else ("in.txt", case["text"])
        argv = ["gkc", "-mbsize", "10", "-print", str(case["print"]), "-parallel", str(case["par"])] + case["args"]
        if case["fmt"]:
            argv.append(case["fmt"])
        if case["guide"] is not None:
            argv += ["-strategytext", json.dumps(case["guide"])]
        elif not case["args"]:
            argv += ["-seconds", "1"]
        sc = Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv + [name])])
        base = R("base", sc)
        R.tick("kind_" + case["kind"])
        if base.clipped:
            R.tick("base_clipped")
            return None
        inputs = ent = None
        slow = 8 + 4 * base.now
        for i, f in enumerate(case["faults"]):
            cfg, decs = dict(case["cfg"]), []
            if "memlimit" in f:
                cfg["memlimit"] = f["memlimit"]
            elif "at" in f:
                p = base.procs[int(f["proc"] * base.np)]
                if not p["mallocs"]:
                    continue
                # allocations of a worker are counted on from those of its parent
                decs = [(p["id"], 7, int(f["at"] * p["mallocs"]), f["how"])]
            r = R("f%d" % i, sc.copy(cfg=cfg, decs=decs))
            nf = r.faults.get("alloc_fail", 0)
            if nf:
                R.nontrivial = True
                R.tick("runs_with_failed_allocation")
            how = "%s %s\n" % (f, decs)
            if len(text) < 5000:
                how += text
            for p in r.procs:
                if p["ended"] and p["status"] & 0x7f in (4, 6, 7, 8, 11):
                    return "crash: process %d dies of signal %d when an allocation fails: %s\n%s" % (p["id"], p["status"] & 0x7f, how, r.out()[-600:])
            if r.deadlock:
                return "hang: the run is stuck when an allocation fails: " + how
            if r.clipped:
                if r.now > slow:
                    return "hang: the run does not end when an allocation fails (undisturbed: %.1f s): %s" % (base.now, how)
                R.tick("clipped")
                continue
            texts = [(p, t) for p, t in process_texts(r) if ended_well(r, p)]
            allout = r.out() + r.err()
            isproved = any(proved(t) for _, t in texts)
            if isproved and case["kind"] in ("sat", "infinite", "bulksat"):
                return "wrong result: a proof is reported for a satisfiable input when an allocation fails: %s\n%s" % (how, r.out()[-1500:])
            if r.out() == base.out():
                R.tick("runs_as_undisturbed")
                continue
            if case["args"]:
                if not ERRTEXT.search(allout) and not r.status():
                    return "silent: the translation is incomplete without an error: %s\n%s\n--- undisturbed:\n%s" % (how, r.out()[-1500:], base.out()[-1500:])
                R.tick("runs_with_error_text")
                continue
            if isproved and case["kind"] not in ("bulk",):
                R.tick("runs_proved_all_the_same")
                try:
                    ps = self.proofs(R, case, r)
                    if inputs is None:
                        inputs = self.inputs(R, case, name, text)
                        ent = F.Ent()
                    for pr in ps:
                        bad = F.check(pr, inputs, R.tick, ent)
                        if bad:
                            return "bad proof: %s: %s\n%s" % (bad, how, r.out()[-3000:])
                except F.Bad as e:
                    return "incomplete proof: %s: %s\n%s" % (e, how, r.out()[-3000:])
                continue
            if not isproved and not r.status() and not NOPROOF.search(allout) and not LIMIT.search(allout) and not ERRTEXT.search(allout):
                return "silent: neither an error nor a result when an allocation fails (exit status %s): %s\n%s" % (r.status(), how, r.out()[-800:])
            R.tick("runs_with_error_text" if ERRTEXT.search(allout) else "runs_with_other_result")
        return None

    def shrink(self, case):
        if len(case["faults"]) > 1:
            for f in case["faults"]:
                yield dict(case, faults=[f])
        for f in case["faults"]:
            if f.get("how") == 2:
                yield dict(case, faults=[dict(f, how=1)])
        if case["par"]:
            yield dict(case, par=0)
        for k in ("read_chunk", "chunk_rand", "garbage"):
            if case["cfg"].get(k):
                yield dict(case, cfg={a: b for a, b in case["cfg"].items() if a != k})
        if len(case["items"]) > 1:
            yield from shrink_items(case)


TIMING = re.compile(r"[^\n]*(?:seconds|clock)[^\n]*\n?")


GK = {c.prop: c for c in (R01, R02, R03, R04, R05, R06, R07, R08)}


# ---------------------------------------------------------------- I01
ERRWORD = re.compile(r'error|cannot|could not|failed', re.I)


class I01(Check):
    prop = "I01"
    rule = ("a case is a contradictory problem of which every clause is needed, laid out over a main file, included files (whole or by formula names, in other folders, nested), "
            "several files or texts on the command line, with the strategy in a file, padded with comments past the read buffers; it is run flat, as laid out, with its bytes arriving in other pieces, "
            "with one formula less, damaged (missing file, missing include, cut-off text, garbage, several top-level json values, bad strategy) and with opens and reads failing; "
            "non-trivial: at least one fault or damage took effect; distinct: by hash of the execution")
    assume = ["a text cut at the end of a statement is a valid shorter text: only cuts inside a statement are made",
              "a failing open or read stays visible to the C library's ferror (no silent short files)"]
    quick = 45

    def gen(self, rng):
        items, kind = P.gen(rng)
        if not items:
            return None
        items = [dict(it) for it in items]
        if rng.random() < 0.7:
            for it in items:
                if it["r"] != "conjecture":
                    it["r"] = rng.choice(("axiom", "axiom", "hypothesis")) if it["r"] == "axiom" else it["r"]
        syn = rng.choice(("plain", "cnf", "fof", "js"))
        mode = rng.choice(("one", "include", "include", "include", "files", "text"))
        n = len(items)
        lay = {"mode": mode, "syntax": syn, "parts": []}
        if mode == "include":
            k = rng.choice((1, 1, 2, 3))
            for j in range(k):
                m = rng.randrange(1, max(2, n // 2 + 1))
                lay["parts"].append({"items": sorted(rng.sample(range(n), min(m, n))), "name": rng.choice(("", "", "sub/", "a/b/", "/opt/TPTP/")) + "inc%d" % j,
                                     "syntax": syn if rng.random() < 0.7 else rng.choice(("plain", "cnf", "fof", "js")), "at": rng.randrange(0, n + 1),
                                     "select": rng.random() < 0.3, "nest": j > 0 and rng.random() < 0.3})
        elif mode == "files":
            k = rng.choice((2, 2, 3, 5, 9))
            for j in range(k):
                lay["parts"].append({"items": [i for i in range(n) if i % k == j], "name": "part%d" % j, "syntax": syn if rng.random() < 0.6 else rng.choice(("plain", "cnf", "fof", "js"))})
        used = set()
        if re.search(r'"[a-z]", \[\]', json.dumps(items)) and any(p["syntax"] != lay["syntax"] for p in lay["parts"]):
            # ["w"] in json is not the atom w of the other syntaxes
            for p in lay["parts"]:
                p["syntax"] = lay["syntax"] if lay["syntax"] == "js" or p["syntax"] == "js" else p["syntax"]
        for p in lay["parts"]:
            p["items"] = [i for i in p["items"] if i not in used]
            used |= set(p["items"])
        for j, p in enumerate(lay["parts"] if mode == "include" else []):
            # only a json file can include a json file
            if p["syntax"] == "js" and (syn != "js" or (p["nest"] and lay["parts"][j - 1]["syntax"] != "js")):
                p["syntax"], p["nest"] = ("plain", p["nest"]) if syn != "js" else ("js", False)
        lay["parts"] = [p for p in lay["parts"] if p["items"]]  # a file without any statement is refused
        g = {"print_level": 10, "query_preference": 0, "max_dseconds": 100, "strategy": [rng.choice(("negative_pref", "positive_pref", "hardness_pref"))]}
        vs = [{"read_chunk": rng.choice((1, 2, 3, 7, 64, 500, 4095, 4096, 8191)), "chunk_rand": rng.choice((0, 1))} for _ in range(2)]
        fl = [{"cls": rng.choice((8, 9, 9)), "at": rng.random(), "err": rng.choice((2, 5, 12, 13, 23, 24)), "more": rng.random() < 0.2} for _ in range(4)]
        return {"items": items, "lay": lay, "guide": g, "vs": vs, "faults": fl, "seed": rng.randrange(1, 1 << 40), "sfile": rng.random() < 0.5, "fmt": rng.choice(("", "", "-tptp", "-json")),
                "pad": rng.choice((0, 0, 1, 3000, 8000, 8180, 16300, 20000)), "padp": rng.random(), "less": rng.random(), "dam": [rng.choice(self.DAMAGE) for _ in range(3)], "dr": rng.random(),
                "job": rng.choice(("prove", "prove", "prove", "-convert", "-clausify")), "kind": kind,
                "cfg": {"bb_ps": 8400, "max_bb": 30000000, "garbage": rng.choice((0, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30)}}

    DAMAGE = ("nofile", "noinclude", "select", "cut", "cut", "garbage", "values", "nostrategy", "badstrategy")

    @staticmethod
    def incl(name, names, js):
        if js:
            return {"@include": name}
        return "include('%s'%s)." % (name, ",[%s]" % ",".join(names) if names is not None else "")

    def pad(self, case, lines, js):
        n = case["pad"]
        if not n:
            return lines
        com = ("// " if js else "% ") + "x(y). -z " * (n // 9) + "q" * (n % 9)
        k = int(case["padp"] * (len(lines) + 1))
        return lines[:k] + [com] + lines[k:]

    def build(self, case, drop=None, flat=False):
        """files and command line of the problem, item number drop left out"""
        its, lay = case["items"], case["lay"]
        keep = [i for i in range(len(its)) if i != drop]
        files, args = {}, []

        def one(idx, syntax, incs, name):
            """render; js one element per line"""
            sub = [its[i] for i in idx]
            if syntax == "js":
                els = [json.dumps(x) for x in json.loads(L.render(sub, "js"))]
                inc = [(a, json.dumps(d)) for a, d in incs]
            else:
                els = L.render(sub, syntax).split("\n")[:-1] if sub else []
                inc = list(incs)
            out = []
            for j, e in enumerate(els):
                out += [d for a, d in inc if a == j]
                out.append(e)
            out += [d for a, d in inc if a >= len(els)]
            if syntax == "js":
                out = [e + ("," if j + 1 < len(out) else "") for j, e in enumerate(out)]
                out = ["["] + out + ["]"]
            return "\n".join(self.pad(case, out, syntax == "js") if name == "main" else out) + "\n"

        mode = "one" if flat else lay["mode"]
        if mode == "include":
            mainjs = lay["syntax"] == "js"
            inner, mine, incs = {}, [], []
            used = {}
            for j, p in enumerate(lay["parts"]):
                for i in p["items"]:
                    used[i] = j
            mine = [i for i in keep if i not in used]
            for j, p in enumerate(lay["parts"]):
                name = p["name"] + (".js" if p["syntax"] == "js" else ".ax")
                idx = [i for i in p["items"] if i != drop]
                names = None
                short = name[len("/opt/TPTP/"):] if name.startswith("/opt/TPTP/") else name
                nest = p["nest"] and not case["pad"]
                tgt = lay["parts"][j - 1] if nest else None
                nest = nest and "/" not in tgt["name"] and "/" not in p["name"] and not tgt["select"]
                d = (short, names)
                inner[j] = (name, p["syntax"], idx, [])
                if nest:
                    inner[j - 1][3].append((p["at"], self.incl(short, names, inner[j - 1][1] == "js")))
                else:
                    incs.append((p["at"], self.incl(short, names, mainjs)))
            for j, (name, s, idx, ii) in inner.items():
                files[name] = one(idx, s, ii, name)
            m = "main.js" if mainjs else "main.txt"
            files[m] = one(mine, lay["syntax"], incs, "main")
            args = [m]
        elif mode == "files":
            for j, p in enumerate(lay["parts"]):
                name = p["name"] + (".js" if p["syntax"] == "js" else ".txt")
                files[name] = one([i for i in p["items"] if i != drop], p["syntax"], [], "main" if j == 0 else name)
                args.append(name)
        elif mode == "text":
            t = one(keep, lay["syntax"], [], "main")
            args = ["-jstext" if lay["syntax"] == "js" else "-text", t]
        else:
            m = "main.js" if lay["syntax"] == "js" else "main.txt"
            files[m] = one(keep, lay["syntax"], [], "main")
            args = [m]
        return files, args

    def argv(self, case, files, args, job=None):
        job = job or case["job"]
        a = ["gkc", "-mbsize", "10", "-print", "10", "-parallel", "0"] + ([case["fmt"]] if case["fmt"] else [])
        if job != "prove":
            if job == "-convert" and case["lay"]["syntax"] == "js":
                a = [x for x in a if x != "-json"] + ["-tptp"]
            return a + [job] + args
        g = json.dumps(case["guide"])
        if "strat" in case:
            # a strategy that is missing or not one
            if case["strat"] is not None:
                if not case["sfile"]:
                    return a + ["-strategytext", case["strat"]] + args
                files["strat.json"] = case["strat"]
            return a + ["-strategy", "strat.json"] + args
        if case["sfile"]:
            files["strat.json"] = g
            return a + ["-strategy", "strat.json"] + args
        return a + ["-strategytext", g] + args

    def go(self, R, key, case, files, args, cfg=None, decs=(), job=None):
        c = dict(case["cfg"], **(cfg or {}))
        files = dict(files)
        argv = self.argv(case, files, args, job)
        return R(key, Scenario(case["seed"], c, files, [Cmd(argv)], list(decs)))

    def again(self, R, key, case, files, args, job):
        r = self.go(R, key, case, files, args, job=job)
        if r.clipped:
            R.tick("searched_again")
            r = self.go(R, key + "long", case, files, args, {"max_bb": 12 * case["cfg"]["max_bb"]}, job=job)
        return r

    def desc(self, case, files, args):
        return "\n".join("--- %s\n%s" % (n, t if len(t) < 1500 else t[:700] + " ... " + t[-300:]) for n, t in files.items()) + "\nargs: %s" % (str(args)[:600])

    def run(self, R, case):
        R.tick("mode_" + case["lay"]["mode"])
        job = case["job"]
        ff, fa = self.build(case, flat=True)
        lf, la = self.build(case)
        r0 = self.again(R, "flat", case, ff, fa, "prove")
        flat = proved(r0.out())
        if not flat:
            R.tick("flat_unproved")
        r1 = self.again(R, "laid", case, lf, la, "prove")
        if flat and not r1.clipped and not proved(r1.out()):
            return "lost: the problem is proved as one file but not as laid out (status %s)\n%s\n%s" % (r1.status(), self.desc(case, lf, la), r1.out()[-300:])
        if r1.status() != 0 and flat and not r1.clipped:
            return "status %s after a proof\n%s" % (r1.status(), self.desc(case, lf, la))
        # one statement less: nothing is left to prove the rest with
        d = int(case["less"] * len(case["items"]))
        it = case["items"][d]
        # (redundant ones may go without harm: those are told by the flat run)
        xf, xa = self.build(case, drop=d, flat=True)
        r2 = self.go(R, "flatless", case, xf, xa, job="prove")
        if not r2.clipped and not proved(r2.out()) and not r2.status():
            yf, ya = self.build(case, drop=d)
            r3 = self.go(R, "less", case, yf, ya, job="prove")
            R.tick("less")
            if proved(r3.out()):
                return "extra: with formula %d left out there is a proof as laid out but not as one file\n%s\n%s" % (d, self.desc(case, yf, ya), r3.out()[:600])
        # the same bytes in other pieces
        base = r1 if job == "prove" else self.go(R, "job", case, lf, la)
        if base.clipped:
            R.tick("clipped")
            return None
        ref = (TIMING.sub("", base.out()), base.status())
        for i, v in enumerate(case["vs"]):
            r = self.go(R, "chunk%d" % i, case, lf, la, v)
            if not r.clipped and base.now < 4 and (TIMING.sub("", r.out()), r.status()) != ref:
                return "pieces: the output depends on how the bytes arrive (%s)\n%s\n%s\n---\n%s" % (v, self.desc(case, lf, la), ref[0][:500], r.out()[:500])
        # damage
        for i, dam in enumerate(case["dam"]):
            x = self.damage(case, dam, dict(lf), list(la))
            if not x:
                continue
            c2, df, da = x
            r = self.go(R, "dam%d" % i, c2, df, da)
            R.nontrivial = True
            R.tick("damage_" + dam)
            v = self.judge(r, "damage '%s'" % dam)
            if v:
                return v + "\n%s\n%s" % (self.desc(case, df, da), r.out()[-400:])
        # faults
        r = self.go(R, "job2", case, lf, la, {"want_trace": 1})
        ops = {8: [], 9: []}
        for l in r.trace.decode("latin1").split("\n"):
            m = re.search(r"proc (\d+)  (open|read) (\S+)", l)
            if m:
                ops[8 if m.group(2) == "open" else 9].append((int(m.group(1)), m.group(3)))
        for i, f in enumerate(case["faults"]):
            o = ops[f["cls"]]
            if not o:
                continue
            k = int(f["at"] * len(o))
            p, name = o[k]
            name = name.rstrip(":")
            if p or name.startswith("-") or (name not in lf and name != "strat.json"):
                continue
            decs = [(0, f["cls"], k, f["err"] if f["cls"] == 8 else -f["err"])]
            if f["more"]:
                decs += [(0, f["cls"], j, f["err"] if f["cls"] == 8 else -f["err"]) for j in range(k + 1, k + 8)]
            r = self.go(R, "fault%d" % i, case, lf, la, {"want_trace": 1, "replay": 1}, decs)
            tr = r.trace.decode("latin1")
            if not ("fails" in tr or "read error" in tr):
                R.tick("fault_missed")
                continue
            R.nontrivial = True
            R.tick("fault_open" if f["cls"] == 8 else "fault_read")
            v = self.judge(r, "%s of %s failing with errno %d (number %d)" % ("open" if f["cls"] == 8 else "read", name, f["err"], k))
            if v:
                return v + "\n%s\n%s\n%s" % (self.desc(case, lf, la), tr[-600:], r.out()[-400:])
        return None

    def judge(self, r, what):
        out = r.out()
        if r.clipped or r.deadlock:
            return "hang: %s: the run does not end" % what
        if proved(out):
            return "truncated: %s: a proof is reported" % what
        for p in r.procs:
            if p["status"] and (p["status"] & 127):
                return "crash: %s: process ended by signal %d" % (what, p["status"] & 127)
        if r.status() == 0:
            return "silent: %s: exit status 0" % what
        if not ERRWORD.search(out + r.err()):
            return "silent: %s: no error text" % what
        return None

    def damage(self, case, dam, files, args):
        rng = random.Random(int(case["dr"] * (1 << 50)))
        lay = case["lay"]
        texts = [n for n in files if n != "strat.json"]
        if case["job"] == "-convert" and lay["syntax"] == "js":
            texts = [n for n in texts if n.startswith("main") or n in args]  # includes are printed, not read
        if dam == "nofile":
            if lay["mode"] not in ("one", "files"):
                return None
            del files[rng.choice(args)]
            return case, files, args
        if dam == "noinclude":
            inc = [n for n in texts if not n.startswith("main") and lay["mode"] == "include"]
            if not inc:
                return None
            del files[rng.choice(inc)]
            return case, files, args
        if dam == "select":
            # reading a part of a file is not supported
            ms = [n for n in files if n.startswith("main.txt") and "include('" in files[n]]
            if not ms:
                return None
            files[ms[0]] = files[ms[0]].replace("').", "',[%s])." % ",".join("n%d" % i for i in range(rng.choice((1, 2, 3)))), 1)
            return case, files, args
        if dam in ("cut", "garbage", "values"):
            if lay["mode"] == "text":
                t, js = args[-1], args[-2] == "-jstext"
            else:
                n = rng.choice(texts)
                t, js = files[n], n.endswith(".js")
            if dam == "values" and not js:
                return None
            if dam == "values":
                t = t.rstrip("\n") + "\n" + rng.choice(('["p"]', "[]", '[["-p"]]', '"x"', "12")) + "\n"
            elif dam == "garbage":
                t = t + rng.choice((")", "]", "p(", "&", "p q r", "-p(a) | .", "p(a) & .", "-.", ". .", "p(a) = .", "fof(x,axiom,(p(a) & )).", "![X] : .", "q(a,).", "cnf(x,axiom") if not js else ("]", ",", "}", "[1"))
            else:
                body = t.rstrip()
                if js:
                    k = rng.randrange(1, body.rfind("\n]") + 1)
                else:
                    # inside the last statement
                    last = [x for x in body.split("\n") if x and not x.startswith("%")]
                    if not last or not body.endswith(last[-1]):
                        return None
                    k = len(body) - rng.randrange(1, max(2, min(len(last[-1]), 40) - 1))
                t = body[:k]
                if js and t.strip() == "":
                    return None
                if not js and (t.rstrip().endswith(".") or not t.strip().split("\n")[-1] or t.split("\n")[-1].strip() == ""):
                    return None
            if lay["mode"] == "text":
                args[-1] = t
            else:
                files[n] = t
            return case, files, args
        if case["job"] != "prove":
            return None
        if dam == "nostrategy":
            return dict(case, strat=None), files, args
        if dam == "badstrategy":
            return dict(case, strat=rng.choice(('{"print_level":10', "[]", "{bad}", "", '{"print_level":10,', '{"print_level" 10}', "print"))), files, args
        return None

    def shrink(self, case):
        for c in shrink_items(case):
            n = len(c["items"])
            lay = dict(c["lay"], parts=[dict(p, items=[i for i in p["items"] if i < n]) for p in c["lay"]["parts"]])
            if lay["mode"] == "files":
                have = {i for p in lay["parts"] for i in p["items"]}
                lay["parts"][0]["items"] = lay["parts"][0]["items"] + [i for i in range(n) if i not in have]
            yield dict(c, lay=lay)
        if case["pad"]:
            yield dict(case, pad=0)
        for k in ("vs", "dam", "faults"):
            for x in drop_each(case[k]):
                yield dict(case, **{k: x})
        if len(case["lay"]["parts"]) > 1 and case["lay"]["mode"] == "include":
            for x in drop_each(case["lay"]["parts"]):
                if x:
                    yield dict(case, lay=dict(case["lay"], parts=x))
        if case["fmt"]:
            yield dict(case, fmt="")


GK["I01"] = I01


# ---------------------------------------------------------------- I02
def nexpand(f, dom, env, ints, out, cmap):
    """Tseitin variable of a function-free formula over a finite domain"""
    k = f[0]
    if k == "lit":
        s, p, args = f[1]
        a = (p,) + tuple(env[x] if isinstance(x, int) else cmap[x[0]] for x in args)
        v = ints.setdefault(a, len(ints) + 1)
        return v if s else -v
    if k == "~":
        return -nexpand(f[1], dom, env, ints, out, cmap)
    if k in ("all", "ex"):
        subs, vs = [], f[1]

        def rec(i, e):
            if i == len(vs):
                subs.append(nexpand(f[2], dom, e, ints, out, cmap))
                return
            for d in range(dom):
                rec(i + 1, dict(e, **{}) | {vs[i]: d})
        rec(0, env)
        conj = k == "all"
    elif k in ("&", "|", "=>"):
        subs = [nexpand(g, dom, env, ints, out, cmap) for g in f[1:]]
        if k == "=>":
            subs[0] = -subs[0]
        conj = k == "&"
    else:
        a, b = (nexpand(g, dom, env, ints, out, cmap) for g in f[1:])
        v = ints.setdefault(("aux", len(ints)), len(ints) + 1)
        x = v if k == "<=>" else -v
        out += [[-x, -a, b], [-x, a, -b], [x, a, b], [x, -a, -b]]
        return v
    v = ints.setdefault(("aux", len(ints)), len(ints) + 1)
    if conj:
        out += [[-v, s] for s in subs] + [[v] + [-s for s in subs]]
    else:
        out += [[v, -s] for s in subs] + [[-v] + list(subs)]
    return v


def monadic_sat(fs, consts, preds, nullary=0):
    """satisfiability of function-free formulas with one-place predicates only (2 to the preds elements are enough)"""
    import itertools
    dom = 1 << preds
    for cv in itertools.product(range(dom), repeat=len(consts)):
        ints, out = {}, []
        cmap = dict(zip(consts, cv))
        for f in fs:
            out.append([nexpand(f, dom, {}, ints, out, cmap)])
        if L.dpll(out, len(ints)):
            return True
    return False


def eqv(rng, f, depth=2):
    """an equivalent formula"""
    k = f[0]
    if k == "lit":
        l = f[1]
        r = rng.random()
        if l[1] == "=" and r < 0.5:
            return ["lit", [l[0], "=", [l[2][1], l[2][0]]]]
        return ["~", ["lit", [not l[0], l[1], l[2]]]] if r < 0.7 else f
    if k == "~":
        g = f[1]
        r = rng.random()
        if r < 0.6:
            if g[0] in ("all", "ex"):
                return ["ex" if g[0] == "all" else "all", g[1], eqv(rng, ["~", g[2]])]
            if g[0] in "&|":
                return ["|" if g[0] == "&" else "&"] + [eqv(rng, ["~", x]) for x in g[1:]]
            if g[0] == "~":
                return eqv(rng, g[1])
            if g[0] == "=>":
                return ["&", eqv(rng, g[1]), eqv(rng, ["~", g[2]])]
            if g[0] in ("<=>", "<~>"):
                return ["<~>" if g[0] == "<=>" else "<=>"] + [eqv(rng, x) for x in g[1:]]
        return ["~", eqv(rng, g)]
    if k in ("all", "ex"):
        if rng.random() < 0.3:
            return ["~", ["ex" if k == "all" else "all", f[1], eqv(rng, ["~", f[2]])]]
        return [k, f[1] if len(f[1]) < 2 or rng.random() < 0.5 or len(set(f[1])) < len(f[1]) else f[1][::-1], eqv(rng, f[2])]
    a = [eqv(rng, x) for x in f[1:]]
    r = rng.random()
    if k in "&|" and r < 0.5:
        rng.shuffle(a)
    if k == "=>" and r < 0.3:
        return ["|", ["~", a[0]], a[1]]
    if k == "=>" and r < 0.6:
        return ["=>", ["~", a[1]], ["~", a[0]]]
    if k == "<=>" and r < 0.3:
        return ["&", ["=>", a[0], a[1]], ["=>", a[1], a[0]]]
    if k == "<~>" and r < 0.3:
        return ["|", ["&", a[0], ["~", a[1]]], ["&", ["~", a[0]], a[1]]]
    if k in ("<=>", "<~>") and r < 0.5:
        return [k, a[1], a[0]]
    return [k] + a


class I02(Check):
    prop = "I02"
    rule = ("a case is a set of clauses and formulas whose satisfiability is decided by the harness (contradictory by construction, true in a random finite model, one-place predicates decided on 2^k elements, "
            "a formula with the negation of an equivalent one) and several ways from it to the prover: each one of the four syntaxes, followed by up to two of the printing steps "
            "-convert and -clausify with or without -tptp and -json; non-trivial: at least one way with a printing step or at least two syntaxes; distinct: by hash of the execution")
    assume = ["a search that is cut off after 30 and again after 300 million basic blocks says nothing", "predicates and functions have different names"]
    quick = 45
    limit = 30000000

    def gen(self, rng):
        kind = rng.choice(("monadic", "monadic", "monadic", "eqv", "eqv", "mus", "sat"))
        if kind == "mus":
            items, _ = P.gen(rng)
            truth = True
        elif kind == "sat":
            items, _, _ = gen_true_items(rng, form=0.9)
            truth = False
        elif kind == "eqv":
            sig = L.Sig(rng, eq=rng.random() < 0.2)
            f = L.rformula(rng, sig, rng.choice((1, 2, 2, 3)), [])
            g = eqv(rng, f)
            a = rng.random()
            items = [{"k": "f", "f": f, "r": "axiom"}, {"k": "f", "f": g, "r": "conjecture"} if a < 0.6 else {"k": "f", "f": ["~", g], "r": rng.choice(("axiom", "negated_conjecture"))}]
            truth = True
        else:
            sig = L.Sig(rng, eq=False)
            np, nc = rng.choice((1, 1, 2, 2)), rng.choice((1, 1, 2))
            sig.pr = {p: 1 for p in "pqs"[:np]}
            sig.fn = {c: 0 for c in "ab"[:nc]}
            if rng.random() < 0.3:
                sig.pr["w"] = 0
            items = []
            for i in range(rng.choice((1, 2, 3, 4))):
                if rng.random() < 0.7:
                    items.append({"k": "f", "f": L.rformula(rng, sig, rng.choice((1, 2, 3, 3, 4)), []), "r": "axiom"})
                else:
                    items.append({"k": "c", "c": L.rclause(rng, sig, maxlen=3), "r": "axiom"})
            if rng.random() < 0.5:
                items[-1]["r"] = "conjecture"
            fs = []
            for it in items:
                f = it.get("f")
                if f is None:
                    vs = L.cvars(it["c"])
                    f = ["|"] + [["lit", l] for l in it["c"]] if len(it["c"]) > 1 else ["lit", it["c"][0]]
                    if vs:
                        f = ["ex" if it["r"] == "conjecture" else "all", list(vs), f]
                fs.append(["~", f] if it["r"] == "conjecture" else f)
            truth = not monadic_sat(fs, sorted(sig.fn), np)
        if not items:
            return None
        clausal = all(it["k"] == "c" and it["r"] != "conjecture" for it in items)
        ways = []
        for _ in range(4):
            syn = rng.choice(("plain", "fof", "js", "js") + (("cnf",) if clausal else ()))
            cur, steps = ("js" if syn == "js" else "txt"), []
            for _ in range(rng.choice((0, 1, 1, 2))):
                op = rng.choice(("-convert", "-clausify"))
                fmt = rng.choice(("-tptp", "-json", ""))
                if op == "-convert" and (cur == "js" or not fmt):
                    fmt = "-tptp" if cur == "js" else rng.choice(("-tptp", "-json"))
                steps.append([op] + ([fmt] if fmt else []))
                cur = "js" if fmt == "-json" else "txt"
            ways.append({"syntax": syn, "steps": steps, "strategy": rng.choice(("negative_pref", "positive_pref", "hardness_pref", "double"))})
        return {"items": items, "truth": truth, "kind": kind, "ways": ways, "seed": rng.randrange(1, 1 << 40),
                "cfg": {"bb_ps": 8400, "max_bb": self.limit if truth else 8000000, "garbage": rng.choice((0, 1, 2)), "garbage_seed": rng.randrange(1, 1 << 30)}}

    def run(self, R, case):
        R.nontrivial = len({w["syntax"] for w in case["ways"]}) > 1 or any(w["steps"] for w in case["ways"])
        R.tick("kind_%s_%s" % (case["kind"], "contradictory" if case["truth"] else "satisfiable"))
        for i, w in enumerate(case["ways"]):
            text = L.render(case["items"], w["syntax"])
            js, hist = w["syntax"] == "js", []
            for j, st in enumerate(w["steps"]):
                name = "in.js" if js else "in.txt"
                hist.append("--- %s\n%s" % (name, text))
                r = R("w%ds%d" % (i, j), Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(["gkc", "-mbsize", "10"] + st + [name])]))
                R.tick("step" + "".join(st))
                nxt = r.out()
                if r.clipped:
                    return None
                if r.status() != 0:
                    if st[0] == "-clausify" and re.search("no clauses found|no clauses", nxt):
                        break
                    return "step: '%s' ends with status %s\n%s\n%s" % (" ".join(st), r.status(), "\n".join(hist), nxt[-500:])
                text, js = nxt, "-json" in st
                if not text.strip() or text.split() == ["[", "]"]:
                    break
            else:
                name = "in.js" if js else "in.txt"
                hist.append("--- %s\n%s" % (name, text))
                g = {"print_level": 10, "query_preference": 0, "max_dseconds": 100, "strategy": [w["strategy"]]}
                argv = ["gkc", "-mbsize", "10", "-print", "10", "-parallel", "0", "-strategytext", json.dumps(g), name]
                r = R("w%d" % i, Scenario(case["seed"], case["cfg"], {name: text}, [Cmd(argv)]))
                if r.clipped and case["truth"]:
                    R.tick("searched_again")
                    r = R("w%dlong" % i, Scenario(case["seed"], dict(case["cfg"], max_bb=10 * self.limit), {name: text}, [Cmd(argv)]))
                out = r.out()
                if case["truth"] and not proved(out) and not r.clipped and '"="' in json.dumps(case["items"]):
                    # a single strategy does not find every proof with equations between literals of one clause
                    R.tick("searched_with_all_strategies")
                    r = R("w%dauto" % i, Scenario(case["seed"], dict(case["cfg"], max_bb=10 * self.limit), {name: text}, [Cmd(["gkc", "-mbsize", "10", "-print", "10", "-parallel", "0", name])]))
                    out = r.out()
                what = "the %s problem given as %s%s" % ("contradictory" if case["truth"] else "satisfiable", w["syntax"], "".join(" after " + " ".join(s) for s in w["steps"]))
                if not r.clipped and r.status() != 0:
                    return "refused: %s ends with status %s\n%s\n%s" % (what, r.status(), "\n".join(hist), out[-500:])
                if proved(out) != case["truth"]:
                    if r.clipped:
                        R.tick("cut_off")
                        continue
                    return ("unsound: %s is proved\n%s\n%s" if proved(out) else "lost: %s is not proved\n%s\n%s") % (what, "\n".join(hist), out[:800])
                continue
            # nothing left to print: a set without clauses
            R.tick("no_clauses")
            if case["truth"]:
                return "lost: a contradictory problem has no clauses\n%s" % "\n".join(hist)
        return None

    def shrink(self, case):
        for x in drop_each(case["ways"]):
            if x:
                yield dict(case, ways=x)
        for i, w in enumerate(case["ways"]):
            for x in drop_each(w["steps"]):
                if all(s[0] != "-convert" or True for s in x):
                    yield dict(case, ways=case["ways"][:i] + [dict(w, steps=x)] + case["ways"][i + 1:])
        if not case["truth"]:
            yield from shrink_items(case)


GK["I02"] = I02
