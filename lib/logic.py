"""First-order problems, finite models, renderers for the accepted syntaxes, parsers of printed clauses, small decision procedures.

term: int = variable, list [name, arg...]; literal: [sign, pred, [args]] (pred '=' is equality);
clause: list of literals; formula: ["all",[v..],F] ["ex",[v..],F] ["&",..] ["|",..] ["~",F] ["=>",A,B] ["<=>",A,B] ["<~>",A,B] ["lit",L]
item of a problem: {"k":"c","c":clause,"r":role} or {"k":"f","f":formula,"r":role}
"""
import itertools, random, re


# ---------------------------------------------------------------- basics
def tvars(t, acc):
    if isinstance(t, int):
        acc.setdefault(t)
    else:
        for a in t[1:]:
            tvars(a, acc)
    return acc


def cvars(c):
    acc = {}
    for l in c:
        for a in l[2]:
            tvars(a, acc)
    return list(acc)


def fvars(f, acc=None, bound=()):
    acc = {} if acc is None else acc
    k = f[0]
    if k == "lit":
        tmp = {}
        for a in f[1][2]:
            tvars(a, tmp)
        for v in tmp:
            if v not in bound:
                acc.setdefault(v)
    elif k in ("all", "ex"):
        fvars(f[2], acc, tuple(bound) + tuple(f[1]))
    else:
        for g in f[1:]:
            fvars(g, acc, bound)
    return list(acc)


def symbols(items):
    """(functions {name: arity}, predicates {name: arity}, has equality)"""
    fn, pr = {}, {}

    def tm(t):
        if not isinstance(t, int):
            fn[t[0]] = len(t) - 1
            for a in t[1:]:
                tm(a)

    def lit(l):
        pr[l[1]] = len(l[2])
        for a in l[2]:
            tm(a)

    def fm(f):
        if f[0] == "lit":
            lit(f[1])
        elif f[0] in ("all", "ex"):
            fm(f[2])
        else:
            for g in f[1:]:
                fm(g)
    for it in items:
        if it["k"] == "c":
            for l in it["c"]:
                lit(l)
        else:
            fm(it["f"])
    eq = pr.pop("=", None) is not None
    return fn, pr, eq


# ---------------------------------------------------------------- models
class Model:
    def __init__(self, n, f, p):
        self.n, self.f, self.p = n, f, p

    @staticmethod
    def random(rng, n, fns, preds):
        f, p = {}, {}
        for name, ar in sorted(fns.items()):
            f[name] = {a: rng.randrange(n) for a in itertools.product(range(n), repeat=ar)}
            if ar and rng.random() < 0.25:      # identity or constant functions make interesting equations
                k = rng.randrange(n)
                mode = rng.randrange(3)
                for a in f[name]:
                    f[name][a] = a[0] if mode == 0 else k if mode == 1 else a[-1]
        for name, ar in sorted(preds.items()):
            d = rng.choice((0.2, 0.5, 0.5, 0.8))
            p[name] = {a for a in itertools.product(range(n), repeat=ar) if rng.random() < d}
        return Model(n, f, p)

    def to_json(self):
        return {"n": self.n, "f": {k: [[list(a), v] for a, v in sorted(t.items())] for k, t in self.f.items()}, "p": {k: sorted(list(a) for a in s) for k, s in self.p.items()}}

    @staticmethod
    def from_json(j):
        return Model(j["n"], {k: {tuple(a): v for a, v in t} for k, t in j["f"].items()}, {k: {tuple(a) for a in s} for k, s in j["p"].items()})

    def term(self, t, env):
        if isinstance(t, int):
            return env[t]
        return self.f[t[0]][tuple(self.term(a, env) for a in t[1:])]

    def lit(self, l, env):
        if l[1] == "=":
            v = self.term(l[2][0], env) == self.term(l[2][1], env)
        elif l[1] in ("$true", "$false"):
            v = l[1] == "$true"
        else:
            v = tuple(self.term(a, env) for a in l[2]) in self.p[l[1]]
        return v if l[0] else not v

    def sampled(self, c, n, seed=1):
        """None when true for n random values of the variables, else a falsifying assignment"""
        rng = random.Random(seed)
        vs = cvars(c)
        for _ in range(n):
            env = {v: rng.randrange(self.n) for v in vs}
            if not any(self.lit(l, env) for l in c):
                return env
        return None

    def clause(self, c, fixed=None):
        """None when true for all values of the variables, else a falsifying assignment"""
        vs = cvars(c)
        if fixed:
            vs = [v for v in vs if v not in fixed]
        for vals in itertools.product(range(self.n), repeat=len(vs)):
            env = dict(zip(vs, vals))
            if fixed:
                env.update(fixed)
            if not any(self.lit(l, env) for l in c):
                return env
        return None

    def formula(self, f, env):
        k = f[0]
        if k == "lit":
            return self.lit(f[1], env)
        if k == "&":
            return all(self.formula(g, env) for g in f[1:])
        if k == "|":
            return any(self.formula(g, env) for g in f[1:])
        if k == "~":
            return not self.formula(f[1], env)
        if k == "=>":
            return not self.formula(f[1], env) or self.formula(f[2], env)
        if k == "<=>":
            return self.formula(f[1], env) == self.formula(f[2], env)
        if k == "<~>":
            return self.formula(f[1], env) != self.formula(f[2], env)
        vs = f[1]
        for vals in itertools.product(range(self.n), repeat=len(vs)):
            e = dict(env)
            e.update(zip(vs, vals))
            r = self.formula(f[2], e)
            if k == "all" and not r:
                return False
            if k == "ex" and r:
                return True
        return k == "all"

    def closed(self, f, quant="all"):
        vs = fvars(f)
        return self.formula([quant, vs, f] if vs else f, {})

    def item(self, it):
        """truth of what the item asserts"""
        if it["k"] == "c":
            if it["r"] == "conjecture":     # free variables of a conjecture are existential; it is negated
                c = it["c"]
                vs = cvars(c)
                return not any(any(self.lit(l, dict(zip(vs, v))) for l in c) for v in itertools.product(range(self.n), repeat=len(vs)))
            return self.clause(it["c"]) is None
        if it["r"] == "conjecture":
            return not self.closed(it["f"], "ex")
        return self.closed(it["f"])


# ---------------------------------------------------------------- generation
class Sig:
    def __init__(self, rng, funcs=True, eq=None, big=False):
        nc = rng.choice((1, 2, 2, 3, 3, 4))
        self.fn = {c: 0 for c in "abcde"[:nc]}
        if funcs:
            for name, ar in (("f", 1), ("g", 1), ("h", 2)):
                if rng.random() < (0.55 if name == "f" else 0.3):
                    self.fn[name] = ar
        self.pr = {}
        for name, ar in (("p", 1), ("q", 1), ("r", 2), ("s", 2), ("t", 0), ("u", 3), ("w", 0)):
            if rng.random() < (0.7 if name in "pr" else 0.35 if name in "qs" else 0.12):
                self.pr[name] = ar
        self.eq = rng.random() < 0.45 if eq is None else eq
        if not self.pr and not self.eq:
            self.pr["p"] = 1
        if not self.pr and not any(self.fn.values()):
            self.pr["p"] = 1
        if big:
            self.pr.update({"k%d" % i: rng.choice((0, 1, 1, 2)) for i in range(rng.randint(1, 6))})


def rterm(rng, sig, nv, depth):
    r = rng.random()
    if nv and r < (0.5 if depth else 0.6):
        return rng.randrange(nv)
    fs = [n for n, a in sig.fn.items() if a]
    if depth and fs and r < 0.8:
        f = rng.choice(fs)
        return [f] + [rterm(rng, sig, nv, depth - 1) for _ in range(sig.fn[f])]
    return [rng.choice([n for n, a in sig.fn.items() if a == 0])]


def rlit(rng, sig, nv, depth=2, peq=0.4):
    if sig.eq and (not sig.pr or rng.random() < peq):
        return [rng.random() < 0.6, "=", [rterm(rng, sig, nv, depth), rterm(rng, sig, nv, depth)]]
    p = rng.choice(sorted(sig.pr))
    return [rng.random() < 0.5, p, [rterm(rng, sig, nv, rng.randint(0, depth)) for _ in range(sig.pr[p])]]


def rclause(rng, sig, maxlen=4, nv=None, depth=2, peq=0.4):
    n = rng.choice((1, 1, 2, 2, 2, 3, 3, 4, 5)[:2 * maxlen])
    nv = rng.choice((0, 1, 2, 2, 3)) if nv is None else nv
    return [rlit(rng, sig, nv, depth, peq) for _ in range(min(n, maxlen))]


def rformula(rng, sig, depth, free):
    """free: variables in scope; quantified variables get fresh numbers"""
    r = rng.random()
    if depth == 0 or r < 0.12:
        l = rlit(rng, sig, 0, 1)
        l[2] = [fsub(rng, a, free) for a in l[2]]
        return ["lit", l]
    if r < 0.45 and len(free) < 4:
        k = rng.choice((1, 1, 2))
        vs = [max(free, default=-1) + 1 + i for i in range(k)]
        if free and rng.random() < 0.08:
            vs[0] = rng.choice(free)       # shadowing
        return [rng.choice(("all", "ex")), vs, rformula(rng, sig, depth - 1, sorted(set(free) | set(vs)))]
    if r < 0.55:
        return ["~", rformula(rng, sig, depth - 1, free)]
    op = rng.choice(("&", "|", "=>", "=>", "<=>", "<~>", "&", "|"))
    n = rng.choice((2, 2, 3)) if op in "&|" else 2
    return [op] + [rformula(rng, sig, depth - 1, free) for _ in range(n)]


def fsub(rng, t, free):
    if not free:
        return t
    if len(t) == 1:
        return rng.choice(free) if rng.random() < 0.65 else t
    return [t[0]] + [fsub(rng, a, free) for a in t[1:]]


def true_clause(rng, sig, m, **kw):
    for _ in range(40):
        c = rclause(rng, sig, **kw)
        if m.clause(c) is None and not tautology(c):
            return c
    return None


def true_unit(rng, sig, m):
    for _ in range(20):
        l = rlit(rng, sig, 0 if rng.random() < 0.7 else 1, 1)
        if m.clause([l]) is None:
            return [l]
        l[0] = not l[0]
        if m.clause([l]) is None:
            return [l]
    return None


def tautology(c):
    for l in c:
        if l[0] and l[1] == "=" and l[2][0] == l[2][1]:
            return True
        for k in c:
            if l[1] == k[1] and l[0] != k[0] and l[2] == k[2]:
                return True
    return False


# ---------------------------------------------------------------- rendering
VN = ["X", "Y", "Z", "U", "V", "W", "X1", "Y1", "Z1", "U1"]


def vname(v):
    return VN[v] if v < len(VN) else "V%d" % v


def ren_term(t):
    if isinstance(t, int):
        return vname(t)
    return t[0] + ("(" + ",".join(ren_term(a) for a in t[1:]) + ")" if len(t) > 1 else "")


def ren_lit(l, tptp=False):
    s, p, a = l
    if p == "=":
        return "%s%s%s" % (ren_term(a[0]), "=" if s else "!=", ren_term(a[1]))
    return ("" if s else "~" if tptp else "-") + p + ("(" + ",".join(ren_term(x) for x in a) + ")" if a else "")


def ren_clause(c, tptp=False):
    return " | ".join(ren_lit(l, tptp) for l in c) if c else "$false"


def ren_formula(f):
    k = f[0]
    if k == "lit":
        return ren_lit(f[1], True)
    if k in ("all", "ex"):
        return "(%s[%s] : %s)" % ("!" if k == "all" else "?", ",".join(vname(v) for v in f[1]), ren_formula(f[2]))
    if k == "~":
        return "~(%s)" % ren_formula(f[1])
    return "(" + (" %s " % k).join(ren_formula(g) for g in f[1:]) + ")"


def js_term(t):
    import json
    if isinstance(t, int):
        return "?:" + vname(t)
    return t[0] if len(t) == 1 else [t[0]] + [js_term(a) for a in t[1:]]


def js_lit(l):
    s, p, a = l
    if p == "=":
        return [js_term(a[0]), "=" if s else "!=", js_term(a[1])]
    return [("" if s else "-") + p] + [js_term(x) for x in a]


def js_formula(f):
    k = f[0]
    if k == "lit":
        return js_lit(f[1])
    if k in ("all", "ex"):
        return ["forall" if k == "all" else "exists", ["?:" + vname(v) for v in f[1]], js_formula(f[2])]
    if k == "~":
        return ["not", js_formula(f[1])]
    r = js_formula(f[1])
    for g in f[2:]:
        r = [r, k, js_formula(g)]
    return r


def render(items, syntax="plain", names=True):
    """plain: simple syntax clauses (formulas as fof); cnf: all cnf/fof annotated; fof: clauses as fof; js: json"""
    import json
    out = []
    for i, it in enumerate(items):
        r = it.get("r", "axiom")
        if syntax == "js":
            if it["k"] == "c" and r == "conjecture" and cvars(it["c"]):
                # free variables of a conjecture are bound by exists in the text syntaxes, by forall in json
                body = js_formula(["ex", list(cvars(it["c"])), ["|"] + [["lit", l] for l in it["c"]] if len(it["c"]) > 1 else ["lit", it["c"][0]]])
            elif it["k"] == "c":
                body = [js_lit(l) for l in it["c"]]
                body = body[0] if len(body) == 1 else [x for l in [[b, "|"] for b in body] for x in l][:-1] if it.get("or") else body
            else:
                body = js_formula(it["f"])
            out.append({"@name": "n%d" % i, "@role": r, "@logic": body} if r != "axiom" or names else body)
        elif it["k"] == "c":
            if syntax == "fof":
                body = "(" + ren_clause(it["c"], True) + ")"
                vs = cvars(it["c"])
                if vs and (r != "conjecture" or i % 2):
                    body = "(%s[%s] : %s)" % ("?" if r == "conjecture" else "!", ",".join(vname(v) for v in vs), body)
                out.append("fof(n%d,%s,%s)." % (i, r, body))
            elif syntax == "cnf" or r != "axiom":
                out.append("cnf(n%d,%s,(%s))." % (i, r, ren_clause(it["c"], True)))
            else:
                out.append(ren_clause(it["c"]) + ".")
        else:
            out.append("fof(n%d,%s,%s)." % (i, r, ren_formula(it["f"])))
    if syntax == "js":
        return json.dumps(out) + "\n"
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- parsing printed clauses
TOK = re.compile(r"\s*(?:('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[A-Za-z0-9_$.?:#@]+|!=|[-+*/=<>]+)|(.))")


class ParseError(Exception):
    pass


class P:
    def __init__(self, s):
        self.t = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = TOK.match(s, i)
            self.t.append(m.group(1) or m.group(2))
            i = m.end()
        self.i = 0
        self.vars = {}

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def eat(self, x=None):
        c = self.peek()
        if c is None or (x and c != x):
            raise ParseError("expected %s got %s in %s" % (x, c, " ".join(self.t)))
        self.i += 1
        return c

    def term(self):
        n = self.eat()
        if self.peek() == "(":
            self.eat("(")
            if self.peek() == ")":
                self.eat()
                return [n]
            a = [self.term()]
            while self.peek() == ",":
                self.eat()
                a.append(self.term())
            self.eat(")")
            return [n] + a
        if n in "(),|":
            raise ParseError("bad term at %s in %s" % (n, " ".join(self.t)))
        if re.match(r"[A-Z?]", n):
            return self.vars.setdefault(n, len(self.vars))
        return [n]

    def lit(self):
        s = True
        while self.peek() in ("-", "~") or (self.peek() or "").startswith("-=") :
            if self.peek() == "-=":
                self.t[self.i] = "="
            else:
                self.eat()
            s = not s
        t = self.term()
        if self.peek() in ("=", "!="):
            o = self.eat()
            u = self.term()
            return [s if o == "=" else not s, "=", [t, u]]
        if isinstance(t, int):
            raise ParseError("variable as a literal in " + " ".join(self.t))
        if t[0] == "$pr" and len(t) == 2 and not isinstance(t[1], int):
            return [s, t[1][0], []]        # the prover's form of a propositional atom
        return [s, t[0], t[1:]]


def parse_clause(s):
    s = s.strip()
    if s.endswith("."):
        s = s[:-1]
    if s in ("false", "$false"):
        return []
    p = P(s)
    c = [p.lit()]
    while p.peek() == "|":
        p.eat()
        c.append(p.lit())
    if p.peek() is not None:
        raise ParseError("left over %s in %s" % (p.peek(), s))
    return [l for l in c if not (l[1] == "false" and l[0])]


def js_parse_lit(l, vs):
    """literal of the json proof"""
    def tm(t):
        if isinstance(t, list):
            return [t[0]] + [tm(a) for a in t[1:]]
        if isinstance(t, str) and t.startswith("?:"):
            return vs.setdefault(t, len(vs))
        return [str(t)]
    if len(l) == 3 and l[1] in ("=", "!=", "-=") and not (isinstance(l[0], str) and l[0] in ("=", "-=")):
        return [l[1] == "=", "=", [tm(l[0]), tm(l[2])]]
    p = l[0]
    if p in ("$pr", "-$pr") and len(l) == 2 and isinstance(l[1], str):
        return [p == "$pr", l[1], []]
    s = True
    if p.startswith("-") and len(p) > 1:
        s, p = False, p[1:]
    return [s, p, [tm(a) for a in l[1:]]]


def js_parse_clause(c):
    if c in ("false", False, []):
        return []
    vs = {}
    if c and isinstance(c[0], str):
        return [js_parse_lit(c, vs)]
    return [js_parse_lit(l, vs) for l in c]


# ---------------------------------------------------------------- propositional solving
def dpll(clauses, nvars):
    """clauses: lists of nonzero ints; True when satisfiable"""
    clauses = [frozenset(c) for c in clauses]
    clauses = [c for c in set(clauses) if not any(-l in c for l in c)]
    if any(len(c) == 0 for c in clauses):
        return None
    watches = {}
    for i, c in enumerate(clauses):
        for l in c:
            watches.setdefault(l, []).append(i)
    assign = {}

    def unit(lits, trail):
        st = list(lits)
        while st:
            l = st.pop()
            v = assign.get(abs(l))
            if v is not None:
                if v != (l > 0):
                    return False
                continue
            assign[abs(l)] = l > 0
            trail.append(abs(l))
            for ci in watches.get(-l, ()):
                last, n, sat = 0, 0, False
                for k in clauses[ci]:
                    a = assign.get(abs(k))
                    if a is None:
                        n += 1
                        last = k
                        if n > 1:
                            break
                    elif a == (k > 0):
                        sat = True
                        break
                if sat or n > 1:
                    continue
                if n == 0:
                    return False
                st.append(last)
        return True

    def undo(trail):
        for v in trail:
            del assign[v]

    tr = []
    if not unit([next(iter(c)) for c in clauses if len(c) == 1], tr):
        return None
    order = sorted({abs(l) for c in clauses for l in c}, key=lambda v: -(len(watches.get(v, ())) + len(watches.get(-v, ()))))

    def go():
        v = next((x for x in order if x not in assign), None)
        if v is None:
            return True
        for s in (v, -v):
            t = []
            if unit([s], t) and go():
                return True
            undo(t)
        return False
    import sys
    sys.setrecursionlimit(10000)
    return dict(assign) if go() else None


def subst(t, env):
    if isinstance(t, int):
        return env.get(t, t)
    return [t[0]] + [subst(a, env) for a in t[1:]]


def freeze(t):
    return t if isinstance(t, int) else tuple(freeze(a) if i else a for i, a in enumerate(t))


class Ground:
    """decides function-free clause sets (with equality) by grounding over the constants"""

    def __init__(self, clauses, consts):
        self.consts = sorted(consts) or ["a"]
        self.atoms = {}
        self.cl = []
        eq = any(l[1] == "=" for c in clauses for l in c)
        preds = {}
        for c in clauses:
            for l in c:
                if l[1] != "=":
                    preds[l[1]] = len(l[2])
            self.add(c)
        if eq:
            C = self.consts
            for x in C:
                self.cl.append([self.atom("=", [[x], [x]])])
            for x in C:
                for y in C:
                    if x < y:
                        e = self.atom("=", [[x], [y]])
                        for z in C:
                            if z != x and z != y:
                                self.cl.append([-e, -self.atom("=", [[y], [z]]), self.atom("=", [[x], [z]])])
                                self.cl.append([-e, -self.atom("=", [[x], [z]]), self.atom("=", [[y], [z]])])
                        for p, ar in preds.items():
                            for i in range(ar):
                                for rest in itertools.product(C, repeat=ar - 1):
                                    a = [[q] for q in rest[:i]] + [[x]] + [[q] for q in rest[i:]]
                                    b = [[q] for q in rest[:i]] + [[y]] + [[q] for q in rest[i:]]
                                    self.cl.append([-e, -self.atom(p, a), self.atom(p, b)])
                                    self.cl.append([-e, self.atom(p, a), -self.atom(p, b)])

    def atom(self, p, a):
        k = tuple(x[0] for x in a)
        if p == "=" and k[0] > k[1]:
            k = (k[1], k[0])
        return self.atoms.setdefault((p,) + k, len(self.atoms) + 1)

    def add(self, c):
        vs = cvars(c)
        for vals in itertools.product(self.consts, repeat=len(vs)):
            env = {v: [x] for v, x in zip(vs, vals)}
            self.cl.append([self.atom(l[1], [subst(a, env) for a in l[2]]) * (1 if l[0] else -1) for l in c])

    def sat(self, extra=()):
        return dpll(self.cl + list(extra), len(self.atoms)) is not None

    def lits(self, c):
        return [self.atom(l[1], l[2]) * (1 if l[0] else -1) for l in c]


# ---------------------------------------------------------------- expansions of a model by skolem functions and definitions
def expand(m, clauses, seed_fn=()):
    """Finds an interpretation of the symbols the model does not know that makes the clauses true; None if there is none.
    Complete search by propositional encoding; returns the expanded model."""
    fn, pr, _ = symbols([{"k": "c", "c": c} for c in clauses])
    newf = {k: a for k, a in fn.items() if k not in m.f}
    newp = {k: a for k, a in pr.items() if k not in m.p}
    if not newf and not newp:
        return m if all(m.clause(c) is None for c in clauses) else None
    n = m.n
    var = {}

    def V(*k):
        return var.setdefault(k, len(var) + 1)
    cl = []
    for f, ar in newf.items():
        for a in itertools.product(range(n), repeat=ar):
            cl.append([V("f", f, a, v) for v in range(n)])
            for v, w in itertools.combinations(range(n), 2):
                cl.append([-V("f", f, a, v), -V("f", f, a, w)])

    def tval(t, env):
        """list of (value, guard literals that must hold)"""
        if isinstance(t, int):
            return [(env[t], ())]
        outs = [((), ())]
        for a in t[1:]:
            outs = [(vs + (v,), g + h) for vs, g in outs for v, h in tval(a, env)]
        if t[0] in m.f:
            return [(m.f[t[0]][vs], g) for vs, g in outs]
        return [(v, g + (V("f", t[0], vs, v),)) for vs, g in outs for v in range(n)]

    for c in clauses:
        vs = cvars(c)
        for vals in itertools.product(range(n), repeat=len(vs)):
            env = dict(zip(vs, vals))
            # each literal: list of (guards, truth or variable)
            opts = []
            for l in c:
                args = [((), ())]
                for a in l[2]:
                    args = [(x + (v,), g + h) for x, g in args for v, h in tval(a, env)]
                o = []
                for x, g in args:
                    if l[1] == "=":
                        tr = (x[0] == x[1]) == l[0]
                    elif l[1] in m.p:
                        tr = (x in m.p[l[1]]) == l[0]
                    else:
                        tr = V("p", l[1], x) * (1 if l[0] else -1)
                    o.append((g, tr))
                opts.append(o)
            # for every combination of guards one clause
            tot = 1
            for o in opts:
                tot *= len(o)
            if tot > 4000 or len(cl) > 60000:
                raise OverflowError
            for comb in itertools.product(*opts):
                if any(tr is True for _, tr in comb):
                    continue
                cl.append([-g for gs, _ in comb for g in gs] + [tr for _, tr in comb if tr is not False])
    a = dpll(cl, len(var))
    if a is None:
        return None
    f2, p2 = dict(m.f), dict(m.p)
    for f, ar in newf.items():
        f2[f] = {}
        for x in itertools.product(range(n), repeat=ar):
            f2[f][x] = next(v for v in range(n) if a.get(V("f", f, x, v), False))
    for p in newp:
        p2[p] = {k[2] for k in var if k[0] == "p" and k[1] == p and a.get(var[k], False)}
    return Model(n, f2, p2)
