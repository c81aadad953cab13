"""Reads printed proofs and checks each step (entailment by z3)."""
import json, re
import logic as L

STEP = re.compile(r"^\s*(\d+):\s*\[([^\]]*)\]\s*(.*)$")
BLOCK = re.compile(r"(?:^answer: (?P<ans>[^\n]*)\n)?^proof:[ \t]*\n(?P<steps>(?:[ \t]+\d+:[^\n]*\n?)*)", re.M)


class Bad(Exception):
    pass


def cites_of(kind, toks):
    c = []
    for i, t in enumerate(toks):
        t = t.strip()
        if kind in ("inst",) and i == 1:
            continue
        m = re.match(r"^(\d+)(\.[\w.$]*)*$", t)
        if m:
            c.append(int(m.group(1)))
    return c


def parse_text(out):
    """[(answer clause or None, [(num, kind, cites, clause)])]"""
    res = []
    for m in BLOCK.finditer(out):
        steps = []
        for line in m.group("steps").splitlines():
            if not line.strip():
                continue
            s = STEP.match(line)
            if not s:
                raise Bad("unreadable step %r" % line)
            toks = s.group(2).split(",")
            kind = toks[0].strip()
            try:
                cl = L.parse_clause(s.group(3))
            except (L.ParseError, IndexError, AttributeError) as e:
                raise Bad("unreadable clause in step %r (%s)" % (line, e))
            steps.append((int(s.group(1)), kind, [] if kind == "in" else cites_of(kind, toks[1:]), cl))
        ans = L.parse_clause(m.group("ans")) if m.group("ans") else None
        res.append((ans, steps))
    return res


def jdocs(out):
    """the json values in the output, one after another"""
    dec = json.JSONDecoder()
    i, docs = 0, []
    while True:
        m = re.compile(r"^\{\"result\"", re.M).search(out, i)      # other lines tell about the run
        if not m:
            return docs
        i = m.start()
        try:
            d, i = dec.raw_decode(out, i)
        except ValueError as e:
            raise Bad("not json: %s in %r" % (e, out[i:i + 200]))
        docs.append(d)


def parse_json(out):
    res = []
    for d in jdocs(out):
        if not isinstance(d, dict) or d.get("result") != "proof found":
            continue
        for a in d.get("answers", []):
            steps = []
            for st in a.get("proof", []):
                if not (isinstance(st, list) and len(st) == 3):
                    raise Bad("bad step %r" % (st,))
                kind = st[1][0]
                cites = []
                for i, x in enumerate(st[1][1:]):
                    if kind == "in":
                        break
                    if kind == "inst" and i == 1:
                        continue
                    if isinstance(x, int):
                        cites.append(x)
                    elif isinstance(x, list) and x and isinstance(x[0], int):
                        cites.append(x[0])
                steps.append((st[0], kind, cites, L.js_parse_clause(st[2])))
            ans = L.js_parse_clause(a["answer"]) if "answer" in a else None
            res.append((ans, steps))
    return res


TSTEP = re.compile(r"^cnf\('(\d+)', plain, (\(.*\))(?:,\n  inference\((\w+),\[([^\]]*)\],\[([^\n]*)\]\)|,([^\n()]+))?\)\. *$", re.M)


def parse_tptp(out):
    res = []
    parts = re.split(r"(?:^answer: ([^\n]*)\n\s*)?^% SZS output start[^\n]*\n", out, flags=re.M)
    for an, blk in zip(parts[1::2], parts[2::2]):
        if "% SZS output end" not in blk:
            raise Bad("proof block does not end")
        blk = blk.split("% SZS output end")[0]
        steps = []
        for m in TSTEP.finditer(blk):
            body = m.group(2).strip()
            if body.startswith("(") and body.endswith(")"):
                body = body[1:-1]
            kind = m.group(3)
            try:
                cl = L.parse_clause(body)
            except (L.ParseError, IndexError, AttributeError) as e:
                raise Bad("unreadable clause %r (%s)" % (body, e))
            inp = kind in (None, "cnf_transformation")
            steps.append((int(m.group(1)), "in" if inp else kind, [] if inp else [int(x) for x in re.findall(r"'(\d+)'", m.group(5))], cl))
        n = len(re.findall(r"^cnf\('\d+'", blk, re.M))
        if n != len(steps):
            raise Bad("%d of %d tptp steps readable" % (len(steps), n))
        a = None
        if an:
            an = an.strip()
            if an.startswith("(") and an.endswith(")"):
                an = an[1:-1]
            a = L.parse_clause(an)
        res.append((a, steps))
    return res


# ---------------------------------------------------------------- matching of clauses
def same_clause(a, b):
    """equal up to the names of variables, the order of literals, repeated literals and the sides of equations"""
    da, db = [], []
    for src, dst in ((a, da), (b, db)):
        for l in src:
            if l not in dst:
                dst.append(l)
    if len(da) != len(db):
        return False

    def mt(s, t, e, r):
        if isinstance(s, int) or isinstance(t, int):
            if not (isinstance(s, int) and isinstance(t, int)):
                return None
            if s in e or t in r:
                return (e, r) if e.get(s) == t and r.get(t) == s else None
            return {**e, s: t}, {**r, t: s}
        if s[0] != t[0] or len(s) != len(t):
            return None
        for x, y in zip(s[1:], t[1:]):
            q = mt(x, y, e, r)
            if q is None:
                return None
            e, r = q
        return e, r

    def go(i, used, e, r):
        if i == len(da):
            return True
        l = da[i]
        for j, m in enumerate(db):
            if j in used or l[0] != m[0] or l[1] != m[1] or len(l[2]) != len(m[2]):
                continue
            for args in ((m[2], m[2][::-1]) if l[1] == "=" else (m[2],)):
                q = mt(["", *l[2]], ["", *args], e, r)
                if q is not None and go(i + 1, used | {j}, *q):
                    return True
        return False
    return go(0, frozenset(), {}, {})


# ---------------------------------------------------------------- entailment
_z = {}


def z3():
    if "m" not in _z:
        import z3 as m
        _z["m"] = m
    return _z["m"]


class Ent:
    def __init__(self):
        z = z3()
        self.ctx = z.Context()
        self.U = z.DeclareSort("U", self.ctx)
        self.syms = {}
        self.n = 0

    def sym(self, name, ar, pred):
        z = z3()
        k = (name, ar, pred)
        if k not in self.syms:
            r = z.BoolSort(self.ctx) if pred else self.U
            self.syms[k] = z.Function("%s_%d_%d" % (name, ar, pred), *([self.U] * ar + [r])) if ar else z.Const("%s_0_%d" % (name, pred), r)
        return self.syms[k]

    def term(self, t, env):
        if isinstance(t, int):
            return env[t]
        s = self.sym(t[0], len(t) - 1, 0)
        return s(*[self.term(a, env) for a in t[1:]]) if len(t) > 1 else s

    def lit(self, l, env):
        z = z3()
        if l[1] == "=":
            x = self.term(l[2][0], env) == self.term(l[2][1], env)
        elif l[1] in ("$true", "true", "$false", "false") and not l[2]:
            x = z.BoolVal(l[1].endswith("true"), self.ctx)
        else:
            s = self.sym(l[1], len(l[2]), 1)
            x = s(*[self.term(a, env) for a in l[2]]) if l[2] else s
        return x if l[0] else z.Not(x)

    def clause(self, c, closed=True):
        z = z3()
        vs = L.cvars(c)
        self.n += 1
        env = {v: z.Const("%s%d_%d" % ("x" if closed else "sk", self.n, v), self.U) for v in vs}
        ls = [self.lit(l, env) for l in c]
        if not closed:
            return [z.Not(x) for x in ls]
        b = z.Or(*ls) if len(ls) > 1 else ls[0] if ls else z.BoolVal(False, self.ctx)
        return z.ForAll(list(env.values()), b) if vs else b

    def entails(self, prem, concl, steps=3000000):
        """True / False / None"""
        z = z3()
        s = z.Solver(ctx=self.ctx)
        s.set("rlimit", steps)      # a count of solver steps, so that the answer does not depend on time
        s.set("random_seed", 1)
        for p in prem:
            s.add(self.clause(p))
        for x in self.clause(concl, False):
            s.add(x)
        r = s.check()
        return True if r == z.unsat else False if r == z.sat else None


SKIP = ("extprop", "arithinst")


def check(proof, inputs, tick, ent=None):
    """None, or what is wrong with the proof"""
    ans, steps = proof
    if not steps:
        return "empty proof"
    ent = ent or Ent()
    seen = {}
    for k, (num, kind, cites, cl) in enumerate(steps):
        if num != k + 1:
            return "steps are not numbered in order: %d comes at place %d" % (num, k + 1)
        for c in cites:
            if c not in seen:
                return "step %d cites step %d, which does not come earlier" % (num, c)
        if kind == "in":
            if not any(same_clause(cl, i) for i in inputs) and not any(ent.entails([i], cl) for i in inputs):
                return "leaf %d is not a clause of the input: %s" % (num, L.ren_clause(cl))
            tick("leaves")
        elif kind in SKIP:
            tick("steps_skipped")
        elif not cites:
            return "step %d (%s) cites nothing" % (num, kind)
        else:
            r = ent.entails([seen[c] for c in cites], cl)
            if r is False:
                return "step %d (%s) does not follow from steps %s" % (num, kind, cites)
            tick("steps_proved" if r else "steps_undecided")
        seen[num] = cl
    last = steps[-1][3]
    if ans is None:
        if last:
            return "the last step is not the contradiction: %s" % L.ren_clause(last)
    else:
        if not same_clause(last, ans):
            return "the last step is not the printed answer"
        if any(l[1] != "$ans" or not l[0] for l in ans):
            return "the answer contains other literals"
    return None
