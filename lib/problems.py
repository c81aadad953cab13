"""Contradictory problems, contradictory by construction or by a ground decision, and small enough to be proved at once."""
import itertools
import logic as L


def ground_sub(rng, consts, vs):
    return {v: [rng.choice(consts)] for v in vs}


def lit_sub(l, env):
    return [l[0], l[1], [L.subst(a, env) for a in l[2]]]


def key(l):
    return L.freeze([l[1]] + l[2])


def generalise(rng, c, p=0.5):
    """replace some constants by variables, the same constant by the same variable: the given clause is an instance"""
    n = [len(L.cvars(c))]
    mp = {}

    def go(t):
        if isinstance(t, int):
            return t
        if len(t) == 1:
            if t[0] not in mp:
                mp[t[0]] = None
                if rng.random() < p:
                    mp[t[0]] = n[0]
                    n[0] += 1
            return list(t) if mp[t[0]] is None else mp[t[0]]
        return [t[0]] + [go(a) for a in t[1:]]
    vs = L.cvars(c)
    if vs:
        n[0] = max(vs) + 1
    return [[l[0], l[1], [go(a) for a in l[2]]] for l in c]


def horn(rng, funcs=True):
    consts = list("abcd"[:rng.choice((2, 2, 3, 4))])
    preds = {p: ar for p, ar in (("p", 1), ("q", 1), ("r", 2), ("s", 2), ("t", 1), ("u", 3)) if rng.random() < 0.7} or {"p": 1}
    names = sorted(preds)

    def gterm(d=1):
        if funcs and d and rng.random() < 0.15:
            return ["f", gterm(d - 1)]
        return [rng.choice(consts)]
    facts = []
    for _ in range(rng.randint(2, 5)):
        p = rng.choice(names)
        facts.append([True, p, [gterm() for _ in range(preds[p])]])
    rules = []
    for _ in range(rng.randint(2, 5)):
        nv = rng.choice((1, 2, 2, 3))
        body = []
        for _ in range(rng.choice((1, 1, 2, 2, 3))):
            p = rng.choice(names)
            body.append([False, p, [rng.randrange(nv) if rng.random() < 0.85 else [rng.choice(consts)] for _ in range(preds[p])]])
        vs = sorted({v for l in body for v in L.cvars([l])})
        p = rng.choice(names)

        def hterm():
            if vs and rng.random() < 0.85:
                return rng.choice(vs)
            return [rng.choice(consts)]
        rules.append(body + [[True, p, [hterm() for _ in range(preds[p])]]])
    depth = {}
    db = {}
    for f in facts:
        if key(f) not in depth:
            depth[key(f)] = 0
            db.setdefault(f[1], []).append(f)
    d = 0
    while d < 4:
        d += 1
        new = []
        for r in rules:
            for env in match(r[:-1], db):
                h = lit_sub(r[-1], env)
                if key(h) not in depth and all(k[0] != key(h) for k in new):
                    new.append((key(h), h))
            if len(new) > 60:
                break
        if not new or len(depth) > 80:
            break
        for k, h in new:
            depth[k] = d
            db.setdefault(h[1], []).append(h)
    goals = [h for hs in db.values() for h in hs if depth[key(h)] >= 1]
    if not goals:
        return None
    g = rng.choice(sorted(goals, key=lambda h: -depth[key(h)])[:6])
    goal = generalise(rng, [[False, g[1], g[2]]], 0.4)
    return [[f] for f in facts] + rules, goal, (facts, rules, db)


def match(body, db, env=None):
    """all bindings of the body's variables with ground facts"""
    env = env or {}
    if not body:
        yield dict(env)
        return
    l = body[0]
    for f in db.get(l[1], []):
        e = dict(env)
        if all(m1(a, b, e) for a, b in zip(l[2], f[2])):
            yield from match(body[1:], db, e)


def m1(a, b, e):
    if isinstance(a, int):
        if a in e:
            return e[a] == b
        e[a] = b
        return True
    return a[0] == b[0] and len(a) == len(b) and all(m1(x, y, e) for x, y in zip(a[1:], b[1:]))


def mus(cls, unsat):
    i = 0
    cls = list(cls)
    while i < len(cls):
        c = cls[:i] + cls[i + 1:]
        if unsat(c):
            cls = c
        else:
            i += 1
    return cls


def prop(rng):
    """a minimal contradictory set of ground clauses, then lifted"""
    consts = list("abc"[:rng.choice((1, 2, 3))])
    atoms = []
    for _ in range(rng.choice((2, 3, 3, 4))):
        p, ar = rng.choice((("p", 1), ("q", 1), ("r", 2), ("w", 0)))
        a = [p, [[rng.choice(consts)] if rng.random() < 0.8 else ["f", [rng.choice(consts)]] for _ in range(ar)]]
        if a not in atoms:
            atoms.append(a)
    n = len(atoms)
    for _ in range(40):
        cl = []
        for _ in range(n * 4):
            k = rng.choice((1, 2, 2, 2, 3, 3))
            vs = rng.sample(range(n), min(k, n))
            cl.append([(v + 1) * rng.choice((1, -1)) for v in vs])
        if L.dpll(cl, n) is None:
            break
    else:
        return None
    m = mus(cl, lambda c: L.dpll(c, n) is None)
    if len(m) < 2 or len(m) > 9:
        return None
    return [generalise(rng, [[x > 0, atoms[abs(x) - 1][0], atoms[abs(x) - 1][1]] for x in c], 0.3) for c in m]


def epr(rng, eq=False):
    sig = L.Sig(rng, funcs=False, eq=eq)
    consts = [c for c, a in sig.fn.items() if a == 0][:3]
    sig.fn = {c: 0 for c in consts}
    sig.pr = {p: a for p, a in sig.pr.items() if a <= 2} or {"p": 1}
    cls = []
    for _ in range(rng.choice((6, 8, 10, 12))):
        c = L.rclause(rng, sig, maxlen=3, depth=0)
        if not L.tautology(c):
            cls.append(c)

    def unsat(cs):
        try:
            g = L.Ground(cs, consts)
        except OverflowError:
            return False
        return not g.sat()
    if not unsat(cls):
        return None
    m = mus(cls, unsat)
    return m if 2 <= len(m) <= 8 else None


def dense(rng):
    """few predicates, long clauses with shared variables: many matches, factors and subsumed clauses"""
    consts = list("abc"[:rng.choice((1, 2, 2, 3))])
    preds = rng.choice(([("p", 1)], [("p", 2)], [("p", 1), ("q", 1)], [("p", 2), ("q", 1)], [("p", 1), ("r", 2)], [("p", 3)]))

    def rl(nv):
        p, ar = rng.choice(preds)
        return [rng.random() < 0.5, p, [rng.randrange(nv) if nv and rng.random() < 0.75 else [rng.choice(consts)] for _ in range(ar)]]
    cls = []
    size = rng.choice((6, 12, 18, 24))
    for _ in range(size):
        nv = rng.choice((0, 1, 2, 2, 3))
        c = []
        for l in (rl(nv) for _ in range(rng.choice((1, 2, 2, 3, 3, 4) if size < 18 else (2, 2, 3, 3, 4, 4)))):
            if l not in c:
                c.append(l)
        if not L.tautology(c):
            cls.append(c)

    def unsat(cs):
        try:
            return not L.Ground(cs, consts).sat()
        except OverflowError:
            return False
    if not unsat(cls):
        return None
    m = mus(cls, unsat)
    return m if 2 <= len(m) <= 16 else None


def weaker(rng, c, preds):
    """a clause implied by c: an instance of it with further literals"""
    env = {}
    consts = [["a"], ["b"], ["c"]]
    for v in L.cvars(c):
        r = rng.random()
        env[v] = v if r < 0.4 else rng.choice(consts) if r < 0.7 else rng.randrange(4)
    d = lit_sub_all(c, env)
    for _ in range(rng.choice((0, 1, 1, 2))):
        p, ar = rng.choice(preds)
        d.append([rng.random() < 0.5, p, [rng.randrange(3) if rng.random() < 0.6 else rng.choice(consts) for _ in range(ar)]])
    rng.shuffle(d)
    out = []
    for l in d:
        if l not in out:
            out.append(l)
    return out


def lit_sub_all(c, env):
    return [lit_sub(l, env) for l in c]


def equational(rng):
    """a chain of rewriting steps t0 = ... = tn and its denial"""
    consts = list("abc")
    fns = [("f", 1), ("g", 1), ("h", 2)]

    def gt(d):
        if d == 0 or rng.random() < 0.35:
            return [rng.choice(consts)]
        f, ar = rng.choice(fns)
        return [f] + [gt(d - 1) for _ in range(ar)]

    def positions(t, path=()):
        yield path
        for i, a in enumerate(t[1:]):
            yield from positions(a, path + (i,))

    def at(t, p):
        for i in p:
            t = t[1 + i]
        return t

    def put(t, p, s):
        if not p:
            return s
        return [t[0]] + [put(a, p[1:], s) if i == p[0] else a for i, a in enumerate(t[1:])]
    t0 = gt(rng.choice((1, 2, 2)))
    t = t0
    eqs = []
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        ps = list(positions(t))
        p = rng.choice(ps)
        l = at(t, p)
        r = gt(1)
        if l == r:
            continue
        e = [[True, "=", [l, r]]]
        if rng.random() < 0.3:
            e2 = generalise(rng, e, 0.5)
            # no bare variable on a side: the prover does not rewrite from variables
            if not any(isinstance(x, int) for x in e2[0][2]) and set(L.cvars([[True, "=", [e2[0][2][0]]]])) == set(L.cvars([[True, "=", [e2[0][2][1]]]])):
                e = e2
        if rng.random() < 0.4:
            e[0][2].reverse()
        eqs.append(e)
        t = put(t, p, r)
    if t == t0 or not eqs:
        return None
    if rng.random() < 0.5:
        den = [[[False, "=", [t0, t]]]]
    else:
        den = [[[True, "p", [t0]]], [[False, "p", [t]]]]
    return eqs + den


def as_formula(rng, c, exist=False):
    """the clause as a closed formula, or its denial as one when it becomes a conjecture"""
    lits = [["lit", l] if l[0] or rng.random() < 0.5 else ["~", ["lit", [True, l[1], l[2]]]] for l in c]
    f = lits[0]
    for l in lits[1:]:
        f = ["=>", ["~", f], l] if rng.random() < 0.3 else ["|", f, l]
    vs = L.cvars(c)
    if vs:
        f = ["all", vs, f]
    return ["~", f] if exist else f


def var_eq(c):
    """a positive equation with a bare variable side: outside the prover's paramodulation"""
    return any(l[0] and l[1] == "=" and any(isinstance(a, int) for a in l[2]) for l in c)


def gen(rng, kind=None, form=0.35):
    """items of a contradictory problem; 'axioms and conjecture' or clauses only"""
    for _ in range(50):
        k = kind or rng.choice(("horn", "horn", "prop", "prop", "epr", "epreq", "eq", "dense", "dense", "dense"))
        if k == "horn":
            h = horn(rng)
            cls = h and h[0] + [h[1]]
        elif k == "prop":
            cls = prop(rng)
        elif k == "epr":
            cls = epr(rng)
        elif k == "dense":
            cls = dense(rng)
        elif k == "epreq":
            cls = epr(rng, True)
        else:
            cls = equational(rng)
        if not cls or any(var_eq(c) for c in cls):
            continue
        goal = len(cls) - 1 if rng.random() < 0.6 else rng.randrange(len(cls))
        items = []
        forms = rng.random() < form
        if rng.random() < 0.4:
            # redundant company: it may be removed, what it is implied by may not
            preds = sorted({(l[1], len(l[2])) for c in cls for l in c if l[1] != "="})
            for c in [rng.choice(cls) for _ in range(rng.choice((1, 3, 6)))] if preds else []:
                cls = cls + [weaker(rng, c, preds)]
        for i, c in enumerate(cls):
            if forms and i == goal and rng.random() < 0.6:
                items.append({"k": "f", "f": as_formula(rng, c, True), "r": "conjecture"})
            elif forms and rng.random() < 0.3:
                items.append({"k": "f", "f": as_formula(rng, c), "r": rng.choice(("axiom", "hypothesis"))})
            else:
                items.append({"k": "c", "c": c, "r": "negated_conjecture" if i == goal and rng.random() < 0.6 else "axiom"})
        if rng.random() < 0.5:
            rng.shuffle(items)
        return items, k
    return None, None
