"""Shared by all checks: running, gating, minimising, evidence, known findings."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> match=<regex> | <what fails>'."""
    out = []
    try:
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(.*?) \| (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    except OSError:
        pass
    return out


class Evidence:
    def __init__(self, prop, level="exploration"):
        self.t0 = time.time()
        self.d = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
                  "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []},
                  "assumptions": [], "violations": 0, "wall_s": 0.0}

    def write(self):
        os.makedirs(EVID, exist_ok=True)
        self.d["wall_s"] = round(time.time() - self.t0, 3)
        p = os.path.join(EVID, self.d["property"] + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(self.d, f, indent=1)
        os.replace(p + ".tmp", p)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def violation(prop, path, text, ev):
    ev.d["violations"] = 1
    ev.d["violation"] = text
    ev.write()
    print("%s: %s" % (prop, text))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    sys.exit(1)


def err(prop, text):
    print("ERROR property=%s %s" % (prop, text), flush=True)
    sys.exit(2)


def ddmin(items, test, deadline, workers=NCPU):
    """Smallest sublist (keeping order) for which test holds; test(list)->bool."""
    n = 2
    cur = list(items)
    with cf.ThreadPoolExecutor(workers) as ex:
        if cur and test([]):
            return []
        while len(cur) >= 2 and time.time() < deadline:
            k = max(1, len(cur) // n)
            chunks = [cur[i:i + k] for i in range(0, len(cur), k)]
            cands = [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks))]
            done = False
            for b in range(0, len(cands), workers):
                if time.time() > deadline:
                    break
                part = cands[b:b + workers]
                for c, ok in zip(part, ex.map(test, part)):
                    if ok:
                        cur = c
                        n = max(n - 1, 2)
                        done = True
                        break
                if done:
                    break
            if not done:
                if n >= len(cur):
                    break
                n = min(len(cur), n * 2)
    return cur
