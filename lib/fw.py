"""Check framework: violations, counts, floors, known findings, evidence."""
import json, multiprocessing, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.analysed = []
        self._prog = {}
        self.extra = {}

    # ---- program access
    def prog(self, config="default"):
        if config not in self._prog:
            import build, mir
            self._prog[config] = mir.load(build.dump(config))
        return self._prog[config]

    # ---- results
    def violate(self, key, text):
        """key: stable identification (no line numbers); text: full diagnosis"""
        self.viol.setdefault(key, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, what=""):
        if self.counts.get(name, 0) < n:
            self.violate("floor:" + name, "only %d %s analysed, expected at least %d%s (the rule lost its anchors)" %
                         (self.counts.get(name, 0), name, n, " " + what if what else ""))

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, x, what):
        """an anchor that must exist"""
        if x is None:
            raise Missing(what)
        return x


class Missing(Exception):
    pass


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding: "):
                rest = l[len("finding: "):]
                p, _, rest = rest.partition(" ")
                k, _, what = rest.partition(" :: ")
                if p == "property=" + pid and k.startswith("key="):
                    out[k[4:]] = what
    return out


def run(pid, tier, fn, meta):
    t0 = time.time()
    c = Check(pid, tier)
    try:
        fn(c)
    except Missing as e:
        c.violate("missing-anchor:%s" % e, "the analysis cannot find %s in the current tree" % e)
    except Exception as e:  # fail closed: an analysis that cannot decide never reports success
        tb = traceback.format_exc()
        c.violate("undecided:%s" % type(e).__name__, "the analysis could not decide the property: %s\n%s" % (e, tb))
    known = known_findings(pid)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, pid + ".replay.txt")
    new = {k: v for k, v in c.viol.items() if k not in known}
    old = {k: v for k, v in c.viol.items() if k in known}
    print("%s (%s tier): %s" % (pid, tier, meta["title"]))
    for k, n in c.counts.items():
        print("  analysed: %s = %d" % (k, n))
    for k in old:
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known[k]))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": meta["technique"] + ". " + (c.rule or meta.get("rule", "")),
                       "analysed": c.counts, "samples": c.samples, **c.extra},
          "wall_s": round(time.time() - t0, 3), "violations": len(new), "violation_keys": sorted(new),
          "known_findings": sorted(old), "assumptions": c.assumptions + meta.get("assumptions", [])}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        with open(replay, "w") as f:
            for k, v in new.items():
                f.write("[%s] %s\n%s\n\n" % (pid, k, v))
        for k, v in list(new.items())[:20]:
            print("  %s\n    %s" % (k, v.replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("  held on everything analysed (%.1f s)" % (time.time() - t0))
    return 0


def pmap(f, items):
    """[f(x) for x in items], in parallel processes (what f returns must be picklable; f and items needn't)"""
    global _job
    items = list(items)
    n = min(len(items), os.cpu_count() or 1, 8)
    if n < 2:
        return [f(x) for x in items]
    _job = (f, items)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return pool.map(_run_job, range(len(items)), 1)


def _run_job(i):
    sys.setrecursionlimit(100000)
    return _job[0](_job[1][i])
