"""Common driver of the checks: obligations, known findings, evidence, exit codes.

exit 0: every obligation of the property was discharged on the current tree
exit 1: at least one obligation failed (VIOLATION line, report in evidence/)
exit 2: the analysis could not decide (missing anchor, unsupported construct)
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = ["OCaml's type system and runtime checks (bounds of Bytes.get/set/blit/sub) behave as documented",
               "contracts of the standard library, Zarith and the native primitives as written in sa/stdmodel.py",
               "64-bit words; the flags the build uses on this machine"]
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")


class Result:
    """obligations found by one task"""

    def __init__(self):
        self.obs = {}        # (rule, site, inst) -> [ok, where, detail, count]
        self.stats = {}
        self.errors = []
        self.unexplored = []     # parts outside the analysed language: reported, not decided
        self.notes = []

    def ob(self, rule, ok, where, inst="", detail=""):
        """one obligation: rule applied to the instance inst at where"""
        site = where
        if ":" in where and SITES is not None:
            site = SITES.at(where)
        k = (rule, site, inst)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = [bool(ok), where, detail, 1]
        else:
            o[3] += 1
            if o[0] and not ok:
                o[0], o[1], o[2] = False, where, detail
        return ok

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def merge(self, r):
        for k, v in r.obs.items():
            o = self.obs.get(k)
            if o is None:
                self.obs[k] = list(v)
            else:
                o[3] += v[3]
                if o[0] and not v[0]:
                    o[0], o[1], o[2] = v[0], v[1], v[2]
        for k, v in r.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.errors += r.errors
        self.unexplored += r.unexplored
        self.notes += r.notes


SITES = None
PROG = None


def program():
    """the typed tree of the library, loaded once per run"""
    global PROG, SITES
    if PROG is None:
        from . import oeval, surface
        PROG = oeval.Program()
        SITES = surface.Sites(PROG)
    return PROG


def _task(a):
    f, args = a
    r = Result()
    t = time.time()
    try:
        f(r, *args)
    except Exception as e:
        r.unexplored.append("%s%r: %s: %s" % (f.__name__, tuple(str(x)[:60] for x in args), type(e).__name__, str(e)[:300]))
        r.notes.append(traceback.format_exc()[-1500:])
    r.stats["task_seconds"] = round(time.time() - t, 2)
    r.slow = (r.stats["task_seconds"], f.__name__ + repr(tuple(str(x)[:60] for x in args)))
    return r


TASKS = []


def _indexed(i):
    return _task(TASKS[i])


def pmap(tasks, procs=None):
    """tasks: list of (function(result, *args), args); the workers inherit the list, only results are sent"""
    global TASKS
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1 or len(tasks) == 1:
        return [_task(t) for t in tasks]
    from concurrent.futures import ProcessPoolExecutor, as_completed
    TASKS = tasks
    out = []
    with ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as p:
        fs = {p.submit(_indexed, i): i for i in range(len(tasks))}
        for f in as_completed(fs):
            try:
                out.append(f.result())
            except Exception as e:
                r = Result()
                r.unexplored.append("%s%r: %s: %s" % (tasks[fs[f]][0].__name__, tuple(str(x)[:60] for x in tasks[fs[f]][1]),
                                                      type(e).__name__, str(e)[:200]))
                r.slow = (0, "")
                out.append(r)
    return out


class Ctx(Result):
    def __init__(self, pid, tier, seed):
        Result.__init__(self)
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.explanation = ""
        self.extra = {}
        self.slowest = []
        self.expected = []

    def run(self, tasks, procs=None):
        for r in pmap(tasks, procs):
            self.merge(r)
            self.slowest.append(r.slow)

    def need(self, name, n=1):
        """an anchor of the analysis: at least n instances must have been analysed"""
        self.expected.append((name, n))

    def known(self):
        try:
            kf = json.load(open(os.path.join(HERE, "known_findings.json")))
        except FileNotFoundError:
            return []
        return [k for k in kf.get("findings", []) if k["property"] == self.pid]

    def finish(self, level="other"):
        known = self.known()
        bad, suppressed = [], []
        for k, v in sorted(self.obs.items()):
            if v[0]:
                continue
            hit = [x for x in known if x["rule"] == k[0] and x["site"] == k[1] and x.get("instance", "") == k[2]]
            if hit:
                suppressed.append((hit[0], k, v))
            else:
                bad.append((k, v))
        for k in self.obs:
            self.stats["rule " + k[0]] = self.stats.get("rule " + k[0], 0) + 1
        for name, n in self.expected:
            if self.stats.get(name, 0) < n:
                self.unexplored.append("anchor: only %d instance(s) of %s analysed, at least %d expected" %
                                   (self.stats.get(name, 0), name, n))
        if not self.obs and not self.errors:
            self.errors.append("no obligation was generated")
        u = sys.modules.get("sa.c.units")
        for h, e in sorted(u.BROKEN.items() if u else ()):
            self.unexplored.append("harness %s does not compile against the current sources: %s" % (h, e))
        os.makedirs(EVID, exist_ok=True)
        rules = {}
        for k, v in self.obs.items():
            d = rules.setdefault(k[0], {"obligations": 0, "discharged": 0, "evaluations": 0})
            d["obligations"] += 1
            d["discharged"] += 1 if v[0] else 0
            d["evaluations"] += v[3]
        if not self.obs and self.unexplored:
            self.errors.append("nothing could be analysed")
        outcome = "violated" if bad else ("undecided" if self.errors else "held")
        self.slowest.sort(reverse=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "wall_s": round(time.time() - self.t0, 2), "outcome": outcome,
              "coverage": {"explanation": self.explanation,
                           "rules": rules,
                           "analysed": {k: v for k, v in sorted(self.stats.items())},
                           "known_findings": ["%s %s %s" % k for _h, k, _v in suppressed],
                           "obligations": len(self.obs),
                           "discharged": sum(1 for v in self.obs.values() if v[0]),
                           "sample": ["%s @ %s [%s]" % (k[0], k[1], k[2][:160]) for k in sorted(self.obs)[:40]],
                           "slowest": self.slowest[:5]},
              "assumptions": ASSUMPTIONS, "violations": len(bad), "unexplored": self.unexplored[:50],
              "errors": self.errors[:20]}
        ev["coverage"].update(self.extra)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for h, k, v in suppressed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, h["what"]))
        if bad:
            rep = os.path.join(EVID, "%s.violation.txt" % self.pid)
            with open(rep, "w") as f:
                f.write("property %s violated; re-run: bash /verif/check.sh %s %s\n\n" % (self.pid, self.pid, self.tier))
                for k, v in bad:
                    f.write("rule: %s\nwhere: %s (%s)\ninstance: %s\ndetail: %s\n\n" % (k[0], v[1], k[1], k[2], v[2]))
            for k, v in bad[:12]:
                print("  %s: [%s] in %s: %s %s" % (v[1], k[0], k[1], k[2], v[2][:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("ERROR (no answer): " + e)
            if os.environ.get("VERIF_DEBUG"):
                print("\n".join(self.notes[:3]))
            return 2
        for u in self.unexplored[:10]:
            print("NOT-EXPLORED (outside the analysed language): " + u)
        if self.unexplored and os.environ.get("VERIF_DEBUG"):
            print("\n".join(self.notes[:3]))
        print("OK property=%s: %d obligations discharged (%d evaluations) in %.1f s" %
              (self.pid, len(self.obs), sum(v[3] for v in self.obs.values()), time.time() - self.t0))
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    ev = os.path.join(EVID, pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        mod = importlib.import_module("sa.checks." + pid.lower())
        mod.check(ctx)
    except Exception as e:
        ctx.errors.append("%s: %s" % (type(e).__name__, str(e)[:400]))
        ctx.notes.append(traceback.format_exc()[-3000:])
    rc = ctx.finish(getattr(sys.modules.get("sa.checks." + pid.lower()), "LEVEL", "other"))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
