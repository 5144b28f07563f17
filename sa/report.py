"""Obligations, violations, known findings and evidence."""
import hashlib
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.total = 0
        self.kinds = {}
        self.samples = []
        self.viol = {}
        self.stats = {}
        self.assumptions = []
        self.notes = set()

    def ob(self, rule, where, ok, what, detail=""):
        """one obligation; `what` identifies the construct"""
        self.total += 1
        k = self.kinds.setdefault(rule, [0, 0, []])
        k[0] += 1
        if ok:
            k[1] += 1
            if len(k[2]) < 3:
                k[2].append("%s: %s" % (where, what))
            return True
        key = "%s|%s|%s" % (rule, strip_line(where), what)
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, where=where, what=what,
                                  detail=detail, key=key)
        return False

    def note(self, text):
        """something the rules leave undecided (reported in the evidence)"""
        self.notes.add(text)

    def floor(self, rule, n):
        """the rule must have had at least n instances"""
        from .project import AnalysisBroken
        have = self.kinds.get(rule, [0])[0]
        if have < n:
            raise AnalysisBroken(
                "rule %s matched %d constructs, expected at least %d" %
                (rule, have, n))

    def stat(self, I):
        for k in ("statements", "calls"):
            self.stats[k] = self.stats.get(k, 0) + I.stats[k]
        fs = self.stats.setdefault("functions", set())
        fs |= I.stats["functions"]
        un = self.stats.setdefault("unsupported", set())
        un |= set(str(x) for x in I.stats["unsupported"])
        self.stats["widened"] = self.stats.get("widened", 0) + \
            I.stats.get("widened", 0) + I.stats.get("capped", 0)

    def absorb(self, other):
        self.total += other.total
        self.notes |= other.notes
        for r, (a, b, s) in other.kinds.items():
            k = self.kinds.setdefault(r, [0, 0, []])
            k[0] += a
            k[1] += b
            k[2] = (k[2] + s)[:3]
        for k, v in other.viol.items():
            self.viol.setdefault(k, v)
        for k, v in other.stats.items():
            if isinstance(v, set):
                self.stats.setdefault(k, set())
                self.stats[k] |= v
            else:
                self.stats[k] = self.stats.get(k, 0) + v

    def finish(self, title):
        known = load_known(self.pid)
        new = []
        for key in sorted(self.viol):
            v = self.viol[key]
            hit = None
            for kf in known:
                if kf["key"] == key:
                    hit = kf
            if hit is not None:
                print("KNOWN-FINDING: property=%s %s" % (self.pid,
                                                         hit["what"]))
            else:
                new.append(v)
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rd, f))
        for v in new:
            n = hashlib.sha256(v["key"].encode()).hexdigest()[:10]
            p = os.path.join(rd, "%s-%s.json" % (self.pid, n))
            with open(p, "w") as fh:
                json.dump(v, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (
                self.pid, os.path.relpath(p, HERE)))
            print("  rule %s" % v["rule"])
            print("  at   %s" % v["where"])
            print("  what %s" % v["what"])
            if v["detail"]:
                print("  %s" % v["detail"][:1500])
        rules = {}
        samples = []
        for r, (a, b, s) in sorted(self.kinds.items()):
            rules[r] = {"obligations": a, "discharged": b, "examples": s}
            samples.extend(s[:1])
        st = self.stats
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation":
                    "Static analysis of /repo/src/jwkest (and script/ where "
                    "the rule says so): %s  Each rule below counts the "
                    "program points, exits or table entries it was evaluated "
                    "on in this run; nothing of the package is executed."
                    % title,
                "obligations": self.total,
                "discharged": sum(k[1] for k in self.kinds.values()),
                "rules": rules,
                "functions_analysed": len(st.get("functions", ())),
                "abstract_statements": st.get("statements", 0),
                "abstract_calls": st.get("calls", 0),
                "state_joins": st.get("widened", 0),
                "unsupported_constructs": sorted(st.get("unsupported", ())),
                "undecided": sorted(self.notes)[:40],
                "samples": samples[:12],
                "known_findings": len(self.viol) - len(new),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(HERE, "evidence", self.pid + ".json"),
                  "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d obligations, %d violations, %.1fs" % (
            self.pid, self.total, len(new), time.time() - self.t0))
        return 1 if new else 0


def strip_line(where):
    """file:12 (function) -> file (function): findings survive line shifts"""
    import re
    return re.sub(r":\d+ ", " ", where)


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        d = json.load(fh)
    return [x for x in d.get("findings", []) if x["property"] == pid]


_jobs = None


def _work(i):
    from .project import AnalysisBroken
    import traceback
    rep = Report(_jobs[1].pid, _jobs[1].tier, _jobs[1].seed)
    try:
        _jobs[0][i](rep)
    except AnalysisBroken as e:
        return ("broken", str(e))
    except Exception:
        return ("crash", traceback.format_exc())
    return ("ok", rep)


def parallel(rep, jobs):
    """run jobs (functions of a report) in forked workers"""
    global _jobs
    import multiprocessing
    from .project import AnalysisBroken
    n = min(len(jobs), os.cpu_count() or 1, 8)
    if n <= 1:
        for j in jobs:
            j(rep)
        return
    _jobs = (jobs, rep)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n) as pool:
        out = pool.map(_work, range(len(jobs)), 1)
    for kind, val in out:
        if kind not in ("broken", "crash"):
            rep.absorb(val)
    for kind, val in out:
        if kind == "broken":
            raise AnalysisBroken(val)
        if kind == "crash":
            raise AnalysisBroken("analysis job crashed\n" + val)
