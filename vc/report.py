"""Obligations, evidence, violations and known findings."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


def known_findings(prop):
    path = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


class Report:
    def __init__(self, prop, level="proof"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.obs = []            # dict(name, fn, status, backend, seconds, detail)
        self.violations = []
        self.assumptions = []
        self.trusted = []
        self.bounded = []        # stand-ins
        self.numeric = dict(evaluations=0, distinct=0, samples=[])
        self.findings_hit = set()
        self.known = known_findings(prop)
        self.functions = set()
        self.errors = []

    def ob(self, name, fn, status, backend, seconds=0.0, detail=None):
        """status: proved | refuted | undecided | bounded"""
        self.obs.append(dict(name=name, fn=fn, status=status, backend=backend,
                             seconds=round(seconds, 4), detail=detail))
        if fn:
            for f in fn.split(";"):
                self.functions.add(f.strip())

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *txt):
        for t in txt:
            if t not in self.trusted:
                self.trusted.append(t)

    def sample(self, s):
        if len(self.numeric["samples"]) < 8:
            self.numeric["samples"].append(s)

    def count(self, key):
        self.numeric["evaluations"] += 1
        self._keys = getattr(self, "_keys", set())
        self._keys.add(key)

    def finding(self, key, what, nan=False):
        """Is this failure a listed finding?  (a finding that yields NaN covers NaN only)"""
        for d in self.known:
            if d.get("status") == "known" and d.get("key") == key and (nan or not d.get("nan")):
                self.findings_hit.add(key)
                return True
        return False

    def violate(self, name, replay, noinput=False, key=None, nan=False):
        if key is not None and self.finding(key, name, nan):
            return
        self.violations.append(dict(name=name, replay=replay, noinput=noinput))

    def state(self):
        for o in self.obs:
            o["detail"] = None if o["detail"] is None else str(o["detail"])
        return dict(obs=self.obs, violations=self.violations, assumptions=self.assumptions,
                    trusted=self.trusted, evaluations=self.numeric["evaluations"],
                    samples=self.numeric["samples"], keys=getattr(self, "_keys", set()),
                    findings=self.findings_hit, functions=self.functions, errors=self.errors)

    def merge(self, s):
        self.obs += s["obs"]
        self.violations += s["violations"]
        self.assume(*s["assumptions"])
        self.trust(*s["trusted"])
        self.numeric["evaluations"] += s["evaluations"]
        self.numeric["samples"] = (self.numeric["samples"] + s["samples"])[:8]
        self._keys = getattr(self, "_keys", set()) | s["keys"]
        self.findings_hit |= s["findings"]
        self.functions |= s["functions"]
        self.errors += s["errors"]

    def finish(self):
        n = len(self.obs)
        st = {}
        for o in self.obs:
            st[o["status"]] = st.get(o["status"], 0) + 1
        proved = st.get("proved", 0)
        by = {}
        secs = {}
        for o in self.obs:
            if o["status"] == "proved":
                by[o["backend"]] = by.get(o["backend"], 0) + 1
                secs[o["backend"]] = round(secs.get(o["backend"], 0) + o["seconds"], 3)
        ev = dict(
            property=self.prop, tier=TIER, seed=SEED, level=self.level,
            coverage=dict(
                obligations=n, discharged=proved,
                checker_cmd=f"/opt/venv/bin/python /verif/run.py {self.prop}",
                trusted_base=self.trusted,
                undecided=[o["name"] for o in self.obs if o["status"] == "undecided"][:50],
                refuted=[o["name"] for o in self.obs if o["status"] == "refuted"][:50],
                bounded_stand_ins=[dict(name=o["name"], detail=o["detail"]) for o in self.obs
                                   if o["status"] == "bounded"][:100],
                bounded_count=st.get("bounded", 0),
                by_backend=by, solver_seconds=secs,
                functions_under_contract=sorted(self.functions),
                evaluations=self.numeric["evaluations"],
                distinct_nontrivial=len(getattr(self, "_keys", set())),
                rule="float64 replays of the contracts on the real functions; distinct by input point",
                samples=self.numeric["samples"] + [
                    dict(obligation=o["name"], function=o["fn"], status=o["status"],
                         backend=o["backend"], detail=o["detail"]) for o in self.obs[:6]],
                errors=self.errors[:20],
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        if proved == 0:
            ev["level"] = "other"
            ev["coverage"]["explanation"] = ("nothing was discharged on this tree: only the bounded "
                                             "float64 evaluations of the contracts held")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {n} obligations, {proved} discharged {by}, "
              f"{st.get('bounded', 0)} bounded, {st.get('undecided', 0)} undecided, "
              f"{self.numeric['evaluations']} float64 evaluations, {ev['wall_s']} s")
        for o in self.obs:
            if o["status"] in ("undecided", "refuted"):
                print(f"  {o['status']}: {o['name']}: {str(o['detail'])[:300]}")
        for e in self.errors[:5]:
            print("  note:", str(e)[:400])
        for d in self.known:
            if d.get("status") == "known" and d.get("key") in self.findings_hit:
                print(f"KNOWN-FINDING: property={self.prop} {d['what']}")
        if self.violations:
            os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
            for k, v in enumerate(self.violations[:10]):
                path = os.path.join(ROOT, "evidence", "replay", f"{self.prop}-{k}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, obligation=v["name"], **v["replay"]), f,
                              indent=1, default=str)
                tail = " no-failing-input-found" if v["noinput"] else ""
                print(f"  obligation {v['name']}")
                print(f"VIOLATION property={self.prop} replay={path}{tail}")
            sys.stdout.flush()
            return 1
        if proved == 0:
            print(f"{self.prop}: NO OBLIGATION WAS DISCHARGED; only the bounded evaluations above held")
            if not self.numeric["evaluations"]:
                return 3
        return 0
