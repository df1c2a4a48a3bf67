"""Check runner: collects obligations and violations, applies the committed
known-findings file, prints the verdict lines and writes the evidence."""
import json, os, sys, time, traceback
import facts
from facts import AnalysisError, VERIF
from prog import short

EVID = os.environ.get("VERIF_EVIDENCE", f"{VERIF}/evidence")


class Report:
    def __init__(self, pid, rule, explanation, level="other", assumptions=()):
        self.pid, self.rule, self.explanation, self.level = pid, rule, explanation, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.viol = []         # (key, where, message)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.obl = 0
        self.seen = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, sample=None):
        """One obligation discharged."""
        self.obl += 1
        self.counts["discharged"] = self.counts.get("discharged", 0) + 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, msg):
        """One obligation violated.  key identifies the instance independently of line numbers."""
        self.obl += 1
        if (key, where) in self.seen:
            return
        self.seen.add((key, where))
        self.viol.append((key, where, msg))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n):
        """Vacuity guard: fewer instances than confirmed by hand means the analysis is broken."""
        if self.counts.get(name, 0) < n:
            raise AnalysisError(f"only {self.counts.get(name, 0)} {name} found, at least {n} expected: the analysis no longer sees its subject")

    def finish(self):
        known = load_known(self.pid)
        new, kn = [], []
        for v in self.viol:
            (kn if v[0] in known else new).append(v)
        os.makedirs(EVID, exist_ok=True)
        for key, where, msg in kn:
            print(f"KNOWN-FINDING: property={self.pid} {where}: {msg}")
        cov = {"explanation": self.explanation, "rule": self.rule, "obligations": self.obl,
               "discharged": self.counts.get("discharged", 0), "samples": self.samples[:12] or ["none"]}
        for k, v in self.counts.items():
            if k != "discharged":
                cov[k] = v
        if kn:
            cov["known_findings"] = [k for k, _, _ in kn]
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(f"{EVID}/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = f"{EVID}/{self.pid}.violations.txt"
            with open(rp, "w") as f:
                f.write(f"property {self.pid}\nrule: {self.rule}\n\n")
                for key, where, msg in new:
                    f.write(f"{where}: {msg}\n    instance: {key}\n")
            for key, where, msg in new[:20]:
                print(f"{where}: {msg}  [instance {key}]")
            if len(new) > 20:
                print(f"... {len(new) - 20} more in {rp}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid}: held: {self.obl} obligations, {self.counts.get('discharged', 0)} discharged, " + ", ".join(f"{k}={v}" for k, v in self.counts.items() if k != "discharged"))
        return 0


def load_known(pid):
    out = set()
    p = f"{VERIF}/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={pid} "):
                key = l.split("key=", 1)[1].split(" :: ")[0].strip()
                out.add(key)
    return out


def main(pid, fn):
    try:
        rc = fn()
    except AnalysisError as e:
        print(f"{pid}: analysis error: {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(rc)
