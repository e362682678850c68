"""Exhaustive bounded exploration of the real diffpy.srmise code.

A check is a list of scenarios.  A scenario enumerates *every* case of a finite,
explicitly bounded space (inputs, operation histories, environment answers) and
runs the real code on each one, comparing what it observes with a reference
model.  Nothing here samples.
"""
import hashlib
import itertools
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """The property does not hold; `where` narrows the case to a history/site."""

    def __init__(self, message, where=None):
        Exception.__init__(self, message)
        self.message = message
        self.where = where


class CaseTimeout(Exception):
    pass


def ensure(cond, message, *args, where=None):
    if not cond:
        raise Violation(message % args if args else message, where)


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Coverage:
    """What one run covered; merged across workers."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.states = set()
        self.nontrivial = set()
        self.per_scenario = {}

    def state(self, key):
        """Record a state reached; True if it was not seen before."""
        d = digest(key)
        new = d not in self.states
        self.states.add(d)
        return new

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key, trivial=False):
        d = digest(key)
        self.outcomes.add(d)
        if not trivial:
            self.nontrivial.add(d)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.transitions += other.transitions
        self.traces += other.traces
        self.outcomes |= other.outcomes
        self.states |= other.states
        self.nontrivial |= other.nontrivial
        for k, v in other.per_scenario.items():
            self.per_scenario[k] = self.per_scenario.get(k, 0) + v


class Scenario:
    """name; cases(tier) -> iterable of JSON-able cases; run(case, cov) -> outcome."""

    def __init__(self, name, cases, run, timeout=150, doc="", serial=False):
        self.name = name
        self.cases = cases
        self.run = run
        self.timeout = timeout
        self.doc = doc
        self.serial = serial


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check_id, scenario, case, cov):
    """Run one case; None or a violation record."""
    cov.evaluations += 1
    cov.per_scenario[scenario.name] = cov.per_scenario.get(scenario.name, 0) + 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, scenario.timeout)
    rec = None
    try:
        out = scenario.run(case, cov)
        cov.outcome((scenario.name, out) if out is not None else (scenario.name, repr(case)))
    except Violation as v:
        rec = {"what": v.message, "where": v.where}
    except CaseTimeout:
        rec = {"what": "no answer within %s s" % scenario.timeout, "where": None, "timeout": True}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the code under test failed where it must not
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/srmise/" in f.filename]
        site = "" if not last else " in %s" % (os.path.basename(last[-1].filename))
        rec = {
            "what": "unexpected %s%s: %s" % (type(e).__name__, site, str(e)[:300]),
            "where": None,
            "trace": traceback.format_exc()[-3000:],
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if rec is not None:
        rec["scenario"] = scenario.name
        rec["case"] = case
        rec["property"] = check_id
    return rec


def finding_key(rec):
    return "%s|%s|%s" % (
        rec["scenario"],
        json.dumps(rec["case"], sort_keys=True, default=str),
        json.dumps(rec.get("where"), sort_keys=True, default=str),
    )


def load_findings(check_id):
    """{key: description} of the recorded, unrepaired findings of a property."""
    found = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return found
    for line in open(path):
        line = line.strip()
        head = "known: property=%s key=" % check_id
        if line.startswith(head):
            key, _, what = line[len(head):].partition(" ## ")
            found[key.strip()] = what.strip()
    return found


def _worker(check, tier, idx, n, fd, maxbad):
    cov = Coverage()
    bad = []
    stop = False
    try:
        for sc in check.scenarios:
            if sc.serial and idx != 0:
                continue
            step = 1 if sc.serial else n
            off = 0 if sc.serial else idx
            for case in itertools.islice(sc.cases(tier), off, None, step):
                rec = run_case(check.id, sc, case, cov)
                if rec is not None:
                    bad.append(rec)
                    stop = len(bad) >= maxbad or rec.get("timeout")
                    if stop:
                        break
            if stop:
                break
        payload = ("ok", cov, bad)
    except BaseException:
        payload = ("error", traceback.format_exc(), bad)
    with os.fdopen(fd, "wb") as f:
        pickle.dump(payload, f)


class Check:
    def __init__(self, id, level, scenarios, rule, assumptions=(), workers=None):
        self.id = id
        self.level = level
        self.scenarios = scenarios
        self.rule = rule
        self.assumptions = list(assumptions)
        self.workers = workers

    def samples(self, tier, per=2):
        out = []
        for sc in self.scenarios:
            for case in itertools.islice(sc.cases(tier), 0, per):
                out.append({"scenario": sc.name, "case": case})
        return out[:12]

    def run(self, tier, seed, maxbad=25):
        t0 = time.time()
        n = self.workers or min(8, os.cpu_count() or 1)
        cov = Coverage()
        bad = []
        kids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    _worker(self, tier, i, n, w, maxbad)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        errors = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                errors.append("a worker died without a result")
                continue
            tag, c, b = pickle.loads(data)
            bad.extend(b)
            if tag == "ok":
                cov.merge(c)
            else:
                errors.append(c)
        return cov, bad, errors, time.time() - t0

    def report(self, tier, seed, cov, bad, wall):
        known = load_findings(self.id)
        real, seen = [], {}
        for rec in bad:
            k = finding_key(rec)
            if k in known:
                seen[k] = known[k]
            else:
                real.append(rec)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.id, seen[k]))
        coverage = {
            "evaluations": cov.evaluations,
            "distinct_nontrivial": len(cov.nontrivial),
            "rule": self.rule,
            "exhaustive": not real,
            "samples": self.samples(tier),
            "cases_per_scenario": cov.per_scenario,
            "bounds": {sc.name: sc.doc for sc in self.scenarios if sc.doc},
        }
        if self.level == "model_checking" or cov.transitions:
            coverage["states"] = len(cov.states)
            coverage["transitions"] = cov.transitions
            coverage["traces_validated_against_impl"] = cov.traces
        if seen:
            coverage["known_findings_met"] = sorted(seen.values())
        ev = {
            "property": self.id,
            "tier": tier,
            "seed": seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(real),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        rdir = os.path.join(VERIF, "evidence", "replays")
        if real:
            os.makedirs(rdir, exist_ok=True)
        real.sort(key=lambda r: len(json.dumps(r["case"], default=str)))
        for i, rec in enumerate(real[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (self.id, i))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
                f.write("\n")
            print("  %s: %s  case=%s where=%s" % (
                rec["scenario"], rec["what"], json.dumps(rec["case"], default=str)[:300], rec.get("where")))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        print("%s tier=%s cases=%d outcomes=%d states=%d transitions=%d wall=%.1fs violations=%d" % (
            self.id, tier, cov.evaluations, len(cov.outcomes), len(cov.states), cov.transitions, wall, len(real)))
        return 1 if real else 0


class Scratch:
    """A scratch directory that removes itself."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="srmise-mc-")
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
