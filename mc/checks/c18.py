"""C18: traces and logs record what happened, at every level."""
import itertools
import logging
import os
import pickle
import tempfile

import numpy as np

from diffpy.srmise import srmiselog
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.srmiseerrors import SrMiseLogError
from mc.harness import Check, Scenario, ensure
from mc.models import make

R = 1.0 + 0.1 * np.arange(40)


# ------------------------------------------------------------------ traces
def clusters():
    f, b = make("gor:0.7"), make("poly:1")
    y = np.sin(3 * R) + 1.2
    out = []
    for s, ps in ((slice(0, 14), [[1.6, 0.1, 1.0]]), (slice(14, 40), [[3.0, 0.2, 0.5], [4.1, -0.2, 2.0]])):
        out.append(ModelCluster(Peaks([Peak(f, p) for p in ps]), Baseline(b, [0.1, 0.2]), R, y, 0.2 + 0 * R, s, AIC, [f]))
    return out


def look(mc):
    return ([p.pars.tolist() for p in mc.model], mc.baseline.pars.tolist(), list(mc.slice.indices(len(mc.r_data)))[:2],
            mc.y_data.tolist())


def summary(tr):
    return (tr["counter"], tr["recursion"], [tuple(s.indices(len(R))[:2]) for s in tr["clusters"]], look(tr["mc"]))


FILTERS = {"all": ["True"], "none": ["False"], "default": None, "both": ["True", "False"],
           "even": ["self.counter % 2 == 0"], "deep": ["True", "self.recursion > 0"],
           "mixed": ["self.counter > 0 or self.recursion > 0", "self.counter < 2"]}


def passes(f, counter, recursion):
    return {"all": True, "none": False, "default": False, "both": False,
            "deep": recursion > 0, "mixed": (counter > 0 or recursion > 0) and counter < 2}.get(f, True)


OPS = ["pushc", "popc", "pushr", "popr", "reset", "emit1", "emit2", "emit3"]
EMIT = {"emit1": [0], "emit2": [0, 1], "emit3": [1, 0]}


def run_machine(case, cov):
    cl = clusters()
    before = [look(c) for c in cl]
    for ops in itertools.product(OPS, repeat=case["depth"]):
        ops = case["head"] + list(ops)
        with tempfile.TemporaryDirectory() as d:
            kw = {"store": case["store"]}
            if FILTERS[case["filter"]] is not None:
                kw["filter"] = FILTERS[case["filter"]]
            if case["file"]:
                kw["filebase"] = os.path.join(d, "new", "sub", "t")
            tr = srmiselog.settracer(**kw)
            ensure(srmiselog.tracer is tr, "settracer does not set the tracer")
            call = rec = count = 0
            want, files = [], {}
            done = []
            for op in ops:
                done.append(op)
                if (op == "popc" and call == 0) or (op == "popr" and rec == 0):
                    break
                if op == "pushc":
                    if call == 0:
                        rec = count = 0
                        want = []
                    call += 1
                    ensure(tr.pushc() == call, "wrong level", where=done)
                elif op == "popc":
                    call -= 1
                    ensure(tr.popc() == call, "wrong level", where=done)
                elif op == "pushr":
                    rec += 1
                    ensure(tr.pushr() == rec, "wrong recursion", where=done)
                elif op == "popr":
                    rec -= 1
                    ensure(tr.popr() == rec, "wrong recursion", where=done)
                elif op == "reset":
                    call = rec = count = 0
                    want = []
                    tr.reset_trace()
                else:
                    order = EMIT[op]
                    on = passes(case["filter"], count, rec)
                    if case["filter"] == "even":
                        on = count % 2 == 0
                    tr.emit(*[cl[i] for i in order])
                    if on:
                        s = (count, rec, [[(0, 14), (14, 40)][i] for i in order],
                             (sum((before[i][0] for i in sorted(order)), []), before[order[0]][1], [0, 40], before[0][3]))
                        if case["store"]:
                            want.append(s)
                        if case["file"]:
                            files["t_%d" % count] = s
                        count += 1
                ensure((tr.call, tr.recursion, tr.counter) == (call, rec, count),
                       "levels are %s, expected %s", (tr.call, tr.recursion, tr.counter), (call, rec, count), where=done)
                ensure([summary(t) for t in tr.trace] == want, "stored traces differ", where=done)
                ensure([look(c) for c in cl] == before, "tracing changed the clusters", where=done)
                cov.transition()
            cov.state((call, rec, count, len(want)))
            if want:
                # what was stored is independent of the clusters, and written under its own number
                for c in cl:
                    for m in list(c.model) + [c.baseline]:
                        m.pars[:] = m.pars + 1.0
                        m.free[:] = ~m.free
                ensure([summary(t) for t in tr.trace] == want, "stored traces change with the clusters", where=done)
                for c, b in zip(cl, before):
                    for m, old in zip(list(c.model) + [c.baseline], b[0] + [b[1]]):
                        m.pars[:] = old
                        m.free[:] = ~m.free
                tr.filebase = os.path.join(d, "late")
                for t in tr.trace:
                    tr.write(t)
                have = set(os.listdir(d))
                ensure(have == {"late_%d" % t[0] for t in want}, "files %s of the traces %s", sorted(have), [t[0] for t in want], where=done)
                for t in want:
                    ensure(summary(tr.read(os.path.join(d, "late_%d" % t[0]))) == t, "trace %s is read otherwise", t[0], where=done)
            if case["file"]:
                have = set(os.listdir(os.path.join(d, "new", "sub")))
                ensure(have == set(files), "files %s, expected %s", sorted(have), sorted(files), where=done)
                for n, s in files.items():
                    ensure(summary(tr.read(os.path.join(d, "new", "sub", n))) == s, "trace %s is read otherwise", n, where=done)
                    cov.trace()
    srmiselog.settracer()
    return None


def cases_machine(tier):
    for f in FILTERS:
        for store, file in ((True, False), (False, True)):
            for h in itertools.product(OPS, repeat=1 if file else 2):
                yield {"filter": f, "store": store, "file": file, "head": list(h),
                       "depth": (2 if file else 3) + (tier != "quick")}


# ----------------------------------------------------- extraction and faults
class Stop(BaseException):
    pass


def extraction(kind, alias):
    x = 1.0 + 0.1 * np.arange(40)
    f = make("gor:0.7")
    y = sum(f.actualize(p, "pwa").value(x) for p in ([2.2, 0.3, 5.0], [2.9, 0.35, 4.0], [4.0, 0.3, 3.0])[:alias])
    pe = PDFPeakExtraction() if kind == "pdf" else PeakExtraction()
    pe.setdata(x, y)
    kw = {"qmax": 25.0} if kind == "pdf" else {}
    pe.setvars(quiet=True, pf=[f], effective_dy=0.1, cres=0.2, **kw)
    return pe, (pe.extract if kind == "pdf" else pe.extract_single)


def run_extract(case, cov):
    logging.disable(logging.CRITICAL)
    srmiselog.settracer()
    pe, go = extraction(case["kind"], case["peaks"])
    go()
    want = look(pe.extracted)
    calls = [0, None]
    real = ModelParts.fit

    def fit(self, *a, **k):
        calls[0] += 1
        if calls[0] == calls[1]:
            raise Stop()
        return real(self, *a, **k)

    ModelParts.fit = fit
    try:
        tr = srmiselog.settracer(filter=["True"], store=True)
        pe, go = extraction(case["kind"], case["peaks"])
        go()
        total = calls[0]
        ensure(look(pe.extracted) == want, "tracing changes the result")

        def check(where):
            ensure((tr.call, tr.recursion) == (0, 0), "levels %s, %s after extraction", tr.call, tr.recursion, where=where)

        check(None)
        counters = [t["counter"] for t in tr.trace]
        ensure(counters == list(range(len(counters))) and tr.counter == len(counters) > 1, "traces are not counted through")
        ensure(all(t["recursion"] >= (0 if case["kind"] == "pdf" else 1) for t in tr.trace), "recursion level missing")
        length = len(counters)
        last = tr.trace[-1]["mc"]
        if case["kind"] == "pdf":
            ensure(look(last)[0] == want[0], "the last trace is not the result")
        for t in tr.trace:
            back = tr.readstr(tr.writestr(t))
            n = len(t["mc"].r_data)
            ensure((back["counter"], back["recursion"]) == (t["counter"], t["recursion"])
                   and [s.indices(n) for s in back["clusters"]] == [s.indices(n) for s in t["clusters"]]
                   and look(back["mc"]) == look(t["mc"]), "a trace is read otherwise")
            cov.trace()
        # extraction interrupted at every fit
        step = max(1, total // case["stops"])
        for k in range(1, total + 1, step):
            calls[0], calls[1] = 0, k
            pe, go = extraction(case["kind"], case["peaks"])
            try:
                go()
            except Stop:
                check(k)
            else:
                ensure(False, "extraction is not deterministic", where=k)
            calls[1] = None
            pe, go = extraction(case["kind"], case["peaks"])
            go()
            check(k)
            ensure(len(tr.trace) == length, "traces of an interrupted extraction remain (%d, %d)", len(tr.trace), length, where=k)
            ensure(look(pe.extracted) == want, "another result after an interrupted extraction", where=k)
            cov.transition()
    finally:
        ModelParts.fit = real
        srmiselog.settracer()
    cov.outcome((case, total, length))
    return None


def cases_extract(tier):
    for kind in ("base", "pdf"):
        for n in (1, 2, 3):
            yield {"kind": kind, "peaks": n, "stops": 4 if tier == "quick" else 25}


# ----------------------------------------------------------------- logging
LV = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


def log_ops():
    out = [["term", v] for v in ("debug", "warning", "critical", 20, 15)]
    out += [["add", v] for v in (10, 20, 40)] + [["level", v] for v in ("debug", "info", "error", 35)]
    return out


def child(ops, d):
    """Apply the operations and log at every level after each; run in a process of its own."""
    logging.disable(logging.NOTSET)
    srmiselog.setlevel("info")
    log = logging.getLogger("diffpy.srmise")
    term, files = 20, []
    expect = {"term": []}
    bad = None
    n = 0
    for i, (op, v) in enumerate(ops):
        lv = LV.get(v, v)
        if op == "term":
            srmiselog.setlevel(v)
            term = lv
        elif op == "add":
            srmiselog.addfilelog(os.path.join(d, "f%d" % len(files)), v)
            expect["f%d" % len(files)] = []
            files.append(lv)
        else:
            try:
                srmiselog.setfilelevel(v)
            except SrMiseLogError:
                if files:
                    bad = "level of the log file refused"
            else:
                if not files:
                    bad = "level of a missing log file accepted"
                else:
                    files[-1] = lv
        for m in (5, 10, 15, 20, 30, 35, 40, 50):
            n += 1
            msg = "message %d at %d" % (n, m)
            log.log(m, msg)
            if m >= term:
                expect["term"].append(msg)
            for k, l in enumerate(files):
                if m >= l:
                    expect["f%d" % k].append(msg)
    return expect, bad


def run_log(case, cov):
    for ops in itertools.product(log_ops(), repeat=case["depth"]):
        ops = case["head"] + list(ops)
        with tempfile.TemporaryDirectory() as d:
            pid = os.fork()
            if pid == 0:
                try:
                    fd = os.open(os.path.join(d, "term"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    res = child(ops, d)
                except BaseException as e:
                    res = ({}, "%s: %s" % (type(e).__name__, e))
                with open(os.path.join(d, "result"), "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.waitpid(pid, 0)
            expect, bad = pickle.load(open(os.path.join(d, "result"), "rb"))
            ensure(bad is None, "%s", bad, where=ops)
            for k, msgs in expect.items():
                got = open(os.path.join(d, k)).read().splitlines()
                ensure(got == msgs, "%s holds %d messages, expected %d: %s", k, len(got), len(msgs),
                       sorted(set(got) ^ set(msgs))[:3], where=ops)
            cov.transition(len(ops))
    return None


def cases_log(tier):
    for o in log_ops():
        yield {"head": [o], "depth": 1}
        yield {"head": [o], "depth": 0}
        for p in log_ops():
            yield {"head": [o, p], "depth": 1 if tier == "quick" else 2}


CHECK = Check(
    "C18",
    "model_checking",
    [
        Scenario("levels", cases_machine, run_machine, timeout=600,
                 doc="every history of entering, leaving, resetting and emitting to the bound x filters x store and file"),
        Scenario("extraction", cases_extract, run_extract, timeout=600, doc="traced extractions, interrupted at fits"),
        Scenario("logging", cases_log, run_log, timeout=600, doc="every history of levels and files to the bound"),
    ],
    rule="explicit-state search of histories of the real tracer and logger against reference models; faults at fits",
)
