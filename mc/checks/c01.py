"""C01: the clustering process against a reference model, step by step."""
import itertools

import numpy as np

from diffpy.srmise.dataclusters import DataClusters
from mc.harness import Check, Scenario, ensure

GRIDS = {
    "uniform": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0],
    "uneven": [0.0, 0.5, 2.0, 3.0, 3.5, 6.0, 7.5, 8.0],
    "negative": [-4.0, -3.0, -1.0, -0.5, 0.25, 0.75, 3.0, 3.25],
}
RES = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 100.0]


def weak_orders(n, levels=None):
    """Every assignment of heights to n points up to order (ties included)."""
    seen = set()
    for t in itertools.product(range(n if levels is None else levels), repeat=n):
        vals = sorted(set(t))
        canon = tuple(vals.index(v) for v in t)
        if canon not in seen:
            seen.add(canon)
            yield canon


def clusters_of(dc):
    return [tuple(int(v) for v in c) for c in np.asarray(dc.clusters).reshape(-1, 2)]


class Ref:
    """Reference model of clustering: index ranges grown from the highest points."""

    def __init__(self, x, y, res):
        self.x, self.y, self.res = x, y, res
        self.clusters = None

    def unclustered(self):
        return [i for i in range(len(self.x)) if not any(a <= i <= b for a, b in self.clusters)]

    def distance(self, c, i):
        a, b = c
        if i < a:
            return self.x[a] - self.x[i]
        return self.x[i] - self.x[b]

    def successors(self, i):
        """Possible cluster lists after clustering point i, with the index of its cluster."""
        dist = [self.distance(c, i) for c in self.clusters]
        dmin = min(dist)
        out = []
        if dmin <= self.res:
            for k, d in enumerate(dist):
                if d == dmin:
                    a, b = self.clusters[k]
                    new = list(self.clusters)
                    new[k] = (min(a, i), max(b, i))
                    out.append((new, k))
        else:
            new = sorted(self.clusters + [(i, i)])
            out.append((new, new.index((i, i))))
        return out


def check_step(ref, dc, where):
    """One step of dc must be a step the reference allows; advances ref."""
    free = ref.unclustered()
    ensure(free, "a point was clustered although none was left", where=where)
    i = int(dc.lastpoint_idx)
    ensure(i in free, "clustered point %s was already in a cluster", i, where=where)
    top = max(ref.y[j] for j in free)
    ensure(ref.y[i] == top, "clustered point %s is not the highest one left", i, where=where)
    got = clusters_of(dc)
    allowed = ref.successors(i)
    match = [k for c, k in allowed if c == got]
    ensure(match, "clusters %s after point %s; expected one of %s", got, i, [c for c, k in allowed], where=where)
    ensure(int(dc.lastcluster_idx) in match, "wrong index reported for the changed cluster", where=where)
    ref.clusters = got


def start(x, y, res):
    dc = DataClusters(np.array(x), np.array(y), res)
    ref = Ref(x, y, res)
    first = clusters_of(dc)
    ensure(len(first) == 1 and first[0][0] == first[0][1], "does not start from one point: %s", first)
    i = first[0][0]
    ensure(y[i] == max(y), "does not start from the highest point")
    ensure(int(dc.lastpoint_idx) == i, "first point not reported")
    ref.clusters = first
    return dc, ref


def run_process(case, cov):
    heights, grid, res = case["y"], case["x"], case["res"]
    n = len(heights)
    x = GRIDS[grid][:n]
    y = [1.5 * h - 2.0 for h in heights]
    dc, ref = start(x, y, res)
    hist = [clusters_of(dc)]
    steps = 0
    while True:
        cov.state((grid, res, tuple(heights), tuple(ref.clusters)))
        try:
            out = next(dc)
        except StopIteration:
            break
        ensure(out is dc, "a step does not return the object itself")
        steps += 1
        ensure(steps < n + 1, "more steps than points")
        check_step(ref, dc, steps)
        cov.transition()
        hist.append(clusters_of(dc))
    ensure(not ref.unclustered(), "clustering stopped with points %s left", ref.unclustered())
    for _ in range(2):
        try:
            next(dc)
        except StopIteration:
            pass
        else:
            ensure(False, "clustering continues after it has finished")
    ensure(clusters_of(dc) == hist[-1], "clusters changed after the end")
    ensure(list(dc.x) == x and list(dc.y) == y, "the data was changed")
    # Clustering everything at once, or the rest after k steps, gives the same result.
    for k in range(steps + 1):
        other = DataClusters(np.array(x), np.array(y), res)
        for _ in range(k):
            next(other)
        other.makeclusters()
        ensure(clusters_of(other) == hist[-1], "clustering the rest after %s steps differs", k)
        other.makeclusters()
        ensure(clusters_of(other) == hist[-1], "repeated clustering changes the result")
        cov.trace()
    # Separation: distinct clusters seeded farther apart than the resolution.
    if res == 0.0:
        ensure(len(hist[-1]) == n, "resolution 0 must make every point a cluster")
    if res >= x[-1] - x[0]:
        ensure(len(hist[-1]) == 1, "resolution beyond the extent of the data must give one cluster")
    return (grid, res, tuple(tuple(h) for h in hist))


def process_cases(tier):
    top = 6 if tier == "quick" else 7
    for n in range(1, top + 1):
        orders = weak_orders(n) if n <= 5 else itertools.permutations(range(n))
        for h in orders:
            for g in GRIDS:
                for res in RES:
                    yield {"y": list(h), "x": g, "res": res}


def run_inputs(case, cov):
    """Empty and invalid data."""
    kind = case["kind"]
    if kind == "empty":
        dc = DataClusters(np.array([]), np.array([]), case["res"])
        ensure(np.asarray(dc.clusters).size == 0, "clusters without data")
        for call in (lambda: next(dc), dc.makeclusters, lambda: dc.find_nearest_cluster(0)):
            try:
                call()
            except StopIteration:
                ensure(False, "clustering no data must be refused")
            except Exception:
                pass
            else:
                ensure(False, "clustering no data must be refused")
        dc.reset_clusters()
        ensure(np.asarray(dc.clusters).size == 0, "clusters without data after reset")
    elif kind == "length":
        try:
            DataClusters(np.zeros(case["nx"]), np.zeros(case["ny"]), 1.0)
        except ValueError:
            ensure(case["nx"] != case["ny"], "equal lengths refused")
        else:
            ensure(case["nx"] == case["ny"], "different lengths accepted")
    elif kind == "res":
        try:
            DataClusters(np.arange(3.0), np.arange(3.0), case["res"])
        except ValueError:
            ensure(case["res"] < 0, "resolution %s refused", case["res"])
        else:
            ensure(case["res"] >= 0, "negative resolution accepted")
    return repr(case)


def input_cases(tier):
    for res in (0.0, 1.0):
        yield {"kind": "empty", "res": res}
    for a in range(4):
        for b in range(4):
            yield {"kind": "length", "nx": a, "ny": b}
    for r in (-5.0, -1.0, -1e-9, 0.0, 1e-9, 1.0):
        yield {"kind": "res", "res": r}


CHECK = Check(
    "C01",
    "model_checking",
    [
        Scenario("inputs", input_cases, run_inputs, doc="empty data, lengths 0..3 x 0..3, signs of the resolution"),
        Scenario(
            "process",
            process_cases,
            run_process,
            doc="all orderings with ties of up to 5 heights and all permutations of 6 (thorough: 7), "
            "3 grids, 7 resolutions; every step of every run compared with the reference model",
        ),
    ],
    rule="one case per (ordering of the heights, grid, resolution); distinct by the whole sequence of cluster lists",
    assumptions=["x values strictly increasing, as in a PDF", "ties may be broken either way"],
)
