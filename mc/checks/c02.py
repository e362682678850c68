"""C02: clusters under every history of growing, combining, querying and resetting."""
import collections
import copy
import itertools

import numpy as np

from diffpy.srmise.dataclusters import DataClusters
from mc.checks.c01 import GRIDS, Ref, check_step, clusters_of, weak_orders
from mc.harness import Check, Scenario, ensure


def groups_of(dc):
    """find_adjacent_clusters() as a list of lists of ints."""
    return [[int(i) for i in g] for g in dc.find_adjacent_clusters()]


def ref_groups(clusters):
    out, k = [], 0
    while k < len(clusters):
        j = k
        while j + 1 < len(clusters) and clusters[j + 1][0] - clusters[j][1] == 1:
            j += 1
        if j > k:
            out.append(list(range(k, j + 1)))
        k = j + 1
    return out


def ref_combine(clusters, combine):
    """New cluster list, or None if the request is invalid."""
    flat = [i for c in combine for i in c]
    if len(flat) != len(set(flat)):
        return None
    for c in combine:
        for a, b in zip(c[:-1], c[1:]):
            if b - a != 1 or clusters[b][0] - clusters[a][1] != 1:
                return None
    drop = {i for c in combine for i in c[1:]}
    new = list(clusters)
    for c in combine:
        new[c[0]] = (clusters[c[0]][0], clusters[c[-1]][1])
    return [c for i, c in enumerate(new) if i not in drop]


def ref_nearest(x, clusters, i):
    """All acceptable (index, signed distance) for the cluster nearest to point i."""
    d = []
    for k, (a, b) in enumerate(clusters):
        if a <= i <= b:
            return [(k, 0.0)]
        d.append((k, x[i] - x[b] if i > b else x[i] - x[a]))
    m = min(abs(v) for k, v in d)
    return [(k, v) for k, v in d if abs(v) == m]


def check_queries(dc, x, y, where):
    cl = clusters_of(dc)
    n = len(x)
    before = copy.deepcopy(vars(dc))
    for i in range(n):
        got = dc.find_nearest_cluster(i)
        got = (int(got[0]), float(got[1]))
        ensure(got in ref_nearest(x, cl, i), "nearest cluster to point %s: %s", i, got, where=where)
    # by coordinate: the answer for a data point nearest to the coordinate
    probes = [x[0] - 10.0, x[0] - 0.1, x[-1] + 0.1, x[-1] + 10.0] + list(x)
    for a, b in zip(x[:-1], x[1:]):
        probes += [a + 0.25 * (b - a), 0.5 * (a + b), a + 0.75 * (b - a)]
    for v in probes:
        m = min(abs(v - xi) for xi in x)
        ok = [r for i in range(n) if abs(v - x[i]) == m for r in ref_nearest(x, cl, i)]
        got = dc.find_nearest_cluster2(v)
        got = (int(got[0]), float(got[1]))
        ensure(got in ok, "nearest cluster to coordinate %s: %s, expected %s", v, got, ok, where=where)
    for k, (a, b) in enumerate(cl):
        lo = cl[k - 1][1] + 1 if k else 0
        hi = cl[k + 1][0] - 1 if k + 1 < len(cl) else n - 1
        ensure(bool(dc.cluster_is_full(k)) == ((a, b) == (lo, hi)), "fullness of cluster %s", k, where=where)
        s = dc.cut(k)
        ensure(list(range(n))[s] == list(range(a, b + 1)), "cut of cluster %s is %s", k, s, where=where)
    if len(cl) >= 2:
        for ids in ([0, 1], [len(cl) - 1, 0], list(range(len(cl)))):
            got = [list(range(n))[s] for s in dc.cut(ids)]
            ensure(got == [list(range(cl[k][0], cl[k][1] + 1)) for k in ids], "cut of clusters %s", ids, where=where)
        got = [list(range(n))[s] for s in dc.cut(slice(0, 2))]
        ensure(got == [list(range(cl[k][0], cl[k][1] + 1)) for k in (0, 1)], "cut of a slice", where=where)
    ensure(groups_of(dc) == ref_groups(cl), "adjacent clusters %s of %s", groups_of(dc), cl, where=where)
    # boundaries: halfway between the neighbouring points, or the edge point itself
    exp = set()
    for a, b in cl:
        lo = (a - 1, a) if a > 0 else (a, a)
        hi = (b, b + 1) if b + 1 < n else (b, b)
        for p, q in (lo, hi):
            exp.add((0.5 * (x[p] + x[q]), 0.5 * (y[p] + y[q])))
    got = np.asarray(dc.cluster_boundaries(), dtype=float).reshape(-1, 2)
    ensure(len(got) == len(exp), "%s boundaries instead of %s", len(got), len(exp), where=where)
    ensure(np.allclose(sorted(map(tuple, got)), sorted(exp)), "boundaries %s", got.tolist(), where=where)
    for k, v in vars(dc).items():
        ensure(np.array_equal(v, before[k]), "a query changed %s", k, where=where)


OPS_INVALID = ([[0, 2]], [[1, 0]], [[0, 1], [1, 2]], [[0, 1, 3]], [[2, 1, 0]], [[0, 1], [3, 2]], [[0, 0]])


def build(x, y, res, hist):
    """Fresh object with the history applied; the reference follows."""
    dc = DataClusters(np.array(x), np.array(y), res)
    ref = Ref(x, y, res)
    ref.clusters = clusters_of(dc)
    done = False
    for k, op in enumerate(hist):
        where = hist[: k + 1]
        if op == "step":
            free = ref.unclustered()
            try:
                next(dc)
            except StopIteration:
                ensure(not free, "stopped with points %s left", free, where=where)
                ensure(clusters_of(dc) == ref.clusters, "stopping changed the clusters", where=where)
            else:
                ensure(not done, "went on after the end", where=where)
                check_step(ref, dc, where)
        elif op == "rest":
            dc.makeclusters()
            ensure(
                sorted(i for a, b in clusters_of(dc) for i in range(a, b + 1)) == list(range(len(x))),
                "clusters do not partition the data",
                where=where,
            )
            ref.clusters = clusters_of(dc)
        elif op == "all":  # combine everything adjacent at once
            g = ref_groups(ref.clusters)
            dc.combine_clusters(dc.find_adjacent_clusters())
            ref.clusters = ref_combine(ref.clusters, g)
        elif op == "reset":
            dc.reset_clusters()
            fresh = DataClusters(np.array(x), np.array(y), res)
            ensure(dc == fresh and fresh == dc, "a reset object differs from a new one", where=where)
            ref.clusters = clusters_of(fresh)
        else:  # combine a given list
            exp = ref_combine(ref.clusters, op) if max(i for c in op for i in c) < len(ref.clusters) else "skip"
            if exp == "skip":
                continue
            try:
                dc.combine_clusters(op)
            except ValueError:
                ensure(exp is None, "valid combination %s refused", op, where=where)
            else:
                ensure(exp is not None, "invalid combination %s accepted", op, where=where)
                ref.clusters = exp
        ensure(clusters_of(dc) == ref.clusters, "clusters %s, expected %s", clusters_of(dc), ref.clusters, where=where)
        flat = [v for c in ref.clusters for v in c]
        ensure(flat == sorted(flat), "clusters out of order", where=where)
    return dc, ref


def canon(dc, ref):
    return (tuple(ref.clusters), int(dc.status), int(dc.current_idx), int(dc.lastpoint_idx))


def run_histories(case, cov):
    x = GRIDS[case["x"]][: len(case["y"])]
    y = [1.5 * h - 2.0 for h in case["y"]]
    res, depth = case["res"], case["depth"]
    name = (case["x"], res, tuple(case["y"]))
    dc, ref = build(x, y, res, [])
    check_queries(dc, x, y, [])
    seen = {canon(dc, ref)}
    frontier = collections.deque([[]])
    twins = {}
    while frontier:
        hist = frontier.popleft()
        dc, ref = build(x, y, res, hist)
        menu = ["step", "rest", "all", "reset"]
        menu += [[g] for g in ref_groups(ref.clusters)]
        menu += [[g[:2]] for g in ref_groups(ref.clusters) if len(g) > 2]
        menu += [c for c in OPS_INVALID if max(i for s in c for i in s) < len(ref.clusters)]
        for op in menu:
            h = hist + [op]
            nxt, nref = build(x, y, res, h)
            cov.transition()
            cov.trace()
            k = canon(nxt, nref)
            if k in seen:
                continue
            seen.add(k)
            cov.state((name, k))
            check_queries(nxt, x, y, h)
            same = build(x, y, res, h)[0]
            ensure(same == nxt and not (same == dc and k != canon(dc, ref)), "equality of equal histories", where=h)
            if len(h) < depth:
                frontier.append(h)
    return (name, len(seen), tuple(sorted(seen)))


def history_cases(tier):
    for n in range(1, 5):
        for h in weak_orders(n) if n < 4 else itertools.permutations(range(n)):
            for g in GRIDS:
                for res in (0.0, 0.5, 1.0, 2.0):
                    yield {"y": list(h), "x": g, "res": res, "depth": 9}
    for h in itertools.permutations(range(5)):
        for g, res in (("uniform", 0.0), ("uniform", 1.0), ("uneven", 0.5), ("negative", 1.0)):
            yield {"y": list(h), "x": g, "res": res, "depth": 9}
    sixes = [[5, 0, 4, 1, 3, 2], [0, 5, 1, 4, 2, 3], [5, 4, 0, 3, 2, 1], [1, 2, 0, 5, 3, 4], [3, 5, 4, 0, 2, 1]]
    if tier != "quick":
        sixes = itertools.permutations(range(6))
    for h in sixes:
        for g in GRIDS:
            for res in (0.0, 0.5, 1.0):
                yield {"y": list(h), "x": g, "res": res, "depth": 12}
    for h in [[0, 7, 1, 6, 2, 5, 3, 4], [7, 6, 0, 5, 4, 1, 3, 2], [7, 5, 6, 0, 1, 4, 2, 3]]:
        for g in GRIDS:
            yield {"y": h, "x": g, "res": 0.0, "depth": 14}


def run_equality(case, cov):
    """Objects in different states or with different data are not equal."""
    x, y = GRIDS["uniform"][:4], [3.0, 1.0, 2.0, 0.0]
    objs = []
    for res in (0.0, 1.0):
        for k in range(4):
            dc = DataClusters(np.array(x), np.array(y), res)
            for _ in range(k):
                next(dc)
            objs.append(((res, k), dc))
    objs.append(("x", DataClusters(np.array(x) + 1, np.array(y), 0.0)))
    objs.append(("y", DataClusters(np.array(x), np.array(y) + 1, 0.0)))
    objs.append(("n", DataClusters(np.array(x[:3]), np.array(y[:3]), 0.0)))
    for (na, a), (nb, b) in itertools.product(objs, objs):
        ensure((a == b) == (na == nb), "equality of %s and %s", na, nb)
        cov.transition()
    for other in (None, 1, "x", [1], object()):
        ensure(not (objs[0][1] == other), "equal to %r", other)
    return len(objs)


def run_plots(case, cov):
    """Drawing and animating show the boundaries and leave the state alone."""
    import matplotlib.pyplot as plt

    x = GRIDS["uniform"][: len(case["y"])]
    y = [float(h) for h in case["y"]]
    dc = DataClusters(np.array(x), np.array(y), case["res"])
    for _ in range(case["steps"]):
        next(dc)
    before = copy.deepcopy(vars(dc))
    dc.plot()
    plt.close("all")
    dc.animate()
    plt.close("all")
    for k, v in vars(dc).items():
        ensure(np.array_equal(v, before[k]), "plotting changed %s", k)
    return repr(case)


def plot_cases(tier):
    for steps in (0, 2, 3):
        for res in (0.0, 1.0):
            yield {"y": [3, 0, 2, 1], "res": res, "steps": steps}


CHECK = Check(
    "C02",
    "model_checking",
    [
        Scenario("equality", lambda tier: [{}], run_equality),
        Scenario("plots", plot_cases, run_plots),
        Scenario(
            "histories",
            history_cases,
            run_histories,
            doc="breadth-first over every history of step / cluster the rest / combine all / combine one group / "
            "combine a part / invalid combination / reset, to a fixed point or depth 9..14; all queries in every state",
        ),
    ],
    rule="one case per (heights, grid, resolution), a breadth-first search of all operation histories in it; "
    "distinct by the set of reachable states",
    assumptions=["x values strictly increasing"],
)
