"""C03: the vector of free parameters through every history of changes to a model."""
import collections
import itertools

import numpy as np

from diffpy.srmise.srmiseerrors import SrMiseStaticOwnerError
from mc.harness import Check, Scenario, ensure
from mc.models import ModelParts, Peaks, is_peak, make, part_class

START = {
    "gauss:0.7": [2.0, 0.3, 5.0],
    "gor:0.7": [3.0, -0.4, 4.0],
    "poly:1": [-0.5, 0.25],
    "poly:0": [0.75],
    "poly:-1": [],
    "nano": [0.5, 3.0],
    "seq": [],
    "arb": [1.0, 0.5, 0.1],
}
KEYS = {
    "gauss:0.7": ["position", "width", "area"],
    "gor:0.7": ["position", "width", "area"],
    "poly:1": ["a_1", "a_0"],
    "poly:0": ["a_0"],
    "nano": ["scale", "radius"],
    "arb": ["a_0", "a_1", "a_2"],
}
R = np.array([1.0, 1.4, 2.0, 2.75, 3.2, 4.1, 5.5])
Y = np.array([0.5, 1.0, -2.0, 3.0, 1.0, 0.25, 0.0])
E = np.array([1.0, 0.5, 2.0, 1.0, 0.25, 1.0, 4.0])


def fresh(names, cls):
    owners = [make(n) for n in names]
    m = cls([part_class(n)(o, START[n]) for n, o in zip(names, owners)])
    ref = [[n, list(START[n]), [True] * len(START[n])] for n in names]
    return m, ref, owners


def free_of(ref):
    return [(i, k) for i, (n, p, f) in enumerate(ref) for k in range(len(p)) if f[k]]


def compare(m, ref, where):
    ensure(len(m) == len(ref), "number of parts", where=where)
    for p, (n, pars, free) in zip(m, ref):
        ensure(p.pars.dtype.kind == "f", "parameters are no longer floats", where=where)
        ensure(list(p.pars) == pars, "parameters %s instead of %s", list(p.pars), pars, where=where)
        ensure([bool(f) for f in p.free] == free, "free %s instead of %s", list(p.free), free, where=where)
        ensure(len(p) == len(pars) == p.npars(), "number of parameters", where=where)
        ensure(p.npars(count_fixed=False) == sum(free), "number of free parameters", where=where)
        ensure(list(p.compress()) == [v for v, f in zip(pars, free) if f], "free parameters of a part", where=where)
        for k, key in enumerate(KEYS.get(n, ())):
            ensure(p[key] == pars[k] == p[k], "parameter by name %s", key, where=where)
            ensure(bool(p.getfree(key)) == free[k] == bool(p.getfree(k)), "free by name %s", key, where=where)
    total = sum(len(pars) for n, pars, f in ref)
    ensure(m.npars() == total, "total number of parameters %s", m.npars(), where=where)
    exp = [ref[i][1][k] for i, k in free_of(ref)]
    ensure(m.npars(count_fixed=False) == len(exp), "total number of free parameters", where=where)
    got = m.unpack_freepars()
    ensure(list(got) == exp, "vector of free parameters %s instead of %s", list(got), exp, where=where)


def vector(n, which):
    if which == "a":
        return np.array([1.5 + 0.25 * k for k in range(n)])
    if which == "b":
        return [2 + k for k in range(n)]  # list of ints
    return np.arange(1, n + 1) * -1  # array of ints


def apply(m, ref, owners, op, where):
    kind = op[0]
    if kind == "free":
        _, i, k, val, bykey = op
        m[i].setfree(KEYS[ref[i][0]][k] if bykey else k, val)
        ref[i][2][k] = val
    elif kind == "pack":
        fp = free_of(ref)
        v = vector(len(fp), op[1])
        m.pack_freepars(v)
        for (i, k), x in zip(fp, v):
            ref[i][1][k] = float(x)
        # the caller's vector stays the caller's
        if isinstance(v, np.ndarray) and len(v):
            v += 100
    elif kind == "update":
        i = op[1]
        n = sum(ref[i][2])
        extra = list(vector(n + 2, "a"))
        used = m[i].update(extra)
        ensure(used == n, "update reports %s instead of %s", used, n, where=where)
        j = 0
        for k, f in enumerate(ref[i][2]):
            if f:
                ref[i][1][k] = extra[j]
                j += 1
    elif kind == "nan":
        n = len(free_of(ref))
        v = np.array([1.0] * n)
        v[op[1] % n] = np.nan
        try:
            m.pack_freepars(v)
        except ValueError:
            pass
        else:
            ensure(False, "parameters that are not numbers were accepted", where=where)
    elif kind == "copy":
        c = m.copy()
        ensure(type(c) is type(m) and len(c) == len(m), "type of the copy", where=where)
        for p, q in zip(m, c):
            ensure(p == q and not (p != q) and p is not q, "copy differs", where=where)
            ensure(p.owner() is q.owner(), "copy has another function", where=where)
            ensure(p.removable == q.removable and p.static_owner == q.static_owner, "flags of the copy", where=where)
            if len(p):
                p.pars[0] += 50.0
                p.free[0] = not p.free[0]
                ensure(p != q, "the copy follows the original", where=where)
                p.removable = not p.removable
        m[:] = c
    elif kind == "slice":
        a, b = op[1], op[2]
        s = m[a:b]
        ensure(type(s) is type(m), "type of a slice", where=where)
        ensure(all(x is y for x, y in zip(s, list(m)[a:b])) and len(s) == len(list(m)[a:b]), "parts of a slice", where=where)
    elif kind == "del":
        del m[op[1]]
        del ref[op[1]]
        del owners[op[1]]
    elif kind == "residual":
        fp = free_of(ref)
        v = vector(len(fp), "a") if fp else np.array([])
        if fp:
            res = m.residual(v, R, Y, E)
            for (i, k), x in zip(fp, v):
                ref[i][1][k] = float(x)
            compare(m, ref, where)
            total = sum((p.value(R) for p in m), 0 * R)
            ensure(np.allclose(res, (Y - total) / E, rtol=1e-12, atol=1e-12), "residual", where=where)
            jac = m.residual_jacobian(v, R, Y, E)
            ensure(jac.shape == (len(fp), len(R)), "shape of the Jacobian %s", jac.shape, where=where)
            compare(m, ref, where)
            for j in range(len(fp)):
                h = 1e-6
                up, dn = v.copy(), v.copy()
                up[j] += h
                dn[j] -= h
                num = (m.residual(up, R, Y, E) - m.residual(dn, R, Y, E)) / (2 * h)
                ensure(
                    np.allclose(jac[j], num, rtol=1e-5, atol=1e-6 * (1 + np.abs(num).max()) + 1e-8 * np.abs(res).max()),
                    "derivative of the residual by free parameter %s", j, where=where,
                )
            m.pack_freepars(v)
    elif kind == "string":
        for p, (n, pars, free) in zip(m, ref):
            q = part_class(n).factory(p.writestr(owners), owners)
            ensure(q == p and q.static_owner == p.static_owner and q.owner() is p.owner(), "part read back differs", where=where)


def ops_for(ref):
    for i, (n, p, f) in enumerate(ref):
        for k in range(len(p)):
            yield ["free", i, k, not f[k], (i + k) % 2 == 0]
    for w in "abc":
        yield ["pack", w]
    for i in range(len(ref)):
        yield ["update", i]
    n = len(free_of(ref))
    for k in sorted({0, n - 1}) if n else ():
        yield ["nan", k]
    yield ["copy"]
    if len(ref) >= 2:
        yield ["slice", 1, None]
        yield ["slice", 0, 1]
        yield ["slice", -1, None]
    yield ["residual"]
    yield ["string"]
    for i in range(len(ref)):
        yield ["del", i]


def canon(ref):
    return tuple((n, tuple(p), tuple(f)) for n, p, f in ref)


def run_history(case, cov):
    cls = Peaks if case["cls"] == "Peaks" else ModelParts
    seen = set()
    front = collections.deque([[]])
    first = True
    while front:
        hist = front.popleft()
        m, ref, owners = fresh(case["parts"], cls)
        if first:
            compare(m, ref, [])
            seen.add(canon(ref))
            first = False
        for op in hist:
            apply(m, ref, owners, op, hist)
        for op in ops_for(ref):
            m2, ref2, own2 = fresh(case["parts"], cls)
            for o in hist:
                apply(m2, ref2, own2, o, hist)
            w = hist + [op]
            apply(m2, ref2, own2, op, w)
            compare(m2, ref2, w)
            cov.transition()
            cov.trace()
            k = canon(ref2)
            if k not in seen:
                seen.add(k)
                cov.state((case["parts"], k))
                if len(w) < case["depth"]:
                    front.append(w)
    return len(seen)


def history_cases(tier):
    deep = 5 if tier == "thorough" else 4
    yield {"cls": "Peaks", "parts": [], "depth": 2}
    for n in START:
        yield {"cls": "ModelParts", "parts": [n], "depth": deep + 1 if len(START[n]) < 3 else deep}
    for a, b in itertools.product(START, START):
        yield {"cls": "Peaks" if is_peak(a) and is_peak(b) else "ModelParts", "parts": [a, b], "depth": deep - 1}
    for t in (["gor:0.7", "gauss:0.7", "gor:0.7"], ["gor:0.7", "poly:1", "seq"], ["seq", "nano", "gauss:0.7"]):
        yield {"cls": "Peaks" if all(map(is_peak, t)) else "ModelParts", "parts": t, "depth": deep - 1}


def run_owner(case, cov):
    a, b = case["a"], case["b"]
    oa, ob = make(a), make(b)
    p = part_class(a)(oa, START[a], None, True, case["static"])
    before = list(p.pars)
    try:
        p.changeowner(oa if case["same"] else ob)
    except SrMiseStaticOwnerError:
        out = "refused"
    else:
        out = "done"
    allowed = case["same"] or (not case["static"] and len(START[a]) == len(START[b]))
    ensure((out == "done") == allowed, "changing the function was %s", out)
    ensure(list(p.pars) == before, "changing the function changed the parameters")
    ensure(p.owner() is (ob if allowed and not case["same"] else oa), "wrong function after the change")
    # a part is only evaluated by its own function
    if p.owner() is not make:
        for f in (oa.value, oa.jacobian, ob.value, ob.jacobian):
            try:
                f(p, R)
                ensure(f.__self__ is p.owner(), "evaluated by a function it does not belong to")
            except ValueError:
                ensure(f.__self__ is not p.owner(), "not evaluated by its own function")
            except NotImplementedError:
                pass
    return out + repr(case)


def owner_cases(tier):
    for a, b in itertools.product(START, START):
        for static in (False, True):
            for same in (False, True):
                yield {"a": a, "b": b, "static": static, "same": same}


def run_make(case, cov):
    n = case["f"]
    o = make(n)
    npars = len(START[n])
    pars = [1.5] * case["np"]
    free = None if case["nf"] is None else [True] * case["nf"]
    ok = case["np"] == npars and case["nf"] in (None, npars)
    try:
        p = part_class(n)(o, pars, free)
    except ValueError:
        ensure(not ok, "a valid part was refused")
    else:
        ensure(ok, "a part with %s parameters and %s flags was accepted", case["np"], case["nf"])
        pars[:1] = [99.0][: len(pars)]
        ensure(all(v == 1.5 for v in p.pars), "the part follows the caller's list")
    return repr(case)


def make_cases(tier):
    for n in START:
        for a in range(5):
            for b in (None, 0, 1, 2, 3, 4):
                yield {"f": n, "np": a, "nf": b}


CHECK = Check(
    "C03",
    "model_checking",
    [
        Scenario("make", make_cases, run_make, doc="0..4 parameters and free flags for every function"),
        Scenario("owner", owner_cases, run_owner, doc="every pair of functions"),
        Scenario(
            "histories",
            history_cases,
            run_history,
            doc="breadth-first over freeing/fixing, packing, updating, invalid vectors, copying, slicing, deleting, "
            "evaluating residual and Jacobian, and writing/reading; models of 0..3 parts from 8 functions; "
            "depth 3..5 (thorough 4..6)",
        ),
    ],
    rule="one case per model, a breadth-first search of all operation histories in it",
)
