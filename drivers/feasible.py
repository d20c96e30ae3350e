"""Driver of the constraint-declaration property (spec/Feasible.tla)."""
import copy
from fractions import Fraction

import numpy as np

from vkit import call, mro, q, qm, qv
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper
from pyvallocation.utils.constraints import Constraints, build_G_h_A_b


def num(x):
    """Spec value (int, 'n/d', 'none') -> float or None."""
    if x == "none":
        return None
    if x in ("nan", "inf", "-inf"):
        return float(x)
    return float(Fraction(str(x)))


def to_kwargs(d, form, extra):
    """Spell declaration d as the library's keyword arguments."""
    n = d["n"]
    seq = (tuple, list)[form % 2]
    kw = {"long_only": d["long"], "total_weight": num(d["total"])}
    b = d["bounds"]
    if b["kind"] == "pair":
        kw["bounds"] = tuple(num(x) for x in b["e"][0])
    elif b["kind"] == "list":
        kw["bounds"] = [tuple(num(x) for x in e) for e in b["e"]]
        if form % 3 == 1:
            kw["bounds"] = [list(e) for e in kw["bounds"]]
        if form % 3 == 2:
            kw["bounds"] = iter(kw["bounds"]) if extra.get("iter") else kw["bounds"]
    elif b["kind"] == "map":
        kw["bounds"] = {e[0] - 1: seq(num(x) for x in e[1:]) for e in b["e"]}
    if d["rel"] or form % 5 == 0:
        kw["relative_bounds"] = [seq([e[0] - 1, e[1] - 1] + [num(x) for x in e[2:]]) for e in d["rel"]]
    if d["groups"] or form % 7 == 0:
        kw["group_constraints"] = {f"g{k}": ([m - 1 for m in g[0]] if form % 2 else np.array([m - 1 for m in g[0]], dtype=int),
                                             num(g[1]), num(g[2])) for k, g in enumerate(d["groups"])}
    for key, name in (("gh", "additional_G_h"), ("ab", "additional_A_b")):
        if d[key] or form % 5 == 1:
            kw[name] = [(np.array([num(x) for x in r[0]], dtype=float) if form % 2 else [num(x) for x in r[0]], num(r[1]))
                        for r in d[key]]
    kw.update(extra.get("kw", {}))
    return n, kw


def snap(kw):
    def f(x):
        if isinstance(x, np.ndarray):
            return ("nd", repr(x.tolist()))
        if isinstance(x, dict):
            return [(k, f(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [f(v) for v in x]
        return repr(x)

    return f({k: v for k, v in kw.items() if not hasattr(v, "__next__")})


def enc(d):
    """Every number as a string so that the specification compares like with like."""
    e = copy.deepcopy(d)

    def s(x):
        return x if isinstance(x, str) else q(x)

    e["total"] = s(e["total"])
    e["bounds"]["e"] = [([x[0]] + [s(v) for v in x[1:]]) if d["bounds"]["kind"] == "map" else [s(v) for v in x]
                        for x in e["bounds"]["e"]]
    e["rel"] = [x[:2] + [s(v) for v in x[2:]] for x in e["rel"]]
    e["groups"] = [[g[0], s(g[1]), s(g[2])] for g in e["groups"]]
    for k in ("gh", "ab"):
        e[k] = [[[s(v) for v in r[0]], s(r[1])] for r in e[k]]
    return e


def event(d, via, form, extra=None):
    extra = extra or {}
    n, kw = to_kwargs(d, form, extra)
    n = extra.get("n", n)
    none = True
    before = snap(kw)

    if via == "build":
        def run():
            return build_G_h_A_b(n, **kw)
    elif via == "arrays":
        none = False

        def run():
            return build_G_h_A_b(n, return_none_if_empty=False, **kw)
    elif via == "typed":
        def run():
            return Constraints(**kw).to_matrices(n)
    elif via == "dict":
        def run():
            return Constraints.from_dict(dict(kw, unknown_option=3)).to_matrices(n)
    elif via.startswith("f-"):
        none = False

        def run():
            R = np.array([[0.01 * ((3 * i + 5 * j) % 7 - 3) for j in range(n)] for i in range(6)])
            plain = not any(kw.get(x) for x in ("relative_bounds", "group_constraints", "additional_G_h", "additional_A_b"))
            c = {x: kw[x] for x in ("long_only", "total_weight", "bounds") if x in kw} if plain and form % 3 == 0 else {"constraints": kw if form % 3 == 1 else Constraints(**kw)}
            w = {"f-mom": lambda: PortfolioWrapper.from_moments(np.linspace(0.01, 0.05, n), np.eye(n), **c),
                 "f-scen": lambda: PortfolioWrapper.from_scenarios(R, **c),
                 "f-prices": lambda: PortfolioWrapper.from_prices(100 + R, **c),
                 "f-inv": lambda: PortfolioWrapper.from_invariants(R, n_simulations=5, seed=1, **c),
                 "f-post": lambda: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=R[0], sigma=np.eye(n), s_mu=np.eye(n) / 9), **c)}[via]()
            return w.G, w.h, w.A, w.b
    else:
        none = False

        def run():
            dist = AssetsDistribution(mu=np.linspace(0.01, 0.05, n), cov=np.eye(n))
            c = kw if via == "wdict" else Constraints(**kw)
            if via == "wkw":
                w = PortfolioWrapper(dist, **{x: kw[x] for x in ("long_only", "total_weight", "bounds") if x in kw})
            else:
                w = PortfolioWrapper(dist, constraints=c)
            return w.G, w.h, w.A, w.b
    k, res, exc = call(run)
    out = {"k": k, "G": [], "h": [], "A": [], "b": [], "gnone": False, "anone": False, "mro": mro(exc)}
    if k == "ok":
        G, h, A, b = res
        out.update(gnone=G is None and h is None, anone=A is None and b is None)
        if G is not None:
            out["G"], out["h"] = qm(G), qv(h)
        if A is not None:
            out["A"], out["b"] = qm(A), qv(b)
    return {"op": "build", "d": enc(d), "via": via, "junk": bool(extra.get("junk")), "none": none,
            "same": before == snap(kw), "out": out}


FACTORIES = ["f-mom", "f-scen", "f-prices", "f-inv", "f-post"]


def empty(n):
    return {"n": n, "long": False, "total": "none", "bounds": {"kind": "none", "e": []}, "rel": [], "groups": [],
            "gh": [], "ab": []}


def rnd(rng, n):
    d = empty(n)

    def v(lo=-8, hi=16):
        u = rng.random()
        if u < 0.3:
            return rng.choice(["0", "0", "1", "-1", "1/2", "2", "-1/4"])
        if u < 0.6:
            return q(Fraction(rng.randint(lo, hi), 16))
        return q(round(rng.uniform(lo / 16, hi / 16), 3))

    def pair():
        a, b = sorted([v(), v()], key=lambda x: Fraction(x))
        r = rng.random()
        return ["none", b] if r < 0.15 else [a, "none"] if r < 0.3 else [a, b] if r < 0.85 else [a, a] if r < 0.95 else ["none", "none"]
    d["long"] = rng.random() < 0.6
    if rng.random() < 0.8:
        d["total"] = rng.choice(["1", "1", "1/2", "2", "0", v()])
    r = rng.random()
    if r < 0.25:
        d["bounds"] = {"kind": "pair", "e": [pair()]}
    elif r < 0.5:
        d["bounds"] = {"kind": "list", "e": [pair() for _ in range(n)]}
    elif r < 0.75:
        d["bounds"] = {"kind": "map", "e": [[i + 1] + pair() for i in rng.sample(range(n), rng.randint(0, n))]}
    for _ in range(rng.choice([0, 0, 1, 2])):
        if n > 1:
            i, j = rng.sample(range(1, n + 1), 2)
            d["rel"].append([i, j, v()])
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = sorted([v(), v()], key=lambda x: Fraction(x))
        ms = rng.sample(range(1, n + 1), rng.randint(1, n))
        if rng.random() < 0.25:
            a = b
        if rng.random() < 0.1:
            ms = list(range(1, n + 1))
        if rng.random() < 0.1:
            ms = ms + [ms[0]]
        d["groups"].append([ms, a, b])
    for key in ("gh", "ab"):
        for _ in range(rng.choice([0, 0, 1, 2])):
            d[key].append([[v(-32, 32) for _ in range(n)], v()])
    return d


def check(ctx):
    rng = ctx.rng("feasible")
    out = []
    recs = ctx.model_check("FeasibleMC", "FeasibleMC3" if ctx.thorough else "FeasibleMC")
    vias = ["build", "typed", "dict", "arrays", "wrap", "wdict"]
    for k, r in enumerate(recs):
        d = {x: r[x] for x in ("n", "long", "total", "bounds", "rel", "groups", "gh", "ab")}
        evs = [(d, vias[k % 6], k)]
        if not (d["rel"] or d["groups"] or d["gh"] or d["ab"]):
            evs += [(d, v, k + i) for i, v in enumerate(vias) if v != "arrays"] + [(d, "wkw", 1)]
        out.append(ctx.run_session(f"mc-{k}", {}, lambda evs=evs: [event(*e) for e in evs]))
    for k in range(ctx.n(1100, 8000)):
        d = rnd(rng, rng.choice([1, 2, 3, 3, 4, 5]))
        v = rng.choice(vias)
        out.append(ctx.run_session(f"rnd-{k}", {}, lambda: [event(d, v, rng.randrange(100), {"iter": rng.random() < 0.3}),
                                                            event(d, "build", rng.randrange(100))]))
    for k in range(ctx.n(40, 300)):               # many assets
        d = rnd(rng, rng.choice([8, 11, 12, 17, 25]))
        v = rng.choice(vias + FACTORIES)
        out.append(ctx.run_session(f"wide-{k}", {}, lambda: [event(d, v, rng.randrange(100))]))
    for k in range(ctx.n(250, 1500)):
        d = rnd(rng, rng.choice([1, 2, 3, 3, 4]))
        if rng.random() < 0.6:
            d.update(rel=[], groups=[], gh=[], ab=[])
        v = FACTORIES[k % 5]
        out.append(ctx.run_session(f"factory-{k}", {}, lambda: [event(d, v, rng.randrange(100))]))
    # malformed declarations
    base = dict(empty(3), long=True, total="1")
    bads = []
    for e in (["1/2", "1/4"], ["nan", "1"], ["0", "inf"], ["-inf", "none"], ["0", "nan"]):
        bads.append(({"bounds": {"kind": "pair", "e": [e]}}, {}))
        for i in range(3):
            bads.append(({"bounds": {"kind": "list", "e": [e if j == i else ["0", "1"] for j in range(3)]}}, {}))
            bads.append(({"bounds": {"kind": "map", "e": [[i + 1] + e]}}, {}))
    for i in (-1, 0, 4, 9):
        bads.append(({"bounds": {"kind": "map", "e": [[i, "0", "1"]]}}, {}))
        bads.append(({"rel": [[i, 2, "0"]]}, {}))
        bads.append(({"rel": [[2, i, "0"]]}, {}))
        bads.append(({"rel": [[1, 2, "0"], [i, 2, "0"]]}, {}))
        bads.append(({"groups": [[[1, i], "0", "1"]]}, {}))
        bads.append(({"groups": [[[1, 2], "0", "1"], [[i], "0", "1"]]}, {}))
    for m in (2, 4):
        bads.append(({"bounds": {"kind": "list", "e": [["0", "1"]] * m}}, {}))
        bads.append(({"gh": [[["1"] * m, "1"]]}, {}))
        bads.append(({"ab": [[["1"] * m, "1"]]}, {}))
    bads += [({"rel": [[2, 2, "0"]]}, {}), ({"rel": [[1, 2]]}, {}), ({"rel": [[1, 2, "0", "1"]]}, {}), ({"rel": [[1, 2, "nan"]]}, {}),
             ({"groups": [[[1, 2], "1/2", "1/4"]]}, {}), ({"groups": [[[1], "nan", "1"]]}, {}), ({"groups": [[[1], "0", "inf"]]}, {}),
             ({"gh": [[["1", "nan", "1"], "1"]]}, {}), ({"gh": [[["1", "1", "1"], "nan"]]}, {}), ({"gh": [[["1", "1", "inf"], "0"]]}, {}),
             ({"ab": [[["1", "nan", "1"], "1"]]}, {}), ({"ab": [[["1", "1", "1"], "inf"]]}, {}),
             ({"ab": [[["1", "1", "1"], "1"], [["inf", "1", "1"], "1"]]}, {}),
             ({"total": "nan"}, {}), ({"total": "inf"}, {}),
             ({"bounds": {"kind": "map", "e": [[1, "0"]]}}, {}), ({"bounds": {"kind": "map", "e": [[1, "0", "1", "2"]]}}, {}),
             ({"bounds": {"kind": "pair", "e": [["0", "1", "2"]]}}, {}), ({"bounds": {"kind": "pair", "e": [["0"]]}}, {}),
             ({}, {"kw": {"total_weight": "1"}, "junk": True}), ({}, {"kw": {"bounds": ("0", 1)}, "junk": True}),
             ({}, {"kw": {"bounds": {0: (None, "1")}}, "junk": True}), ({}, {"kw": {"bounds": [(0, 1), ("a", 1), (0, 1)]}, "junk": True}),
             ({}, {"kw": {"relative_bounds": [(0, 1, "x")]}, "junk": True}), ({}, {"kw": {"group_constraints": {"g": ([0], None, 1)}}, "junk": True}),
             ({}, {"kw": {"additional_G_h": [([1, 1, 1], "x")]}, "junk": True}), ({}, {"kw": {"additional_A_b": [([1, 1, 1], None)]}, "junk": True}),
             ({}, {"kw": {"bounds": {"first": (0, 1)}}, "junk": True})]
    for k, (chg, extra) in enumerate(bads):
        for v in ("build", "typed", "wdict", FACTORIES[k % 5]):
            d = dict(base, **copy.deepcopy(chg))
            out.append(ctx.run_session(f"bad-{k}-{v}", {}, lambda: [event(d, v, 1, extra), event(base, v, 1)]))
    for k, n in enumerate([0, -1, 2.5, "3", None]):
        out.append(ctx.run_session(f"badn-{k}", {}, lambda: [event(dict(base), "build", 1, {"n": n, "junk": True})]))
    ctx.validate("FeasibleTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "refuses-malformed", "inequalities-are-the-region", "equalities-are-the-region",
                            "absence-marked"}
    return ctx.finish(assumptions=["inequality and equality rows are compared with the declared region separately"])
