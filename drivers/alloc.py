"""Driver of the discrete-allocation property (spec/Alloc.tla)."""
from fractions import Fraction

import pandas as pd

from vkit import call, mro, q, size
from pyvallocation import DiscreteAllocationInput, discretize_weights
from pyvallocation.discrete_allocation import allocate_greedy, allocate_mip


def _mk(pairs, as_series):
    d = {k: float(v) for k, v in pairs}
    return pd.Series(d, dtype=float) if as_series else d


def _mkl(pairs, as_series):
    if pairs is None:
        return None
    d = {k: int(v) for k, v in pairs}
    return pd.Series(d) if as_series else d


def _snap(x):
    return None if x is None else list(x.items())


def event(case):
    """case: dict with w, prices, lots (pairs), V, method, mode, cap, pen, cashcap, forms, via."""
    f = case.get("forms", (True, True, False))
    w, p, l = _mk(case["w"], f[0]), _mk(case["prices"], f[1]), _mkl(case["lots"], f[2])
    before = (_snap(w), _snap(p), _snap(l))
    method = case["method"]
    kw, mk = {}, {}
    if case.get("pen") is not None:
        mk["cash_penalty"] = float(case["pen"])
    if case.get("cashcap") is not None:
        mk["max_cash"] = float(case["cashcap"])
    if method in ("greedy", "rounddown"):
        if case.get("cap") is not None:
            kw["max_iterations"] = case["cap"]
        if case.get("mode") is not None:
            kw["fallback_mode"] = case["mode"]
        if mk:
            kw["fallback_kwargs"] = mk
    else:
        kw = mk
    V = float(case["V"])
    if case.get("via") == "input":
        def run():
            inp = DiscreteAllocationInput(weights=w, latest_prices=p, total_value=V, lot_sizes=l)
            return (allocate_greedy if method in ("greedy", "rounddown") else allocate_mip)(inp, **kw)
    elif case.get("via") == "reuse":
        def run():
            if case["box"][0] is None:
                case["box"][0] = DiscreteAllocationInput(weights=w, latest_prices=p, total_value=V, lot_sizes=l)
            return (allocate_greedy if method in ("greedy", "rounddown") else allocate_mip)(case["box"][0], **kw)
    else:
        meth = case.get("spelling", method)

        def run():
            return discretize_weights(w, p, V, method=meth, lot_sizes=l, **kw)
    k, res, exc = call(run)
    milpdead = False
    if method in ("greedy", "rounddown") and case.get("cap") is not None and case["cap"] < 100:
        mk2, _, mexc = call(lambda: discretize_weights(w, p, V, method="milp", lot_sizes=l, **mk))
        milpdead = mk2 == "err" and "status 4" in str(mexc)
    if k == "ok":
        out = {"k": "ok", "shares": [[str(a), q(c)] for a, c in res.shares.items()],
               "leftover": q(res.leftover_cash), "te": q(res.tracking_error),
               "alab": [str(a) for a in res.achieved_weights.index],
               "aval": [q(x) for x in res.achieved_weights.tolist()]}
        ser = res.as_series()
        if dict(ser) != dict(res.shares):
            out["k"] = "inconsistent"
    else:
        # HiGHS itself gives up on a few well-posed problems; SciPy reports status 4
        out = {"k": "solver" if "status 4" in str(exc) else "err", "mro": mro(exc)}
    return {"op": "allocate", "w": [[a, q(float(x))] for a, x in case["w"]],
            "prices": [[a, q(float(x))] for a, x in case["prices"]],
            "lots": [[a, int(x)] for a, x in (case["lots"] or [])], "V": q(V), "method": method,
            "mode": (case.get("mode") or "auto").lower(), "cap": case["cap"] if case.get("cap") is not None else 1000,
            "pen": q(Fraction(case["pen"])) if case.get("pen") is not None else "1",
            "cashcap": q(float(case["cashcap"])) if case.get("cashcap") is not None else "none",
            "milpdead": milpdead, "exact": bool(case.get("exact")), "same": before == (_snap(w), _snap(p), _snap(l)),
            "key": case["key"], "out": out}


def _sess(ctx, out, sid, cases):
    out.append(ctx.run_session(sid, {}, lambda: [event(c) for c in cases]))


NM = ["AAA", "BBB", "CCC", "DDD"]
WIDE = [f"{a}{i}" for i, a in enumerate("QWERTYUIOPASDFGH")]


def check(ctx):
    rng = ctx.rng("alloc")
    out = []
    recs = ctx.model_check("AllocMC", "AllocMC3" if ctx.thorough else "AllocMC")
    # replay of the explored problems: greedy (all), milp (a slice)
    for k, r in enumerate(recs):
        n = len(r["w"])
        from_q = [Fraction(str(x)) for x in r["w"]]
        base = {"w": list(zip(NM, from_q)), "prices": list(zip(NM, r["price"])), "lots": list(zip(NM, r["lot"])),
                "V": r["V"], "exact": True}
        cap = None if r["cap"] >= 100 else r["cap"]
        cs = [dict(base, method="greedy", cap=cap, mode=["auto", "none", "milp"][k % 3], key="g",
                   forms=(k % 2 == 0, k % 3 == 0, k % 5 == 0), via=["", "input"][k % 2])]
        if cap is None and k % 2 == 0:
            cs.append(dict(base, method="milp", key="m", pen=[1, 0, 3][k % 3]))
        _sess(ctx, out, f"mc-{k}", cs)
    # seeded random problems
    for k in range(ctx.n(500, 5000)):
        n = size(rng, [1, 2, 2, 3, 3, 4], [9, 12, 16])
        dy = rng.random() < 0.5
        names = rng.sample(WIDE if n > 4 else NM, n)
        tries = 0
        while True:
            shorts = rng.random() < 0.25 and n > 1
            if dy:
                w = [Fraction(rng.randint(1, 16), 16) for _ in range(n)]
                if shorts:
                    i = rng.randrange(n)
                    w[i] = -w[i] / rng.choice([1, 2, 4])
            else:
                w = [Fraction(rng.randint(1, 999), 1000) for _ in range(n)]
                if shorts:
                    w[rng.randrange(n)] *= -1
            s = sum(w)
            if s > Fraction(1, 3):
                break
        if dy:
            # make the normalised weights exact: total a power of two
            if rng.random() < 0.7:
                w[0] += (Fraction(1) if s <= 1 else Fraction(2) if s <= 2 else Fraction(4)) - s if not shorts else 0
            prices = [Fraction(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 15, 22, 33])) / rng.choice([1, 1, 2, 4]) for _ in range(n)]
            V = rng.choice([8, 16, 32, 64])
        else:
            prices = [Fraction(rng.randint(150, 9999), 100) for _ in range(n)]
            V = Fraction(rng.choice([100, 250, 999, 1234, 50]) * 100 + rng.randint(0, 99), 100)
            if rng.random() < 0.3:
                V = V * 1000
        exact = dy and sum(w) in (1, 2, 4) and not any(x < 0 for x in w)
        big = max(float(V) / float(p) for p in prices)
        lots = None if rng.random() < 0.4 else [(a, rng.choice([1, 1, 2, 3, 5])) for a in names if rng.random() < 0.8]
        if lots is not None and not lots:
            lots = None
        wp = list(zip(names, w))
        if rng.random() < 0.3:
            extra = rng.choice([a for a in NM if a not in names] or ["ZZZ"])
            wp.insert(rng.randrange(len(wp) + 1), (extra, Fraction(0) if rng.random() < 0.5 else Fraction(1, 10 ** 9)))
        pp = [(a, p) for a, p in zip(names, prices)]
        for a, _ in wp:
            if a not in names:
                pp.append((a, Fraction(17)))
        if rng.random() < 0.4:
            pp.append(("XTRA", Fraction(5)))
        rng.shuffle(pp)
        if any(a not in names for a, _ in wp):
            exact = exact and all(x == 0 or a in names for a, x in wp)
        base = {"w": wp, "prices": pp, "lots": lots, "V": V, "exact": exact, "forms": tuple(rng.random() < 0.5 for _ in range(3))}
        cs = [dict(base, method=rng.choice(["greedy", "rounddown"]), key="g", via=rng.choice(["", "input"]))]
        if rng.random() < 0.5:
            box = [None]
            cap = rng.choice([None, 0, 1, 2])
            mode = rng.choice(["auto", "none", "milp", "AUTO", None])
            if cap == 0 and mode is None:
                mode = "auto"
            pen = rng.choice([None, 0, 1, 2])
            cs += [dict(base, method="greedy", key="g2", via="reuse", box=box, cap=cap, mode=mode, pen=pen),
                   dict(base, method="milp", key="m2", via="reuse", box=box),
                   dict(base, method="greedy", key="g2", via="reuse", box=box, cap=cap, mode=mode, pen=pen)]
            cs[1]["pen"] = pen
        if big <= 14 and n <= 3 or big <= 8:
            cs.append(dict(base, method=rng.choice(["milp", "mip", "integer", "lp"]), key="m", pen=rng.choice([None, 0, 1, Fraction(5, 2)]),
                           cashcap=rng.choice([None, None, None, 0, 1, 5, V / 4]), spelling=None))
            cs[-1]["spelling"] = rng.choice([cs[-1]["method"], cs[-1]["method"].upper()])
        _sess(ctx, out, f"rnd-{k}", cs)
    # long/short books with coarse lots: rounding a short up, longs that cannot be bought at all
    for k in range(ctx.n(160, 1500)):
        n = rng.choice([2, 2, 3])
        names = rng.sample(NM, n)
        w = [Fraction(rng.randint(2, 12), 10) for _ in range(n)]
        w[0] = -Fraction(rng.randint(1, 9), 10)
        if sum(w) <= Fraction(1, 5):
            w[1] += 1
        V = rng.choice([100, 250, 1000])
        prices = [Fraction(V * rng.choice([2, 3, 5, 7, 9, 11, 14, 20, 100, 300]), 20) for _ in range(n)]
        base = {"w": list(zip(names, w)), "prices": list(zip(names, prices)), "lots": None, "V": V, "exact": False}
        if sum(abs(x) for x in w) * V / min(prices) > 40:
            base["prices"] = [(a, max(p, Fraction(V, 4))) for a, p in base["prices"]]
        _sess(ctx, out, f"short-{k}", [dict(base, method=rng.choice(["milp", "greedy"]), key="m", pen=rng.choice([0, 0, 0, 1, Fraction(1, 2)])
                                            )])
    # rejections
    ok = {"w": [("AAA", Fraction(1, 2)), ("BBB", Fraction(1, 2))], "prices": [("AAA", 3), ("BBB", 5)], "lots": None, "V": 64,
          "method": "greedy"}
    bad = [dict(prices=[("AAA", 3)]), dict(w=[("AAA", 0), ("BBB", 0)]), dict(w=[]), dict(prices=[("AAA", 0), ("BBB", 5)]),
           dict(prices=[("AAA", -3), ("BBB", 5)]), dict(V=0), dict(V=-5), dict(lots=[("AAA", 0)]), dict(lots=[("BBB", -2)]),
           dict(w=[("AAA", 1), ("BBB", -1)]), dict(w=[("AAA", 1), ("BBB", -2)]), dict(method="simplex"), dict(mode="bogus"),
           dict(w=[("AAA", Fraction(1, 10 ** 10))])]
    for k, b in enumerate(bad):
        for m in ("greedy", "milp"):
            c = dict(ok, key="r", **{"method": m})
            c.update(b)
            if "mode" in b and m == "milp":
                continue
            for f in ((True, True, False), (False, False, True)):
                _sess(ctx, out, f"rej-{k}-{m}-{int(f[0])}", [dict(c, forms=f)])
    ctx.validate("AllocTrace", out)
    ctx.required_clauses = {"conservation", "cash-nonnegative", "whole-lots", "achieved-weights", "tracking-error",
                            "never-short-a-long", "at-least-rounded-down", "nothing-affordable-left", "greedy-machine",
                            "greedy-capped-none", "greedy-fallback-milp", "milp-optimal", "cash-cap", "infeasible-raises",
                            "rejects-bad-input", "inputs-unchanged", "same-question-same-answer"}
    return ctx.finish(assumptions=["exact greedy-machine membership is decided on inputs whose arithmetic is exact in doubles; "
                                   "on other inputs the greedy facts are decided with a 1e-8 money tolerance"])
