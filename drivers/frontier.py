"""Driver of the frontier-query property (spec/Frontier.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from pyvallocation.discrete_allocation import discretize_weights
from pyvallocation.portfolioapi import PortfolioFrontier, PortfolioWrapper
from vkit import call, mro, q, qv, size

MEAS = "Volatility"


def table(f):
    return repr((np.asarray(f.weights).tolist(), np.asarray(f.returns).tolist(), np.asarray(f.risks).tolist(), f.risk_measure,
                 None if f.asset_names is None else list(f.asset_names),
                 [(k, np.asarray(v).tolist()) for k, v in f.alternate_risks.items()], f.metadata))


def abstract(f):
    W = np.asarray(f.weights, float)
    return {"W": [qv(W[:, j]) for j in range(W.shape[1])], "ret": qv(f.returns), "risk": qv(f.risks), "measure": f.risk_measure,
            "names": [str(x) for x in f.asset_names] if f.asset_names is not None else [str(i) for i in range(W.shape[0])],
            "alts": [{"name": k, "v": qv(v)} for k, v in f.alternate_risks.items()], "table": table(f)}


def odd(r):
    return {"k": "err", "mro": mro(r[2]), "w": [], "names": [], "ret": "nan", "risk": "nan", "v": [], "i": -9, "W": [], "cols": ["none"]}


def ask(f, kind, label, x, rng):
    if kind in ("max_return", "tangency"):
        label = ""
    lab = label or None
    x = float(x)
    r = {"min_risk": lambda: call(f.min_risk, risk_label=lab), "max_return": lambda: call(f.max_return),
         "tangency": lambda: call(f.tangency, x), "at_risk": lambda: call(f.at_risk, x, risk_label=lab),
         "at_return": lambda: call(f.at_return, x, risk_label=lab), "closest_risk": lambda: call(f.closest_risk, x, risk_label=lab),
         "at_percentile": lambda: call(f.at_percentile, x, risk_label=lab)}[kind]()
    o = odd(r)
    if r[0] == "ok":
        try:
            w, ret, risk = r[1]
            o.update(k="ok", w=qv(w), names=[str(i) for i in w.index], ret=q(ret), risk=q(risk))
            if rng.random() < 0.5:          # what the caller does with its answer must not reach the frontier
                try:
                    w.iloc[:] = 99.0
                except Exception:  # noqa: BLE001
                    pass
        except Exception as e:  # noqa: BLE001
            o = odd(("err", None, e))
            o["k"] = "odd"
    return {"op": "ask", "q": {"kind": kind, "label": label, "x": q(x)}, "out": o, "table": table(f)}


def pct(f, label, rng):
    r = call(f.risk_percentiles, label or None)
    o = odd(r)
    if r[0] == "ok":
        o.update(k="ok", v=qv(r[1]))
        if rng.random() < 0.5:
            r[1][:] = -5.0
    return {"op": "pct", "label": label, "out": o, "table": table(f)}


def index(f, label, x):
    r = call(f.index_at_risk_percentile, float(x), risk_label=label or None)
    o = odd(r)
    if r[0] == "ok":
        o.update(k="ok", i=int(r[1]))
    return {"op": "index", "label": label, "x": q(float(x)), "out": o, "table": table(f)}


def frame(f, cols, labels, via, rng):
    kw = {} if labels is None else {"column_labels": labels}
    if via == "frame":
        r = call(f.to_frame, cols, **kw)
    elif via == "samples":
        r = call(f.to_samples, cols)
    else:
        r = call(f.to_samples, cols, as_frame=False)
    o = odd(r)
    if r[0] == "ok":
        try:
            x = r[1]
            if via == "matrix":
                m, names = x
                names = [str(n) for n in names] if names is not None else [str(i) for i in range(m.shape[0])]
                cl = ["none"]
            else:
                m, names, cl = x.to_numpy(float), [str(i) for i in x.index], [str(c) for c in x.columns]
            o.update(k="ok", W=[qv(m[:, j]) for j in range(m.shape[1])], names=names, cols=cl)
            if via == "matrix":
                m[...] = 7.0
            else:
                x.iloc[:, :] = 7.0
        except Exception as e:  # noqa: BLE001
            o = odd(("err", None, e))
            o["k"] = "odd"
    lab = ["none"]
    if via != "matrix":
        lab = [str(x) for x in labels] if labels is not None else [str(x) for x in (cols if cols is not None else range(f.weights.shape[1]))]
        if labels is None and cols is None:
            lab = ["none"]
    return {"op": "frame", "all": cols is None, "cols": list(cols) if cols is not None else [], "labels": lab, "out": o,
            "table": table(f)}


def alloc(f, col, prices, total):
    def show(r):
        if r[0] != "ok":
            return {"k": "err", "mro": mro(r[2]), "s": ""}
        a = r[1]
        return {"k": "ok", "mro": [], "s": repr((a.shares.to_dict() if hasattr(a.shares, "to_dict") else a.shares, round(float(a.leftover_cash), 9)))}
    r = call(f.as_discrete_allocation, col, prices, total)
    names = list(f.asset_names) if f.asset_names is not None else [f"Asset_{i}" for i in range(f.weights.shape[0])]
    d = {"k": "none", "mro": [], "s": ""}
    if 0 <= col < f.weights.shape[1]:
        d = show(call(discretize_weights, weights=pd.Series(np.array(f.weights)[:, col], index=names), latest_prices=prices, total_value=total))
    return {"op": "alloc", "col": col, "out": show(r), "direct": d, "table": table(f)}


KINDS = ["min_risk", "max_return", "tangency", "at_risk", "at_return", "closest_risk", "at_percentile"]


def script(f, rng, length):
    evs = []
    labs = ["", f.risk_measure] + list(f.alternate_risks) + (["Bogus"] if rng.random() < 0.3 else [])
    for _ in range(length):
        t = rng.random()
        lab = rng.choice(labs)
        if t < 0.72:
            kind = rng.choice(KINDS)
            v = f.risks if lab not in f.alternate_risks else f.alternate_risks[lab]
            ar = f.returns if kind in ("at_return", "tangency") else v
            base = float(rng.choice(list(np.asarray(ar, float))))
            x = base + rng.choice([0, 0, 0, 1, -1, 0.25, -0.25, 1e-9, -1e-9, 1e-6, -1e-6, 3, -3]) * rng.choice([1, max(1e-6, float(np.ptp(np.asarray(ar, float))))])
            if kind == "at_percentile":
                x = rng.choice([0, 1, 100, 50, 25, 0.5, 0.3, 0.75, 99.9, 1.5, -0.1, 100.5, 101, -3, rng.random(), 100 * rng.random()])
            evs.append(ask(f, kind, lab, x, rng))
        elif t < 0.78:
            evs.append(pct(f, lab, rng))
        elif t < 0.84:
            evs.append(index(f, "" if lab == "Bogus" else lab, rng.choice([0, 1, 100, 50, 0.5, 0.34, -1, 101, rng.random()])))
        elif t < 0.94:
            M = f.weights.shape[1]
            cols = None if rng.random() < 0.3 else [rng.randrange(-1, M + (rng.random() < 0.15)) for _ in range(rng.randint(1, 3))]
            via = rng.choice(["frame", "samples", "matrix"])
            n = M if cols is None else len(cols)
            labels = None
            if via == "frame" and rng.random() < 0.5:
                labels = [f"L{i}" for i in range(n + (rng.random() < 0.2))]
            evs.append(frame(f, cols, labels, via, rng))
        else:
            names = list(f.asset_names) if f.asset_names is not None else [f"Asset_{i}" for i in range(f.weights.shape[0])]
            pr = pd.Series({n: 2.0 + i for i, n in enumerate(names)})
            evs.append(alloc(f, rng.choice([0, f.weights.shape[1] - 1, f.weights.shape[1], -1]), pr, 1000.0))
    return evs


def build(n, m, wc, nr, ns, nn, na):
    r = call(PortfolioFrontier, weights=np.ones((n, wc)) / n, returns=np.arange(float(nr)), risks=np.arange(float(ns)), risk_measure=MEAS,
             asset_names=[f"A{i}" for i in range(nn)] if nn else None, alternate_risks={"Alt": np.arange(float(na))} if na else {})
    return {"op": "build", "n": n, "m": m, "wcols": wc, "nr": nr, "ns": ns, "nn": nn, "na": na, "out": odd(r) if r[0] != "ok" else {"k": "ok", "mro": []}}


def mk(rng, ret, risk, alts, n):
    m = len(ret)
    W = np.array([[rng.randint(0, 8) / 8 for _ in range(m)] for _ in range(n)])
    W[0] = np.arange(m) / 16 + 1       # columns pairwise different
    return PortfolioFrontier(weights=W, returns=np.array(ret, float), risks=np.array(risk, float), risk_measure=MEAS,
                             asset_names=[f"A{i}" for i in range(n)] if rng.random() < 0.7 else None,
                             metadata=[{"k": i} for i in range(m)] if rng.random() < 0.3 else None,
                             alternate_risks={k: np.array(v, float) for k, v in alts.items()})


def check(ctx):
    rng = ctx.rng("frontier")
    out = []
    recs = ctx.model_check("FrontierMC", "FrontierMC")
    if ctx.thorough:
        recs += ctx.model_check("FrontierMC", "FrontierMC2", workers=4)

    def fl(v):
        return [float(F(str(x))) for x in v]
    for k, r in enumerate(recs):
        Fr = r["F"]
        f = mk(rng, fl(Fr["ret"]), fl(Fr["risk"]), {a["name"]: fl(a["v"]) for a in Fr["alts"]}, 2)
        def every(f=f):
            evs = []
            qs = [(kd, lb, x) for kd in KINDS for lb in ["", "Other"] for x in (0, 0.5, 1, 2.5)
                  if not (kd in ("max_return", "tangency") and lb) and not (kd in ("min_risk", "max_return") and x)]
            rng.shuffle(qs)
            for kd, lb, x in qs[: 40 if ctx.thorough else 10]:
                evs.append(ask(f, kd, lb, x / 2 if kd == "at_percentile" else x, rng))
            return evs
        out.append(ctx.run_session(f"mc-{k}", abstract(f), every))
    for k in range(ctx.n(250, 4000)):
        m = size(rng, [1, 1, 2, 3, 5, 8, 20], [35, 60])
        n = size(rng, [1, 2, 3, 5], [11, 12, 26])
        dy = rng.random() < 0.6
        gen = (lambda: [rng.randint(0, 6) / 4 for _ in range(m)]) if dy else (lambda: [abs(rng.gauss(0.1, 0.05)) for _ in range(m)])
        ret, risk = gen(), gen()
        if rng.random() < 0.3:
            risk.sort()
            ret.sort()
        if rng.random() < 0.3:
            ret = [x - 0.5 for x in ret]
        if rng.random() < 0.05:
            risk = [0.0] * m
        alts = {nm: gen() for nm in rng.sample(["CVaR (95%)", "Tracking", "Other"], rng.choice([0, 1, 2]))}
        f = mk(rng, ret, risk, alts, n)
        out.append(ctx.run_session(f"rnd-{k}", abstract(f), lambda: script(f, rng, ctx.n(8, 14))))
    for k in range(ctx.n(12, 120)):               # frontiers the library itself builds
        n = rng.choice([2, 3, 4])
        R = np.array([[rng.gauss(0.01 * (j + 1), 0.02 * (j + 1)) for j in range(n)] for _ in range(30)])
        def go():
            w = PortfolioWrapper.from_scenarios(pd.DataFrame(R, columns=[f"A{j}" for j in range(n)]))
            f = [lambda: w.variance_frontier(num_portfolios=5), lambda: w.cvar_frontier(num_portfolios=4)][k % 2]()
            go.f = f
            return script(f, rng, 8)
        s = ctx.run_session(f"lib-{k}", {}, go)
        if hasattr(go, "f"):
            s["init"] = abstract(go.f)
        out.append(s)
    blds = []
    for n, m in [(2, 3), (3, 2), (1, 1)]:
        base = dict(n=n, m=m, wc=m, nr=m, ns=m, nn=n, na=m)
        blds.append(build(**base))
        for key in ["wc", "nr", "ns", "nn", "na"]:
            for d in (-1, 1):
                if base[key] + d > 0:
                    b = dict(base)
                    b[key] += d
                    if key == "nr":
                        b["m"] = m          # every other length then disagrees with m
                    blds.append(build(**b))
    out.append(ctx.run_session("build", {}, lambda: blds))
    ctx.validate("FrontierTrace", out)
    ctx.required_clauses = {"frontier-unchanged", "unknown-risk-measure-refused", "unattainable-refused", "labels", "a-stored-column",
                            "percentile-ranks", "percentile-index", "frame-columns", "frame-labels", "frame-column-labels",
                            "bad-selection-refused", "allocates-that-column", "inconsistent-table-refused"} | set(KINDS)
    return ctx.finish(assumptions=["among columns that tie (ratios and distances within 1e-12) any one is a right answer",
                                   "risks are non-negative where the Sharpe ratio is asked for"])
