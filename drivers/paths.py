"""Driver of scenario profits, reports, horizons and drawdowns (S02) and of projection, paths and repricing (J01)."""
from collections import Counter
from fractions import Fraction as F

import numpy as np
import pandas as pd

from stress import Recorder, fl, form_weights, gen_masses, gen_rows, masses, snap, vec
from vkit import call, mro, q, qm, qv, size
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj

NAN = float("nan")
POOL = ["u", "v", "w", "x", "y", "k", "l", "m", "n", "o", "p", "q"]


def given(p):
    return {"k": "none", "v": []} if p is None else {"k": "given", "v": qv(vec(p))}


def digits(keys):
    labs = {"".join(ch for ch in str(c) if ch.isdigit()) for c in keys if "VaR" in str(c)}
    return labs.pop() if len(labs) == 1 else "nan"


def err(exc, **z):
    return {"k": "err", "mro": mro(exc), **z}


# --------------------------------------------------------------- S02 events
def run_pnl(R, cols, W, wl, names, kind, form):
    Rf = fl(R)
    ix = [f"d{t}" for t in range(len(R))]
    ra = pd.DataFrame(Rf, columns=cols, index=ix) if cols else Rf
    wa, labs, nm = form_weights(W, wl, names, kind)
    b = snap(ra, wa)
    k, v, exc = call(pf.scenario_pnl, wa, ra)
    W = W if kind in ("frame", "matrix") else W[:1]
    out = {"k": k, "cols": [], "index": [], "names": [], "mro": []}
    if k == "err":
        out = err(exc, cols=[], index=[], names=[])
    else:
        a = np.asarray(v, dtype=float)
        T, m = len(R), len(W)
        a = a.reshape(T, m) if a.size == T * m else np.atleast_2d(a)
        out["cols"] = qm(a.T)
        if isinstance(v, (pd.Series, pd.DataFrame)):
            out["index"] = [str(x) for x in v.index] if cols else []
            out["names"] = [str(x) for x in v.columns] if isinstance(v, pd.DataFrame) else [str(v.name)] if v.name is not None else []
    return {"op": "pnl", "R": qm(Rf), "cols": list(cols or []), "W": [qv(vec(w)) for w in W], "wl": labs, "rows": len(W[0]),
            "names": nm, "index": ix, "same": b == snap(ra, wa), "out": out}


def fig(row):
    get = [row.get("mean", NAN), row.get("stdev", NAN), next((row[c] for c in row.index if str(c).startswith("VaR")), NAN),
           next((row[c] for c in row.index if str(c).startswith("CVaR")), NAN), row.get("ENS", NAN)]
    return dict(zip(("ret", "sd", "var", "cvar", "ens"), qv([float(x) for x in get])))


def run_report(R, cols, w, wl, kind, p, conf, demean, form, junk=False, wa=None):
    Rf = fl(R)
    ra = pd.DataFrame(Rf, columns=cols) if cols else (Rf.tolist() if form % 3 == 0 else Rf)
    if wa is None:
        wa, labs, _ = form_weights([w], wl, ["core"], kind)
    else:
        labs = []
    pa = masses(p, form)
    kw = {"confidence": float(conf), "demean": demean}
    if pa is not None:
        kw["probabilities"] = pa
    b = snap(ra, wa, pa)
    k, v, exc = call(pf.performance_report, wa, ra, **kw)
    f0 = dict(zip(("ret", "sd", "var", "cvar", "ens"), ["nan"] * 5))
    out = err(exc, lab="0", f=f0) if k == "err" else {"k": "ok", "lab": digits(v.index), "f": fig(v), "mro": []}
    return {"op": "report", "R": qm(Rf), "cols": list(cols or []), "w": qv(vec(w)), "wl": labs, "rows": len(w), "p": given(p),
            "conf": q(float(conf)), "demean": bool(demean), "junk": bool(junk), "same": b == snap(ra, wa, pa), "out": out}


def run_horizon(H, cols, w, wl, kind, p, conf, hs, n, seed, fac, form, junk=False):
    X = fl(H)
    ra = pd.DataFrame(X, columns=cols) if cols else X
    wa, labs, _ = form_weights([w], wl, ["core"], kind)
    pa = masses(p, form)
    r = Recorder((lambda dy: fac * np.asarray(dy)) if fac else (lambda dy: np.exp(np.asarray(dy)) - 1.0))
    kw = {"horizons": hs, "n_simulations": n, "reprice": r, "confidence": float(conf), "seed": seed}
    if pa is not None:
        kw["p"] = pa
    b = snap(ra, wa, pa)
    k, v, exc = call(pf.horizon_report, wa, ra, **kw)
    out = err(exc, lab="0", rows=[], index=[]) if k == "err" else {
        "k": "ok", "lab": digits(v.columns), "rows": [fig(v.iloc[i]) for i in range(len(v))], "index": [str(x) for x in v.index], "mro": []}
    nm = [{4: "1m", 13: "3m", 26: "6m", 52: "1y"}.get(h, f"{h}w") for h in hs]
    ok = k == "ok"
    return {"op": "horizon", "H": qm(X), "cols": list(cols or []), "w": qv(vec(w)), "wl": labs, "rows": len(w), "p": given(p), "conf": q(float(conf)),
            "horizons": [int(h) for h in hs], "n": n, "names": nm, "junk": junk, "same": b == snap(ra, wa, pa),
            "moves": [qm(c[0]) for c in r.calls] if ok else [], "sets": [qm(c[1]) for c in r.calls] if ok else [], "out": out}


def run_down(H, cols, w, wl, kind, p, conf, h, n, seed, fac, form, junk=False):
    X = fl(H)
    ra = pd.DataFrame(X, columns=cols) if cols else X
    wa, labs, _ = form_weights([w], wl, ["core"], kind)
    pa = masses(p, form)
    fn = (lambda dy: fac * np.asarray(dy)) if fac else None
    kw = {"confidence": float(conf), "n_paths": n, "seed": seed}
    if fn is not None:
        kw["reprice"] = fn
    if pa is not None:
        kw["p"] = pa
    b = snap(ra, wa, pa)
    k, v, exc = call(pf.drawdown_quantile, wa, ra, h, **kw)
    paths = []
    z = {"mean": "nan", "median": "nan", "quant": "nan", "worst": "nan", "lab": "0"}
    if k == "err":
        out = err(exc, **z)
    else:
        pct = [c for c in v.index if c not in ("max_dd_mean", "max_dd_median", "max_dd_worst")]
        out = {"k": "ok", "mro": [], "mean": q(float(v["max_dd_mean"])), "median": q(float(v["max_dd_median"])),
               "quant": q(float(v[pct[0]])) if len(pct) == 1 else "nan", "worst": q(float(v["max_dd_worst"])),
               "lab": "".join(ch for ch in str(pct[0]) if ch.isdigit()) if len(pct) == 1 else "nan"}
        P = pj.simulate_paths(X, horizon=h, n_paths=n, p=pa, reprice=fn or pj.reprice_exp, seed=seed)
        paths = [qm(a) for a in P]
    return {"op": "down", "T": len(H), "N": len(H[0]), "paths": paths, "cols": list(cols or []), "w": qv(vec(w)), "wl": labs, "rows": len(w),
            "p": given(p), "conf": q(float(conf)), "junk": junk, "same": b == snap(ra, wa, pa), "out": out}


def performance(ctx):
    rng = ctx.rng("perf")
    out = []
    recs = ctx.model_check("PathsMC", "PathsMC5" if ctx.thorough else "PathsMC3")
    seen = {}
    for r in recs:
        seen[repr(r)] = r
    for k, r in enumerate(seen.values()):
        H = [[F(str(x)) for x in row] for row in r["H"]]
        p, w = ([F(str(x)) for x in r[f]] for f in ("p", "w"))
        kinds = ["series", "vector", "frame"]
        kind = kinds[k % 3]
        wl = ["u", "v"] if kind == "vector" or k % 2 else ["v", "u"]
        ww = w if wl == ["u", "v"] else w[::-1]
        out.append(ctx.run_session(f"mc-{k}", {}, lambda: [
            run_pnl(H, ["u", "v"], [ww], wl, ["core"], kind, k),
            run_report(H, ["u", "v"], ww, wl, kind, p, F(3, 4), bool(k % 2), k),
            run_horizon(H, ["u", "v"], ww, wl, kind, p, F(3, 4), [1, 2, 4], 8, k, 1.0, k),
            run_down(H, ["u", "v"], ww, wl, kind, p, F(3, 4), 3, 8, k, 1.0, k)]))
    for k in range(ctx.n(260, 2600)):
        dy = rng.random() < 0.5
        T, N, M = size(rng, [1, 2, 3, 5, 8, 12, 20], [64, 120]), size(rng, [1, 2, 3, 4], [11, 12]), size(rng, [1, 1, 2, 3], [11])
        R = gen_rows(rng, T, N, dy)
        cols = POOL[:N] if rng.random() < 0.75 else None
        wl = rng.sample(POOL[:N], N)
        W = [[F(rng.randint(-8, 16), 8) if dy else F(str(round(rng.uniform(-0.5, 1), 3))) for _ in range(N)] for _ in range(M)]
        if N >= 2 and rng.random() < 0.3 and R[0][0]:
            i, j = (wl.index(POOL[0]), wl.index(POOL[1])) if cols else (0, 1)
            W[0] = [F(0)] * N
            W[0][i], W[0][j] = R[0][1] / R[0][0], F(-1)
        kind = rng.choice(["frame", "frame", "matrix"]) if M > 1 else rng.choice(["series", "series", "mapping", "vector", "list", "frame", "matrix"])
        kind1 = rng.choice(["series", "series", "frame", "vector", "list", "matrix"])
        p = None if rng.random() < 0.3 else gen_masses(rng, T, dy)
        conf = F(rng.randint(1, 63), 64) if dy else rng.choice([F("0.95"), F("0.9"), F("0.99"), F("0.5"), F("0.75"), F("0.05"), F("0.975")])
        names = rng.sample(["gold", "core", "alt"] + [f"m{i}" for i in range(8)], M)
        out.append(ctx.run_session(f"rnd-{k}", {}, lambda: [
            run_pnl(R, cols, W, wl, names, kind, k),
            run_report(R, cols, W[0], wl, kind1, p, conf, rng.random() < 0.3, k)]))
    for k in range(ctx.n(60, 600)):
        T, N = rng.choice([2, 3, 3]), rng.choice([1, 2, 3])
        H = [[F(rng.randint(-16, 16), 64) for _ in range(N)] for _ in range(T)]
        cols = POOL[:N] if rng.random() < 0.8 else None
        wl = rng.sample(POOL[:N], N)
        w = [F(rng.randint(-4, 8), 8) for _ in range(N)]
        kind = rng.choice(["series", "series", "frame", "vector", "list"])
        p = None if rng.random() < 0.3 else gen_masses(rng, T, True)
        hs = rng.sample([1, 2, 3, 4, 5, 6, 8, 10, 13], rng.choice([1, 2, 3]))
        fac = rng.choice([1.0, -2.0, 0.5, None])
        conf = rng.choice([F("0.95"), F("0.9"), F("0.75"), F("0.5")])
        sd = rng.choice([0, 7, rng.randrange(10 ** 6)])
        n, h = rng.choice([1, 2, 5, 12, 30]), rng.choice([1, 2, 3, 6])
        c = rng.random()
        w1, wl1 = w, wl
        if cols and c < 0.12:
            wl1 = wl[:-1] + ["nope"]
        elif cols and c < 0.2:
            w1, wl1 = w + [F(1, 4)], wl + ["nope"]
        elif c < 0.25:
            w1, wl1, kind = w + [F(1, 4)], wl + ["nope"], "vector"
        junk = False
        if c > 0.95:
            p = rng.choice([[F(1)] * (T + 1), [F(-1, 2)] + [F(1)] * (T - 1), [F(0)] * T, [NAN] * T])
        out.append(ctx.run_session(f"hor-{k}", {}, lambda: [run_horizon(H, cols, w1, wl1, kind, p, conf, hs, n, sd, fac, k, junk)]))
        out.append(ctx.run_session(f"down-{k}", {}, lambda: [run_down(H, cols, w1, wl1, kind, p, conf, h, n, sd, fac, k, junk)]))
    # --- misfits ----------------------------------------------------------------
    R = [[F(1, 4), F(-1, 2), F(0)], [F(-1, 4), F(1, 8), F(1, 2)], [F(1, 8), F(1, 8), F(-1, 4)]]
    cols = ["u", "v", "w"]
    w = [F(1, 2), F(1, 4), F(1, 4)]
    k = 0
    for kind in ("series", "frame", "mapping"):
        for ww, wl in ((w, ["u", "v", "q"]), (w[:2], ["u", "v"]), (w + [F(1, 8)], ["u", "v", "w", "x"]), (w[:1], ["w"])):
            k += 1
            evs = [lambda ww=ww, wl=wl, kind=kind: run_pnl(R, cols, [ww], wl, ["core"], kind, 1)]
            if kind != "mapping":
                evs.append(lambda ww=ww, wl=wl, kind=kind: run_report(R, cols, ww, wl, kind, None, F(3, 4), False, 1))
            for i, e in enumerate(evs):
                out.append(ctx.run_session(f"bad-{k}-{i}", {}, lambda: [e()]))
    for kind in ("vector", "list", "matrix"):
        for ww in (w[:2], w + [F(1, 8)]):
            for cc in (cols, None):
                k += 1
                out.append(ctx.run_session(f"bad-{k}-0", {}, lambda: [run_pnl(R, cc, [ww], cols, ["core"], kind, 1)]))
                out.append(ctx.run_session(f"bad-{k}-1", {}, lambda: [run_report(R, cc, ww, cols, kind, None, F(3, 4), False, 1)]))
    for c in (0.0, 1.0, -0.5, 1.5, 95.0, NAN):
        k += 1
        out.append(ctx.run_session(f"bad-{k}", {}, lambda: [run_report(R, cols, w, cols, "series", None, c, False, 1)]))
    for pp in ([F(1)], [F(1, 2)] * 2, [F(1, 4)] * 4, [F(-1, 4), F(1, 2), F(3, 4)], [0, 0, 0], [NAN, 0.5, 0.5], [float("inf"), 0, 0]):
        for f in (0, 1, 2, 3):
            k += 1
            out.append(ctx.run_session(f"bad-{k}", {}, lambda: [run_report(R, cols, w, cols, "series", pp, F(3, 4), False, f)]))
    for bad in (np.full((3, 2), 0.25), pd.DataFrame(np.full((3, 2), 0.25), index=cols)):
        k += 1
        out.append(ctx.run_session(f"bad-{k}", {}, lambda: [run_report(R, cols, w, cols, "series", None, F(3, 4), False, 1, junk=True, wa=bad)]))
    ctx.validate("PathsTrace", out)
    figs = ("return", "volatility", "var", "cvar", "effective-scenarios")
    ctx.required_clauses = {f"{a}-{b}" for a in ("report", "horizon") for b in figs} | {
        "misfits-rejected", "inputs-unchanged", "profit-is-the-product", "one-profit-per-scenario", "profit-keeps-labels", "confidence-named",
        "one-row-per-horizon", "horizon-moves-are-sums", "as-many-scenarios-as-asked", "drawdown-mean", "drawdown-median", "drawdown-quantile",
        "drawdown-worst", "drawdown-ordered"}
    return ctx.finish(assumptions=["drawdown quantiles may be any value between the neighbouring order statistics",
                                   "drawdown figures are judged on the paths simulate_paths returns for the same seed (J01 judges those)"])


# --------------------------------------------------------------- J01 events
def as_history(X, kind, cols):
    if kind == "frame":
        return pd.DataFrame(X, columns=cols)
    if kind == "series":
        return pd.Series(X[:, 0], name="drv")
    if kind == "flat":
        return X[:, 0].copy()
    return X.copy()


def price_fn(f):
    if f["k"] == "exp":
        return pj.reprice_exp
    kw = {}
    if f["theta"]:
        kw["theta"], kw["tau"] = f["theta"], f["tau"]
    if f["delta"]:
        kw["delta"] = f["delta"]
    if f["gamma"]:
        kw["gamma"] = f["gamma"]
    return lambda dy: pj.reprice_taylor(dy, **kw)


def price_log(f):
    return {"k": f["k"], **{a: q(float(f[a])) for a in ("theta", "tau", "delta", "gamma")}}


def gen_price(rng):
    return {"k": rng.choice(["exp", "taylor", "taylor"]), "theta": rng.choice([0, -0.5, 2.0]), "tau": rng.choice([0.25, 1.0]),
            "delta": rng.choice([0, 1.0, -7.0, 0.5]), "gamma": rng.choice([0, 50.0, 2.0])}


def two_d(v, n):
    a = np.asarray(v, dtype=float)
    return a.reshape(len(a), -1) if a.ndim >= 1 and len(a) else np.zeros((0, 0))


def run_project(H, kind, cols, p, h, n, seed, f, form, junk=False, fn=pj.project_scenarios):
    X = fl(H)
    ra = as_history(X, kind, cols)
    pa = masses(p, form)
    kw = {"investment_horizon": h, "n_simulations": n, "seed": seed}
    if pa is not None:
        kw["p"] = pa
    b = snap(ra, pa)
    k, v, exc = call(fn, ra, **kw)
    hl = int(h) if isinstance(h, (int, float)) and h == h and abs(h) < 1e6 else 1
    base = {"op": "project", "H": qm(X), "p": given(p), "h": max(hl, 1), "n": n, "junk": bool(junk), "f": price_log(f)}
    if k == "err":
        return {**base, "same": b == snap(ra, pa), "again": False, "structure": False, "out": err(exc, M=[], P=[])}
    v2 = fn(ra, **kw)
    P = fn(ra, reprice=price_fn(f), **kw)
    st = {"frame": lambda a: isinstance(a, pd.DataFrame) and list(a.columns) == cols and len(a) == n,
          "series": lambda a: isinstance(a, pd.Series) and a.name == "drv" and len(a) == n,
          "flat": lambda a: isinstance(a, np.ndarray) and a.shape == (n,),
          "array": lambda a: isinstance(a, np.ndarray) and a.shape == (n, X.shape[1])}[kind]
    return {**base, "same": b == snap(ra, pa), "again": bool(np.array_equal(np.asarray(v), np.asarray(v2))), "structure": bool(st(v) and st(P)),
            "out": {"k": "ok", "mro": [], "M": qm(two_d(v, n)), "P": qm(two_d(P, n))}}


def run_tally(H, p, h, n, seed, form):
    X = fl(H)
    kw = {} if p is None else {"p": masses(p, form)}
    k, v, exc = call(pj.project_scenarios, X, investment_horizon=h, n_simulations=n, seed=seed, **kw)
    base = {"op": "tally", "H": qm(X), "p": given(p), "h": h, "n": n}
    if k == "err":
        return {**base, "vals": [], "counts": [], "out": err(exc)}
    c = Counter(tuple(r) for r in np.asarray(v).tolist())
    return {**base, "vals": [qv(list(a)) for a in c], "counts": list(c.values()), "out": {"k": "ok", "mro": []}}


def run_paths(H, kind, cols, p, h, n, seed, f, form, junk=False):
    X = fl(H)
    ra = as_history(X, kind, cols)
    if kind == "array" and form % 3 == 0 and np.all(X == np.round(X)):
        ra = X.astype(int)
    pa = masses(p, form)
    kw = {"horizon": h, "n_paths": n, "seed": seed}
    if pa is not None:
        kw["p"] = pa
    b = snap(ra, pa)
    k, v, exc = call(pj.simulate_paths, ra, **kw)
    base = {"op": "paths", "H": qm(X), "p": given(p), "h": h, "n": n, "junk": bool(junk), "f": price_log(f), "same": b == snap(ra, pa)}
    if k == "err":
        return {**base, "again": False, "out": err(exc, M=[], P=[])}
    v2 = pj.simulate_paths(ra, **kw)
    P = pj.simulate_paths(ra, reprice=price_fn(f), **kw)
    return {**base, "again": bool(np.array_equal(v, v2)), "same": b == snap(ra, pa),
            "out": {"k": "ok", "mro": [], "M": [qm(a) for a in v], "P": [qm(a) for a in P]}}


def run_pairs(H, p, n, seed, form, a, b, h):
    """Joint tally of the draws at steps a and b of h-step paths."""
    X = fl(H)
    kw = {} if p is None else {"p": masses(p, form)}
    k, v, exc = call(pj.simulate_paths, X, horizon=h, n_paths=n, seed=seed, **kw)
    base = {"op": "pairs", "H": qm(X), "p": given(p), "n": n}
    if k == "err":
        return {**base, "pairs": [], "counts": [], "out": err(exc)}
    inc = np.diff(np.concatenate([np.zeros((n, 1, X.shape[1])), np.asarray(v)], axis=1), axis=1)
    ix = {tuple(r): i + 1 for i, r in enumerate(X.tolist())}
    c = Counter((ix.get(tuple(inc[i, a].tolist()), 0), ix.get(tuple(inc[i, b].tolist()), 0)) for i in range(n))
    return {**base, "pairs": [list(x) for x in c], "counts": list(c.values()), "out": {"k": "ok", "mro": []}}


def lab_pair(mu, C, labs):
    return (pd.Series(mu, index=labs), pd.DataFrame(C, index=labs, columns=labs)) if labs else (mu, C)


def kept(m, C, labs):
    if not labs:
        return isinstance(m, np.ndarray) and isinstance(C, np.ndarray)
    return isinstance(m, pd.Series) and isinstance(C, pd.DataFrame) and list(m.index) == labs and list(C.index) == labs and list(C.columns) == labs


def run_scale(mu, C, labs, f):
    m0, C0 = lab_pair(mu, C, labs)
    b = snap(m0, C0)
    k, v, exc = call(pj.project_mean_covariance, m0, C0, f)
    sc = float(max(1, np.abs(mu).max(), np.abs(C).max()) * max(1, abs(f)))
    base = {"op": "scale", "mu": qv(mu), "cov": qm(C), "f": q(float(f)), "sc": q(sc), "same": b == snap(m0, C0)}
    if k == "err":
        return {**base, "structure": False, "out": err(exc, mu=[], cov=[])}
    return {**base, "structure": bool(kept(*v, labs)), "out": {"k": "ok", "mro": [], "mu": qv(np.asarray(v[0])), "cov": qm(np.asarray(v[1]))}}


def run_convert(x, to_log, shape):
    a = np.asarray(x, dtype=float).reshape(shape)
    f, g = pj.convert_scenarios_compound_to_simple, pj.convert_scenarios_simple_to_compound
    if to_log:
        f, g = g, f
    b = snap(a)
    k, v, exc = call(f, a)
    base = {"op": "convert", "dir": "tolog" if to_log else "tosimple", "x": qv(a.reshape(-1)), "same": b == snap(a)}
    if k == "err":
        return {**base, "out": err(exc, y=[], back=[])}
    k2, w, exc = call(g, v)
    return {**base, "same": b == snap(a), "out": {"k": "ok" if k2 == "ok" else "odd", "mro": [], "y": qv(np.asarray(v).reshape(-1)),
                                                  "back": qv(np.asarray(w).reshape(-1)) if k2 == "ok" else []}}


def run_moments(mu, C, labs, to_log):
    m0, C0 = lab_pair(mu, C, labs)
    f, g = (pj.simple2log, pj.log2simple) if to_log else (pj.log2simple, pj.simple2log)
    b = snap(m0, C0)
    k, v, exc = call(f, m0, C0)
    base = {"op": "moments", "dir": "tolog" if to_log else "tosimple", "mu": qv(mu), "cov": qm(C), "same": b == snap(m0, C0)}
    z = {"mu": [], "cov": [], "bmu": [], "bcov": []}
    if k == "err":
        return {**base, "structure": False, "out": err(exc, **z)}
    k2, w, exc = call(g, *v)
    if k2 == "err":
        return {**base, "structure": False, "out": {"k": "odd", "mro": [], **z}}
    return {**base, "same": b == snap(m0, C0), "structure": bool(kept(*v, labs)),
            "out": {"k": "ok", "mro": [], "mu": qv(np.asarray(v[0])), "cov": qm(np.asarray(v[1])), "bmu": qv(np.asarray(w[0])), "bcov": qm(np.asarray(w[1]))}}


def run_reprice(Y, cols, inst, junk=None):
    """inst: name -> (drivers, how, price); how: plain callable / single name / list of names."""
    Yf = fl(Y)
    spec, lg = {}, []
    for nm, (ds, how, f) in inst.items():
        if how == "plain":
            spec[nm] = price_fn(f)
        elif len(ds) == 1:
            spec[nm] = (ds[0] if how == "name" else [ds[0]], price_fn(f))
        else:
            spec[nm] = (list(ds), lambda dy, f=f: f["delta"] * (np.asarray(dy) @ np.arange(1.0, np.shape(dy)[1] + 1)))
        lg.append({"d": [cols.index(d) + 1 for d in ds] if not junk else [1], "f": price_log(f)})
    if junk:
        spec = junk(spec)
    b = snap(Yf)

    def go():
        fn, names = pj.compose_repricers(spec, cols)
        return fn(Yf), names
    k, v, exc = call(go)
    out = err(exc, M=[], names=[]) if k == "err" else {"k": "ok", "mro": [], "M": qm(np.asarray(v[0])), "names": [str(x) for x in v[1]]}
    return {"op": "reprice", "Y": qm(Yf), "names": list(inst), "inst": lg, "junk": bool(junk), "same": b == snap(Yf), "out": out}


def run_inst_paths(H, cols, inst, h, n, seed):
    X = fl(H)
    spec = {nm: (list(ds), price_fn(f) if len(ds) == 1 else (lambda dy, f=f: f["delta"] * (np.asarray(dy) @ np.arange(1.0, np.shape(dy)[1] + 1)))) for nm, (ds, f) in inst.items()}
    fn, _ = pj.compose_repricers(spec, cols)
    b = snap(X)
    k, v, exc = call(pj.simulate_paths, X, horizon=h, n_paths=n, seed=seed, reprice=fn)
    base = {"op": "instpaths", "inst": [{"d": [cols.index(d) + 1 for d in ds], "f": price_log(f)} for ds, f in inst.values()], "same": b == snap(X)}
    if k == "err":
        return {**base, "out": err(exc, M=[], P=[])}
    M = pj.simulate_paths(X, horizon=h, n_paths=n, seed=seed)
    return {**base, "out": {"k": "ok", "mro": [], "M": [qm(a) for a in M], "P": [qm(np.atleast_2d(a)) for a in v]}}


def run_full(Y, y0, face, mat):
    Yf, y = fl(Y), vec(y0)
    b = snap(Yf, y)
    k, v, exc = call(lambda: pj.make_repricing_fn(lambda z: face * np.exp(-np.asarray(z) * mat), y)(Yf))
    out = err(exc, M=[]) if k == "err" else {"k": "ok", "mro": [], "M": qm(np.asarray(v))}
    return {"op": "full", "Y": qm(Yf), "y0": qv(y), "face": q(float(face)), "mat": q(float(mat)), "same": b == snap(Yf, y), "out": out}


def distinct_rows(rng, T, N, d=32):
    rows = []
    while len(rows) < T:
        r = [F(rng.randint(-16, 16), d) for _ in range(N)]
        if r not in rows:
            rows.append(r)
    return rows


def projection(ctx):
    rng = ctx.rng("proj")
    out = []
    recs = ctx.model_check("PathsMC", "PathsMC5" if ctx.thorough else "PathsMC3")
    seen = {repr(r): r for r in recs}
    PL = {"k": "taylor", "theta": 0, "tau": 1.0, "delta": 1.0, "gamma": 0}
    for k, r in enumerate(seen.values()):
        H = [[F(str(x)) for x in row] for row in r["H"]]
        p = [F(str(x)) for x in r["p"]]

        def run():
            evs = []
            for h in (1, 2, 3):
                evs.append(run_project(H, "frame" if k % 2 else "array", ["u", "v"], p, h, 12, k + h, gen_price(rng), k))
                evs.append(run_paths(H, "frame" if k % 2 else "array", ["u", "v"], p, h, 8, k + h, gen_price(rng), k))
            return evs
        out.append(ctx.run_session(f"mc-{k}", {}, run))
    for k in range(ctx.n(200, 2000)):
        T, N = rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3])
        whole = rng.random() < 0.2
        H = [[F(rng.randint(-16, 16), 1 if whole else 64) for _ in range(N)] for _ in range(T)]
        kind = rng.choice(["frame", "array"] + (["series", "flat"] if N == 1 else []))
        p = None if rng.random() < 0.3 else gen_masses(rng, T, True)
        if p and rng.random() < 0.3:                  # one scenario barely possible, the others impossible or not
            p = [F(0)] * T
            p[rng.randrange(T)] = F(1)
        h = rng.choice([1, 2, 3, 4] if T <= 4 else [1, 2, 3])
        n = rng.choice([1, 3, 10, 25])
        f = gen_price(rng)
        if whole and f["k"] == "exp":
            f = dict(f, k="taylor", delta=0.5)
        sd = rng.choice([0, 1, rng.randrange(10 ** 6)])
        hh = float(h) if rng.random() < 0.1 else h
        out.append(ctx.run_session(f"proj-{k}", {}, lambda: [run_project(H, kind, POOL[:N], p, hh, n, sd, f, k)]))
        out.append(ctx.run_session(f"path-{k}", {}, lambda: [run_paths(H, kind, POOL[:N], p, h, n, sd, f, k)]))
    if True:        # masses that are only nearly normalised are usable
        H = distinct_rows(rng, 3, 2)
        for j, pp in enumerate([[0.333333, 0.333333, 0.333333], [0.2000001, 0.3, 0.5], [0.25, 0.25, 0.499996], [2.0, 1.0, 1.0], [1e-9, 1e-9, 2e-9]]):
            out.append(ctx.run_session(f"near-{j}", {}, lambda: [run_project(H, "array", None, pp, 2, 10, 3, PL, j), run_paths(H, "array", None, pp, 2, 10, 3, PL, j)]))
    for k in range(ctx.n(40, 300)):
        T, N = rng.choice([2, 3, 4]), rng.choice([1, 2])
        H = distinct_rows(rng, T, N)
        p = None if rng.random() < 0.3 else [F(x) for x in rng.choice([[1, 1, 2, 4], [3, 1, 0, 4], [1, 2, 3, 2], [0, 1, 1, 0]])[:T]]
        h = rng.choice([1, 2, 2, 3])
        out.append(ctx.run_session(f"tally-{k}", {}, lambda: [run_tally(H, p, h, 4000, rng.randrange(10 ** 6), k)]))
        hp = rng.choice([2, 3, 4])
        a, b = sorted(rng.sample(range(hp), 2))
        out.append(ctx.run_session(f"pairs-{k}", {}, lambda: [run_pairs(H, p, 4000, rng.randrange(10 ** 6), k, a, b, hp)]))
    H = distinct_rows(rng, 3, 2)
    k = 0
    for pp in ([F(1)], [F(1, 2)] * 2, [F(1, 4)] * 4, [F(-1, 4), F(1, 2), F(3, 4)], [0, 0, 0], [NAN, 0.5, 0.5], [float("inf"), 0, 0]):
        for f in range(3):
            k += 1
            out.append(ctx.run_session(f"badp-{k}", {}, lambda: [run_project(H, ["array", "frame"][f % 2], ["u", "v"], pp, 2, 5, 1, PL, f)]))
            out.append(ctx.run_session(f"badq-{k}", {}, lambda: [run_paths(H, ["array", "frame"][f % 2], ["u", "v"], pp, 2, 5, 1, PL, f)]))
    for j, (h, n) in enumerate([(0, 5), (-1, 5), (2, 0), (2, -3), (0.4, 5)]):
        out.append(ctx.run_session(f"badh-{j}", {}, lambda: [run_project(H, "array", None, None, h, n, 1, PL, 0, junk=True)]))
    for k in range(ctx.n(60, 400)):
        N = rng.choice([1, 2, 3, 4])
        nr = np.random.default_rng(rng.randrange(10 ** 9))
        mu = np.round(nr.normal(0, 0.1, N), 4)
        A = np.round(nr.normal(0, rng.choice([0.05, 0.3]), (N, N)), 3)
        C = A @ A.T
        C = (C + C.T) / 2
        labs = rng.sample(POOL, N) if rng.random() < 0.5 else None
        c = rng.random()
        muL = mu.copy()
        if c < 0.1:
            muL[rng.randrange(N)] = rng.choice([-1.0, -1.5, -3.0])
        # a simple-return pair that exists: image of a log pair
        with np.errstate(all="ignore"):
            m2 = np.exp(mu + np.diag(C) / 2) - 1
            C2 = np.outer(m2 + 1, m2 + 1) * (np.exp(C) - 1)
        if c < 0.1:
            m2 = m2.copy()
            m2[0] = muL.min()
        out.append(ctx.run_session(f"mom-{k}", {}, lambda: [
            run_scale(mu, C, labs, rng.choice([12, 252, 0.25, 1, 52.0])), run_moments(mu, C, labs, False), run_moments(m2, C2, labs, True)]))
        m = rng.choice([1, 4, 6])
        x = [rng.choice([0.0, 0.01, -0.02, 0.5, -0.9, 2.0, round(rng.gauss(0, 0.3), 4)]) for _ in range(m)]
        x = [max(v, -0.999) for v in x]
        if rng.random() < 0.15:
            x[0] = rng.choice([-1.0, -1.2])
        out.append(ctx.run_session(f"conv-{k}", {}, lambda: [run_convert(x, True, (m,)), run_convert([abs(v) if v <= -1 else v for v in x], False, (m, 1))]))
    for k in range(ctx.n(70, 500)):
        K, T = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 6])
        cols = rng.sample(["s", "y", "v", "u"], K)
        Y = [[F(rng.randint(-16, 16), 64) for _ in range(K)] for _ in range(T)]
        inst = {}
        for nm in rng.sample(["Stock", "Bond", "Call"], rng.choice([0, 1, 2, 3])):
            d = rng.sample(cols, rng.choice([1, 1, min(2, K), K]))
            f = gen_price(rng)
            if len(d) > 1:
                f = dict(f, k="taylor", delta=f["delta"] or 1.5)
            inst[nm] = (d, rng.choice(["name", "list"]), f)
        for c in rng.sample(cols, rng.choice([0, 1, K])):
            inst[c] = ([c], "plain", gen_price(rng))
        if not inst:
            inst = {cols[0]: ([cols[0]], "plain", PL)}
        items = list(inst.items())
        rng.shuffle(items)
        inst = dict(items)
        out.append(ctx.run_session(f"rep-{k}", {}, lambda: [run_reprice(Y, cols, inst)]))
        y0 = [F(rng.randint(0, 8), 64) for _ in range(K)]
        ip = {}
        for nm in rng.sample(["Stock", "Bond", "Call", "Put"], rng.choice([1, 2, 4])):
            d = rng.sample(cols, rng.choice([1, 1, min(2, K)]))
            f = gen_price(rng)
            ip[nm] = (d, dict(f, k="taylor", delta=f["delta"] or 1.5) if len(d) > 1 else f)
        out.append(ctx.run_session(f"ipath-{k}", {}, lambda: [run_inst_paths(Y, cols, ip, rng.choice([1, 2, 3]), rng.choice([1, 2, 5]), k)]))
        out.append(ctx.run_session(f"full-{k}", {}, lambda: [run_full(Y, y0, rng.choice([100.0, 1.0, -5.0]), rng.choice([5.0, 0.5]))]))
    base = {"Stock": (["s"], "name", PL)}
    for k, j in enumerate([lambda s: {"Zed": price_fn(PL)}, lambda s: {"Stock": (["nope"], price_fn(PL))}, lambda s: {"Stock": ("nope", price_fn(PL))},
                           lambda s: {"Stock": (["s"], 3.0)}, lambda s: {"Stock": 3.0}, lambda s: {"Stock": (["s"], price_fn(PL), 1)},
                           lambda s: {"Stock": "s"}, lambda s: {**s, "Q": (["s", "nope"], price_fn(PL))}]):
        out.append(ctx.run_session(f"badrep-{k}", {}, lambda: [run_reprice([[F(1, 8), F(1, 4)]], ["s", "y"], base, junk=j)]))
    ctx.validate("PathsTrace", out)
    ctx.required_clauses = {"misfits-rejected", "inputs-unchanged", "moves-are-sums-of-history", "as-many-scenarios-as-asked", "same-seed-same-scenarios",
                            "structure-kept", "repriced-elementwise", "frequencies-follow-the-probabilities", "paths-shape", "paths-are-running-totals",
                            "paths-repriced-elementwise", "steps-are-independent", "moments-scale-with-the-horizon", "conversion", "conversion-undone",
                            "moment-conversion", "moment-conversion-undone", "paths-priced-by-instrument", "one-column-per-instrument", "own-pricing-own-drivers", "full-repricing"}
    return ctx.finish(assumptions=["frequencies are judged within six standard deviations of 4000 draws",
                                   "moment conversions are judged on pairs for which the logarithms exist"])
