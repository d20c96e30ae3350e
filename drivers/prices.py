"""Driver of price conversion and distribution building (spec/Prices.tla, PricesMC, PricesTrace)."""
import warnings
from fractions import Fraction as F

import numpy as np
import pandas as pd

from drivers.moments import as_mat, as_vec, mat, spd
from drivers.paths import gen_price, price_fn, price_log
from drivers.stress import snap, vec
from vkit import call, mro, q, qm, qv, size
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper
from pyvallocation.utils.data_helpers import numpy_weights_to_pandas_series, pandas_to_numpy_returns

NAN, INF = float("nan"), float("inf")
NOD = {"mu": [], "cov": [], "R": [], "p": [], "names": [], "N": 0, "T": -1}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call(fn, *a, **k)


def opt(x, f):
    return [] if x is None else [f(x)]


def held(r):
    k, v, exc = r
    if k == "err":
        return {"k": "err", "mro": mro(exc), "d": NOD}
    d = v.dist if isinstance(v, PortfolioWrapper) else v
    return {"k": "ok", "mro": [], "d": content(d)}


def content(d):
    return {"mu": opt(d.mu, lambda x: qv(np.asarray(x, dtype=float))), "cov": opt(d.cov, lambda x: qm(np.asarray(x, dtype=float))),
            "R": opt(d.scenarios, lambda x: qm(np.asarray(x, dtype=float))), "p": opt(d.probabilities, lambda x: qv(np.asarray(x, dtype=float))),
            "names": [] if d.asset_names is None else [str(x) for x in d.asset_names], "N": int(d.N), "T": -1 if d.T is None else int(d.T)}


def spoil(*xs):
    """Overwrite in place everything the caller still holds."""
    for x in xs:
        if isinstance(x, (pd.Series, pd.DataFrame)):
            try:
                a = x.to_numpy(copy=False)
                a.flags.writeable and a.fill(77.0)
                x.iloc[:] = 99.0
            except Exception:
                pass
        elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
            x[...] = 99.0
        elif isinstance(x, list):
            x[:] = ["zz"] * len(x)


def stays(r, *xs):
    if r[0] == "err":
        return True
    d = r[1].dist if isinstance(r[1], PortfolioWrapper) else r[1]
    b = content(d)
    spoil(*xs)
    return content(d) == b


def enc(x, f):
    """<<>> / <<value>>; ragged or non-finite entries travel as text."""
    return [] if x is None else [f(np.asarray(x, dtype=float))]


def pform(p, form):
    if p is None:
        return None
    v = np.array([float(x) for x in p])
    return [v, v.tolist(), pd.Series(v), v.reshape(-1, 1), pd.Series(v, index=[f"s{i}" for i in range(len(v))])][form % 5]


def dist_event(mu, cov, X, p, names, where, form, via="dist", kind="simple"):
    """where: subset of {'mu','cov','R','arg'} carrying labels; names: dict of label lists."""
    labs = []
    m = c = R = None
    if mu is not None:
        m = pd.Series(mu, index=names["mu"]) if "mu" in where else np.array(mu, dtype=float)
    if cov is not None:
        c = pd.DataFrame(cov, index=names["cov"], columns=names.get("covc", names["cov"])) if "cov" in where else np.array(cov, dtype=float)
    if X is not None:
        R = pd.DataFrame(X, columns=names["R"]) if "R" in where else np.array(X, dtype=float)
    if form % 4 == 0:
        m = m.tolist() if isinstance(m, np.ndarray) else m
        R = R.tolist() if isinstance(R, np.ndarray) else R
    if via == "moments" and form % 4 == 0 and isinstance(c, np.ndarray):
        c = c.tolist()
    for k in ("mu", "cov", "R", "arg"):
        if k in where:
            labs.append([str(x) for x in names[k]])
            if k == "cov" and "covc" in names:
                labs.append([str(x) for x in names["covc"]])
    pa = pform(p, form)
    arg = list(names["arg"]) if "arg" in where else None
    b = snap(m, c, R, pa, arg)
    if via == "dist":
        kw = {k: v for k, v in (("mu", m), ("cov", c), ("scenarios", R), ("probabilities", pa), ("asset_names", arg)) if v is not None}
        r = quiet(AssetsDistribution, **kw)
    elif via == "scenarios":
        kw = {} if pa is None else {"probabilities": pa}
        if kind == "log":
            kw["return_type"] = "log"
        r = quiet(PortfolioWrapper.from_scenarios, R, **kw)
    else:
        r = quiet(PortfolioWrapper.from_moments, m, c, **({"return_type": kind} if kind == "log" or form % 2 else {}))
    same = b == snap(m, c, R, pa, arg)
    out = held(r)
    base = {"op": via, "a": {"mu": enc(mu, qv), "cov": enc(cov, qm), "R": enc(X, qm), "p": enc(p, qv)}, "labs": labs, "kind": kind, "same": same}
    return {**base, "kept": stays(r, m, c, R, pa, arg), "out": out}


def price_event(P, cols, form):
    A = np.array([[float(x) for x in r] for r in P], dtype=float).reshape(len(P), -1)
    whole = bool(np.all(np.isfinite(A)) and np.all(A == np.round(A)))
    if cols:
        a = pd.DataFrame(A.astype(int) if whole and form % 3 == 0 else A, columns=cols,
                         index=pd.date_range("2024-01-01", periods=len(A)) if form % 2 else None)
    else:
        a = A.astype(int) if whole and form % 3 == 0 else (A.tolist() if form % 3 == 1 else A.copy())
    b = snap(a)
    r = quiet(PortfolioWrapper.from_prices, a)
    out = held(r)
    return {"op": "prices", "P": qm(A), "labs": [cols] if cols else [], "same": b == snap(a), "kept": stays(r, a), "out": out}


def inv_event(H, cols, p, h, n, seed, inst, mode, form):
    """mode: 'default' (exp), 'call' one function for all, 'dict' per column, 'named' instruments on driver lists."""
    X = np.array([[float(x) for x in r] for r in H])
    ra = pd.DataFrame(X, columns=cols) if cols else X.copy()
    kw = {"horizon": h, "n_simulations": n, "seed": seed}
    labs = [cols] if cols else []
    log = [{"f": price_log(f), "on": [k + 1 for k in on]} for f, on in inst]
    if mode == "call":
        kw["reprice"] = price_fn(inst[0][0])
    elif mode == "dict":
        kw["reprice"] = {cols[on[0]]: price_fn(f) for f, on in inst}
        labs = [[cols[on[0]] for f, on in inst]]
    elif mode == "named":
        kw["reprice"] = {}
        for i, (f, on) in enumerate(inst):
            if len(on) == 1:
                fn = price_fn(f)
            else:
                def fn(dy, f=f):
                    dy = np.asarray(dy)
                    return f["delta"] * sum((k + 1) * dy[:, k] for k in range(dy.shape[1]))
            kw["reprice"][f"inst{i}"] = ([cols[k] for k in on] if len(on) > 1 or form % 2 else cols[on[0]], fn)
        labs = [[f"inst{i}" for i in range(len(inst))]]
    pa = pform(p, form)
    if pa is not None:
        kw["p"] = pa
    b = snap(ra, pa)
    r = quiet(PortfolioWrapper.from_invariants, ra, **kw)
    r2 = quiet(PortfolioWrapper.from_invariants, ra, **kw)
    same = b == snap(ra, pa)
    out = held(r)
    again = r[0] == r2[0] and (r[0] == "err" or content(r[1].dist) == content(r2[1].dist))
    return {"op": "invariants", "H": qm(X), "p": {"k": "none", "v": []} if p is None else {"k": "given", "v": qv(vec(p))}, "h": h, "n": n,
            "inst": log, "labs": labs, "again": bool(again), "same": same, "kept": stays(r, ra, pa), "out": out}


def posterior_event(mu, S, labels, h, form):
    s = S / 4
    post = RobustBayesPosterior(mu=as_vec(mu, labels, 1), sigma=as_mat(S, labels), s_mu=as_mat(s, labels))
    b = snap(post.mu, post.sigma, post.s_mu)
    r = quiet(PortfolioWrapper.from_robust_posterior, post, **({} if h == 1 and form % 2 else {"annualization_factor": h}))
    same = b == snap(post.mu, post.sigma, post.s_mu)
    out = held(r)
    return {"op": "posterior", "mu": qv(mu), "S": mat(S), "h": q(float(h)), "labs": [labels] if labels else [], "same": same,
            "kept": stays(r, post.mu, post.sigma, post.s_mu), "out": out}


def convert_event(P, kind, how, extra, form, bad=False):
    A = np.array([[NAN if x == "nan" else float(x) for x in r] for r in P])
    n = A.shape[1]
    cols = [f"c{i}" for i in range(n)]
    df = pd.DataFrame(A, columns=cols)
    kw = {}
    if how != "ffill" or form % 2:
        kw["fill_na_method"] = how
    if kind != "log" or form % 2:
        kw["return_calculation_method"] = kind
    if "text" in extra:
        df["note"] = [f"t{i}" for i in range(len(df))]
    if "date" in extra:
        days = [str(d.date()) for d in pd.date_range("2024-01-20", periods=len(df))]
        df["day"] = days[::-1] if form % 2 else days
        kw["date_column"] = "day"
    if "pick" in extra:
        order = list(range(n))[::-1]
        kw["price_columns"] = [cols[i] for i in order]
        A = A[:, order]
    if "missing" in extra:
        kw["price_columns"] = ["zz"]
    if "nodate" in extra:
        kw["date_column"] = "zz"
    b = snap(df)
    arg = df if "array" not in extra else A
    k, v, exc = quiet(pandas_to_numpy_returns, arg, **kw)
    M = np.asarray(v, dtype=float) if k == "ok" else None
    return {"op": "convert", "P": qm(A), "kind": kind, "how": how, "bad": bad, "same": b == snap(df),
            "out": {"k": k if k == "err" else ("ok" if isinstance(v, np.ndarray) and v.ndim == 2 else "odd"), "mro": mro(exc) if k == "err" else [],
                    "M": qm(M) if M is not None and M.ndim == 2 else []}}


def series_event(w, names, bad=False, raw=None):
    a = np.array(w, dtype=float) if raw is None else raw
    b = snap(a)
    k, v, exc = quiet(numpy_weights_to_pandas_series, a, names)
    ok = k == "ok" and isinstance(v, pd.Series)
    return {"op": "series", "w": qv(np.array(w, dtype=float)), "names": [str(x) for x in names], "bad": bad, "same": b == snap(a),
            "out": {"k": k, "mro": mro(exc) if k == "err" else [], "w": qv(v.to_numpy()) if ok else [], "idx": [str(x) for x in v.index] if ok else []}}


def gen_masses(rng, T):
    m = [F(rng.choice([0, 1, 1, 2, 3, 8]), 8) for _ in range(T)]
    if sum(m) == 0:
        m[rng.randrange(T)] = F(1)
    return m


def check(ctx):
    em = ctx.model_check("PricesMC", "PricesMC4" if ctx.thorough else "PricesMC")
    rng = ctx.rng(8)
    rng.shuffle(em)
    out = []

    def go(name, f, t=60):
        out.append(ctx.run_session(name, {}, lambda: [f()], timeout=t))

    for i, c in enumerate(em[:ctx.n(160, 1500)]):
        P = c["P"]
        go(f"gaps-{i}", lambda: convert_event([["nan" if x == "nan" else float(F(x)) for x in r] for r in P], rng.choice(["log", "simple"]),
                                              rng.choice(["ffill", "bfill", "zero", "drop"]), rng.sample(["text", "date", "pick"], rng.randint(0, 3)), i))
        go(f"model-{i}", lambda: price_event([[NAN if x == "nan" else float(F(x)) for x in r] for r in P], ["u", "v"] if i % 2 else [], i))
    for i in range(ctx.n(80, 400)):
        n = size(rng, [1, 2, 3, 4], [11, 12])
        T = size(rng, [1, 2, 3, 5, 8], [70, 130], 0.02)
        P = [[rng.choice([rng.uniform(0.5, 200), float(rng.randint(1, 9))]) for _ in range(n)] for _ in range(T)]
        if rng.random() < 0.4:
            P[rng.randrange(T)][rng.randrange(n)] = rng.choice([NAN, 0.0, -1.0, INF, -INF, 0.0, 1e-5, -0.0])
        L = [f"n{(3 * k + i) % 7}{k}" for k in range(n)]
        go(f"prices-{i}", lambda: price_event(P, L if rng.random() < 0.5 else [], i))
        for j in (0, 1):
            how = rng.choice(["ffill", "bfill", "zero", "drop", "drop"])
            gap = rng.choice([0.1, 0.25])
            Q = [["nan" if rng.random() < gap else rng.uniform(0.5, 200) for _ in range(n)] for _ in range(T)]
            go(f"convert-{i}-{j}", lambda: convert_event(Q, rng.choice(["log", "simple"]), how, rng.sample(["text", "date", "pick"], rng.randint(0, 3)), i))
    # distributions from every combination of inputs
    for i in range(ctx.n(260, 1200)):
        n = size(rng, [1, 2, 2, 3, 3, 4], [11, 12])
        T = size(rng, [1, 2, 3, 5], [40, 120])
        L = [f"a{(5 * k + i) % 9}{k}" for k in range(n)]
        via = rng.choice(["dist", "dist", "scenarios", "moments", "moments"])
        kind = rng.choice(["simple", "simple", "log"]) if via != "dist" else "simple"
        mu = [F(rng.randint(-8, 8), 32) for _ in range(n)]
        cov = spd(rng, n) / 8
        X = [[F(rng.randint(-12, 16), 16) for _ in range(n)] for _ in range(T)]
        p = gen_masses(rng, T) if rng.random() < 0.6 else None
        if via == "scenarios":
            mu = cov = None
        elif via == "moments":
            X = p = None
        else:
            keep = rng.choice(["mc", "R", "R", "mR", "cR", "mcR", "mcR"])
            mu, cov, X = mu if "m" in keep else None, cov if "c" in keep else None, X if "R" in keep else None
            if X is None:
                p = None
        names = {k: list(L) for k in ("mu", "cov", "R", "arg")}
        where = {k for k in ("mu", "cov", "R") + (("arg",) if via == "dist" else ()) if rng.random() < 0.5}
        where &= {k for k, v in (("mu", mu), ("cov", cov), ("R", X)) if v is not None} | {"arg"}
        mu = None if mu is None else np.array([float(x) for x in mu])
        X = None if X is None else np.array([[float(x) for x in r] for r in X])
        trouble = rng.random()
        if trouble < 0.5:
            t = rng.choice(["label", "labelcols", "nan-mu", "nan-cov", "inf-R", "nan-R", "neg-p", "nan-p", "len-p", "zero-p", "len-mu", "shape-cov", "names-len", "swap",
                            "indefinite", "asym", "inf-p"])
            if t in ("label", "swap") and where and n > 1:
                k = rng.choice(sorted(where))
                names[k] = L[::-1] if t == "swap" else L[:-1] + ["zz"]
            if t == "labelcols" and "cov" in where and n > 1:
                names["covc"] = L[::-1]
            if t == "nan-mu" and mu is not None:
                mu[rng.randrange(n)] = rng.choice([NAN, INF])
            if t == "nan-cov" and cov is not None:
                k = rng.randrange(n)
                cov[k, k] = rng.choice([NAN, INF])
            if t in ("inf-R", "nan-R") and X is not None:
                X[rng.randrange(T), rng.randrange(n)] = INF if t == "inf-R" else NAN
            if X is not None:
                z = {"neg-p": [F(-1, 2)] + [F(1)] * (T - 1), "nan-p": [NAN] + [1.0] * (T - 1), "len-p": [F(1)] * (T + 1), "zero-p": [F(0)] * T,
                     "inf-p": [INF] + [1.0] * (T - 1)}
                p = z.get(t, p)
            if t == "len-mu" and mu is not None and (cov is not None or X is not None):
                mu = np.append(mu, 0.5)
                where.discard("mu")
            if t == "shape-cov" and cov is not None:
                cov = cov[:, :-1] if rng.random() < 0.5 and n > 1 else np.eye(n + 1)
                where.discard("cov")
            if t == "names-len" and "arg" in where:
                names["arg"] = L + ["extra"]
            if t == "indefinite" and cov is not None and via == "moments":
                cov = cov - 0.5 * np.eye(n)
            if t == "asym" and cov is not None and via == "moments" and n > 1:
                cov[0, 1] += 0.03125
        go(f"build-{i}", lambda: dist_event(mu, cov, X, p, names, where, i, via, kind))
    for i, C in enumerate([[[1.0, 2.0], [2.0, 1.0]], [[0.0, 0.5], [0.5, 0.0]], [[2.0, 1.0], [1.0, 0.25]], [[0.25, -0.5], [-0.5, 0.5]]]):
        go(f"repair-{i}", lambda: dist_event(np.array([0.125, 0.25]), np.array(C), None, None, {k: ["u", "v"] for k in ("mu", "cov", "R", "arg")},
                                             [set(), {"cov"}, {"mu"}, {"mu", "cov"}][i], i, "moments", "simple"))
    for i, (m, C) in enumerate([([0.125], np.eye(2)), ([0.125, 0.25], [[0.5]]), ([0.125], np.eye(3)), ([0.125, 0.25, 0.5], [[0.5]])]):
        for kd in ("log", "simple"):
            go(f"sizes-{i}-{kd}", lambda: dist_event(np.array(m), np.array(C), None, None, {k: list("uvw")[:len(C)] for k in ("mu", "cov", "R", "arg")},
                                                     set(), i, "moments", kd))
    for i, (a, k) in enumerate([({}, 0), ({"X": np.zeros((3, 0))}, 0), ({"X": np.zeros((0, 2))}, 0), ({"X": np.zeros((2, 2, 2))}, 0), ({"X": np.zeros(3)}, 0)]):
        r = quiet(AssetsDistribution, **({"scenarios": a["X"]} if a else {}))
        go(f"empty-{i}", lambda: {"op": "empty", "same": True, "out": {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else []}})
    for i, a in enumerate([np.ones((3, 2, 2)), np.ones(4), pd.Series([1.0, 2.0, 3.0]), np.ones((1, 3)), pd.DataFrame([[1.0, 2.0]]), np.ones((0, 2)),
                           pd.DataFrame({"a": ["1", "2"], "b": [1.0, 2.0]})]):
        r = quiet(PortfolioWrapper.from_prices, a)
        go(f"shape-{i}", lambda: {"op": "empty", "same": True, "out": {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else []}})
    # drivers projected and repriced; posteriors
    for i in range(ctx.n(50, 250)):
        T, K = rng.choice([2, 3, 4]), rng.choice([1, 2, 3])
        H = [[F(rng.randint(-8, 8), 64) for _ in range(K)] for _ in range(T)]
        cols = [f"y{(2 * k + i) % 5}{k}" for k in range(K)]
        mode = rng.choice(["default", "call", "dict", "named", "named"])
        n, h = rng.choice([1, 3, 12]), rng.choice([1, 1, 2, 3])
        if mode == "default":
            inst = [({"k": "exp", "theta": 0, "tau": 0, "delta": 0, "gamma": 0}, [k]) for k in range(K)]
        elif mode == "call":
            f = gen_price(rng)
            inst = [(f, [k]) for k in range(K)]
        elif mode == "dict":
            order = rng.sample(range(K), K)
            inst = [(gen_price(rng), [k]) for k in order]
        else:
            inst = []
            for _ in range(rng.randint(1, 4)):
                on = rng.sample(range(K), rng.randint(1, K))
                f = gen_price(rng)
                if len(on) > 1:
                    f = {"k": "taylor", "theta": 0, "tau": 0.25, "delta": rng.choice([0.5, 2.0]), "gamma": 0}
                inst.append((f, on))
        p = gen_masses(rng, T) if rng.random() < 0.6 else None
        if rng.random() < 0.1:
            p = rng.choice([[F(1)] * (T + 1), [F(-1)] + [F(2)] * (T - 1), [F(0)] * T])
        cc = cols if mode in ("dict", "named") or rng.random() < 0.5 else []
        go(f"drivers-{i}", lambda: inv_event(H, cc, p, h, n, rng.randint(0, 99), inst, mode, i))
        m = rng.choice([1, 2, 3])
        go(f"posterior-{i}", lambda: posterior_event([rng.randint(-8, 8) / 64 for _ in range(m)], spd(rng, m) / 4, [f"b{k}" for k in range(m)][::-1] if i % 2 else [],
                                                     rng.choice([1, 12, 52, 0.25]), i))
    # refusals of the converters
    G = [[1.0, 2.0], [2.0, 1.0], [4.0, 3.0]]
    go("conv-method", lambda: convert_event(G, "geometric", "ffill", [], 1, bad=True))
    go("conv-fill", lambda: convert_event(G, "log", "mean", [], 1, bad=True))
    go("conv-col", lambda: convert_event(G, "log", "ffill", ["missing"], 1, bad=True))
    go("conv-date", lambda: convert_event(G, "log", "ffill", ["nodate"], 1, bad=True))
    go("conv-array", lambda: convert_event(G, "log", "ffill", ["array"], 1, bad=True))
    for i, (w, nm, bad, raw) in enumerate([([0.5, 0.25], ["b", "a"], False, None), ([0.5], ["b", "a"], False, None), ([0.5, 0.5], ["b"], False, None),
                                           ([0.5, 0.5], ["b", 3], True, None), ([0.5, 0.5], ("b", "a"), True, None), ([0.5, 0.5], ["b", "a"], True, [0.5, 0.5]),
                                           ([0.5, 0.5], ["b", "a"], True, np.ones((2, 1))), ([1.0, -2.0, 0.0], ["z", "y", "x"], False, None)]):
        go(f"series-{i}", lambda: series_event(w, nm, bad, raw))
    ctx.validate("PricesTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "bad-data-rejected", "asset-count", "asset-names", "later-changes-do-not-reach-it", "scenarios-held",
                            "probabilities-held", "mean-held", "covariance-held", "indefinite-repaired", "scenarios-are-repriced-sums",
                            "same-seed-same-scenarios", "one-row-per-pair", "returns-as-filled", "weights-named"}
    return ctx.finish(assumptions=["a distribution given a mean or a covariance alone is left unjudged",
                                   "the price converter is judged on positive prices with gaps; it does not claim to validate prices"])
