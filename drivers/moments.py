"""Driver of the moment estimators (spec/Moments.tla, MomentsMC, MomentsTrace)."""
import itertools
from fractions import Fraction as F

import numpy as np
import pandas as pd

from drivers.stress import fl, snap, vec
from vkit import call, mro, q, qm, qv
from pyvallocation import moments as mo
from pyvallocation.utils.validation import ensure_psd_matrix

NAN = float("nan")
BLANK = {"v": [], "M": [], "idx": [], "cols": [], "mro": [], "B": [], "F": [], "bidx": [], "fidx": [], "P": [], "pidx": [], "pcols": []}


def lab(x, axis=0):
    if isinstance(x, pd.Series):
        return [str(a) for a in x.index]
    if isinstance(x, pd.DataFrame):
        return [str(a) for a in (x.index if axis == 0 else x.columns)]
    return []


def mat(x):
    a = np.asarray(x, dtype=float)
    return qm(a) if a.ndim == 2 else []


def out_of(r, kind):
    """kind: 'v' a mean, 'M' a covariance, 'vM' a pair."""
    k, v, exc = r
    if k == "err":
        return {"k": "err", **BLANK, "mro": mro(exc)}
    o = {"k": "ok", **BLANK}
    if kind == "vM":
        if not (isinstance(v, tuple) and len(v) == 2):
            return {**o, "k": "odd"}
        m, C = v
        o.update(v=qv(np.asarray(m, dtype=float)) if np.ndim(m) == 1 else [], M=mat(C), idx=lab(C), cols=lab(C, 1))
        if lab(m) != lab(C):
            o["idx"] = lab(m) + ["?"]
    elif kind == "v":
        o.update(v=qv(np.asarray(v, dtype=float)) if np.ndim(v) == 1 else [], idx=lab(v))
    else:
        o.update(M=mat(v), idx=lab(v), cols=lab(v, 1))
    return o


def as_sample(X, labels, form):
    if labels:
        dates = [f"d{i}" for i in range(len(X))] if form % 2 else list(range(len(X)))
        return pd.DataFrame(X, columns=labels, index=dates)
    return X.copy() if form % 3 else X.tolist()


def as_vec(v, labels, form=1):
    return pd.Series(v, index=labels) if labels and len(labels) == len(v) else (np.array(v, dtype=float) if form % 2 else list(map(float, v)))


def as_mat(M, labels):
    return pd.DataFrame(M, index=labels, columns=labels) if labels else np.array(M, dtype=float)


def names(n, on):
    return [f"A{(7 * i + 3) % 11}{i}" for i in range(n)] if on else []


# ------------------------------------------------------------------ events
def sample_event(X, labels, p, form, via):
    R = as_sample(X, labels, form)
    pa = None
    if p is not None:
        v = vec(p)
        pa = [v, v.tolist(), pd.Series(v), v.reshape(-1, 1), pd.Series(v, index=[f"s{i}" for i in range(len(v))])][form % 5]
    b = snap(R, pa)
    r = call(mo.estimate_sample_moments, R, pa) if via == "direct" else call(mo.estimate_moments, R, pa)
    return {"op": "sample", "X": qm(X), "p": {"k": "none", "v": []} if p is None else {"k": "given", "v": qv(vec(p))}, "labels": labels,
            "same": b == snap(R, pa), "out": out_of(r, "vM")}


def split(r, i):
    return (r[0], r[1][i], r[2]) if r[0] == "ok" and isinstance(r[1], tuple) else r


def jorion_event(mu, S, T, labels, form, r=None, same=True):
    if r is None:
        m, s = as_vec(mu, labels if form % 3 else [], form), as_mat(S, labels if form % 3 != 1 else [])
        if not (lab(m) or lab(s)):
            labels = []
        b = snap(m, s)
        r = call(mo.shrink_mean_jorion, m, s, T)
        same = b == snap(m, s)
    return {"op": "jorion", "mu": qv(mu), "S": mat(S), "T": T, "labels": labels, "same": same, "out": out_of(r, "v")}


def js_event(mu, S, T, labels, target, form, r=None, same=True):
    if r is None:
        m, s = as_vec(mu, labels if form % 3 else [], form), as_mat(S, labels if form % 3 != 1 else [])
        if not (lab(m) or lab(s)):
            labels = []
        kw = {} if target is None else {"target": target if isinstance(target, str) else as_vec(target, labels if form % 2 else [], form)}
        b = snap(m, s, *kw.values())
        r = call(mo.shrink_mean_james_stein, m, s, T, **kw)
        same = b == snap(m, s, *kw.values())
    if target is None or isinstance(target, str):
        tl = {"k": "grand" if target in (None, "grand_mean") else "odd", "v": []}
    else:
        tl = {"k": "given", "v": qv(target)}
    return {"op": "js", "mu": qv(mu), "S": mat(S), "T": T, "target": tl, "labels": labels, "same": same, "out": out_of(r, "v")}


def lw_event(X, S, labels, target, form, r=None, same=True):
    if r is None:
        R, s = as_sample(X, labels if form % 3 else [], form), as_mat(S, labels if form % 3 != 1 else [])
        if not (lab(R) or lab(s)):
            labels = []
        b = snap(R, s)
        r = call(mo.shrink_covariance_ledoit_wolf, R, s, **({} if target is None else {"target": target}))
        same = b == snap(R, s)
    return {"op": "lw", "X": qm(X), "S": mat(S), "target": target or "identity", "labels": labels, "same": same, "out": out_of(r, "M")}


def plain_event(op, X, labels, form, fn, kw, extra, kind="M", r=None):
    same = True
    if r is None:
        R = as_sample(X, labels, form)
        b = snap(R)
        r = call(fn, R, **kw)
        same = b == snap(R)
    return {"op": op, "X": qm(X), "labels": labels, "same": same, **extra, "out": out_of(r, kind)}


def oas_event(X, labels, centred, form, r=None):
    kw = {} if centred and form % 2 else {"assume_centered": centred}
    return plain_event("oas", X, labels, form, mo.shrink_covariance_oas, kw, {"centred": centred}, r=r)


def ewma_event(X, labels, span, minp, form, r=None):
    kw = {"span": span}
    if minp != 1 or form % 2:
        kw["min_periods"] = minp
    return plain_event("ewma", X, labels, form, mo.covariance_ewma, kw, {"span": q(float(span)), "minp": minp}, r=r)


def poet_event(X, labels, k, th, std, decomp, form, key, r=None):
    R = as_sample(X, labels, form)
    kw = {}
    if k is not None:
        kw["k"] = k
    if th is not None:
        kw["thresh"] = th
    if not std or form % 2:
        kw["standardize"] = std
    if decomp:
        kw["return_decomp"] = True
    b = snap(R)
    if r is None:
        r = call(mo.factor_covariance_poet, R, **kw)
    base = {"op": "poet", "X": qm(X), "labels": labels, "same": b == snap(R), "kf": [] if k is None else [k],
            "th": [] if th is None else [q(float(th))], "std": std, "decomp": decomp, "key": key,
            "dates": lab(R) if labels else []}
    if r[0] == "ok" and decomp:
        if not (isinstance(r[1], tuple) and len(r[1]) == 3):
            return {**base, "out": {"k": "odd", **BLANK}}
        C, B, Fs = r[1]
        o = out_of(("ok", C, None), "M")
        o.update(B=mat(B), F=mat(Fs), bidx=lab(B), fidx=lab(Fs))
        return {**base, "out": o}
    return {**base, "out": out_of(r, "M")}


def tyler_event(X, labels, rho, G, form, tight, posed, r=None):
    kw = {"shrinkage": rho} if rho or form % 2 else {}
    tl = {"k": "identity", "M": []}
    if isinstance(G, str):
        kw["target"] = G
        tl["k"] = "identity" if G == "identity" else "odd"
    elif G is not None:
        kw["target"] = as_mat(G, labels if form % 2 else [])
        tl = {"k": "given", "M": mat(G)}
    if tight:
        kw.update(tol=1e-12, max_iter=5000)
    else:
        kw["max_iter"] = 3000
    return plain_event("tyler", X, labels, form, mo.robust_covariance_tyler, kw,
                       {"rho": q(float(rho)), "target": tl, "posed": posed, "tol": q(1e-7 if tight else 1e-4)}, r=r)


def glasso_event(X, labels, alpha, centred, prec, form, posed, r=None):
    kw = {} if alpha is None else {"alpha": alpha}
    if not centred:
        kw["assume_centered"] = False
    if prec:
        kw["return_precision"] = True
    R = as_sample(X, labels, form)
    b = snap(R)
    if r is None:
        r = call(mo.sparse_precision_glasso, R, **kw)
    base = {"op": "glasso", "X": qm(X), "labels": labels, "same": b == snap(R), "alpha": [] if alpha is None else [q(float(alpha))],
            "centred": centred, "prec": prec, "posed": posed}
    if r[0] == "ok" and prec:
        if not (isinstance(r[1], tuple) and len(r[1]) == 2):
            return {**base, "out": {"k": "odd", **BLANK}}
        o = out_of(("ok", r[1][0], None), "M")
        o.update(P=mat(r[1][1]), pidx=lab(r[1][1]), pcols=lab(r[1][1], 1))
        return {**base, "out": o}
    return {**base, "out": out_of(r, "M")}


def huber_event(X, labels, tight, form, r=None):
    kw = {"tol": 1e-12, "max_iter": 5000} if tight else {}
    return plain_event("huber", X, labels, form, mo.robust_mean_huber, kw, {"tol": q(1e-9 if tight else 1e-5)}, "v", r=r)


def blocks_witness(X, nb, target):
    """A partition into nb near-equal blocks whose coordinatewise median of means is the answer."""
    T = len(X)
    sizes = [T // nb + (1 if i < T % nb else 0) for i in range(nb)]
    sc = 1e-13 * max(1e-12, float(np.max(np.abs(X))))

    def rec(left, sz, acc):
        if not sz:
            m = np.median(np.vstack([X[list(b)].mean(axis=0) for b in acc]), axis=0)
            return [list(b) for b in acc] if np.all(np.abs(m - target) <= 4 * sc) else None
        if len(acc) and sz[0] == len(acc[-1]):          # blocks of one size in increasing order of first element
            pool = [c for c in itertools.combinations(left, sz[0]) if c[0] > acc[-1][0]]
        else:
            pool = itertools.combinations(left, sz[0])
        for c in pool:
            w = rec([x for x in left if x not in c], sz[1:], acc + [c])
            if w is not None:
                return w
        return None
    return rec(list(range(T)), sizes, [])


def mom_event(X, labels, nb, seed, form, r=None):
    T = len(X)
    kw = {} if nb is None else {"n_blocks": nb}
    R = as_sample(X, labels, form)
    rs = lambda: np.random.default_rng(seed) if form % 2 else seed  # noqa: E731
    b = snap(R)
    again = True
    if r is None:
        r = call(mo.robust_mean_median_of_means, R, random_state=rs(), **kw)
        r2 = call(mo.robust_mean_median_of_means, R, random_state=rs(), **kw)
        again = r[0] == r2[0] and (r[0] == "err" or bool(np.array_equal(np.asarray(r[1]), np.asarray(r2[1]))))
    n = int(np.ceil(np.sqrt(T))) if nb is None else min(nb, T)
    search = r[0] == "ok" and T <= 8 and 1 < n < T and np.shape(r[1]) == (X.shape[1],)
    w = blocks_witness(X, n, np.asarray(r[1], dtype=float)) if search else None
    return {"op": "mom", "X": qm(X), "labels": labels, "same": b == snap(R), "nb": [] if nb is None else [nb], "again": again,
            "searched": bool(search), "blocks": [[i + 1 for i in c] for c in w] if w else [], "out": out_of(r, "v")}


def nls_event(X, labels, form, r=None):
    return plain_event("nls", X, labels, form, mo.shrink_covariance_nls, {}, {}, r=r)


def psd_event(M):
    A = np.array(M, dtype=float)
    b = snap(A)
    r = call(ensure_psd_matrix, A)
    return {"op": "psd", "X": qm(A), "labels": [], "same": b == snap(A), "out": out_of(r, "M")}


def misfit(fn, *a, **k):
    r = call(fn, *a, **k)
    return {"op": "misfit", "same": True, "out": {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else []}}


# ------------------------------------------------------------------ data
def draw(rng, T, n, kind):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    if kind == "grid":
        return g.integers(-6, 7, (T, n)) / 8.0
    X = g.standard_t(3, (T, n)) if kind == "heavy" else g.standard_normal((T, n))
    if n > 1:
        X = X @ (np.eye(n) + 0.6 * g.standard_normal((n, n)))
    X = X * g.uniform(0.4, 2.5, n) + g.uniform(-0.5, 0.5, n)
    if kind == "small":
        X = X * 0.02
    if kind == "constant":
        X[:, rng.randrange(n)] = rng.choice([0.0, 0.25])
    if kind == "twins" and n > 1:
        X[:, 1] = X[:, 0]
    if kind == "factors":
        f = g.standard_normal((T, 2)) * [4.0, 2.5]
        X = f @ g.standard_normal((2, n)) + 0.1 * g.standard_normal((T, n))
    return np.round(X * 2 ** 20) / 2 ** 20


KINDS = ("grid", "gauss", "heavy", "small", "constant", "twins")


def gen_p(rng, T):
    k = rng.choice(["uniform", "random", "zeros", "point"])
    if k == "uniform":
        return [1.0 / T] * T
    m = [rng.randint(1, 9) for _ in range(T)]
    if k == "zeros":
        m = [x if rng.random() < 0.6 else 0 for x in m]
        m[rng.randrange(T)] = 3
    if k == "point":
        m = [0] * T
        m[rng.randrange(T)] = 1
    return [x / sum(m) for x in m]


def spd(rng, n, rank=None):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    A = g.standard_normal((rank or n, n)) * g.uniform(0.3, 1.5, n)
    return np.round((A.T @ A) * 2 ** 16) / 2 ** 16 + (0.05 * np.eye(n) if rank is None else 0)


def combos(ctx, rng, X, labels, p, i):
    """estimate_moments with every pair of estimators, judged as the estimators themselves."""
    evs = []
    R = as_sample(X, labels, i)
    T, n = X.shape
    pa = None if p is None else vec(p)
    b0 = call(mo.estimate_moments, R, pa)
    if b0[0] == "err":
        return [sample_event(X, labels, p, i, "dispatch")]
    mu, S = np.asarray(b0[1][0], dtype=float), np.asarray(b0[1][1], dtype=float)
    g = None if i % 2 else [round(x, 6) for x in np.random.default_rng(i).uniform(-0.5, 0.5, n).tolist()]
    means = [("sample", {}), ("simple", {}), ("jorion", {}), ("bayes_stein", {}), ("james_stein", {} if g is None else {"target": vec(g)}), ("JS", {}),
             ("james-stein", {}), ("huber", {}), ("robust_huber", {}), ("mom", {"random_state": 3}), ("median_of_means", {"n_blocks": 2, "random_state": 5})]
    covs = [("sample", {}), ("empirical", {}), ("ledoit_wolf", {}), ("lw", {"target": "constant_correlation"}), ("oas", {}), ("OAS", {"assume_centered": False}),
            ("poet", {}), ("poet", {"k": 1, "thresh": 0.125, "return_decomp": True}), ("tyler", {"shrinkage": 0.3, "max_iter": 3000}), ("tyler_shrinkage", {"shrinkage": 0.5, "max_iter": 3000}),
            ("glasso", {"alpha": 0.2}), ("graphical_lasso", {"alpha": 0.1, "return_precision": True}), ("ewma", {"span": 5}), ("ewma", {})]
    if T >= 14 and n <= T // 3:
        covs += [("nls", {}), ("nonlinear_shrinkage", {})]
    if n == 1 or np.any(np.diag(S) <= 1e-10):
        covs = [c for c in covs if c[0] not in ("glasso", "graphical_lasso")]
    for me, ce in [(rng.choice(means), rng.choice(covs)) for _ in range(ctx.n(3, 8))]:
        if me[0] in ("jorion", "bayes_stein") and n <= 2:
            evs.append(misfit(mo.estimate_moments, R, pa, mean_estimator=me[0], cov_estimator="sample"))
            continue
        b = snap(R, pa)
        km, kc = dict(me[1]), dict(ce[1])
        r = call(mo.estimate_moments, R, pa, mean_estimator=me[0], cov_estimator=ce[0], mean_kwargs=km or None, cov_kwargs=kc or None)
        same = b == snap(R, pa) and km == me[1] and kc == ce[1]
        rm, rc = split(r, 0), split(r, 1)
        m = me[0].lower()
        ok = "glasso" not in ce[0] and "lasso" not in ce[0] or r[0] == "ok"
        if m in ("sample", "simple") and ce[0] in ("sample", "empirical"):
            evs.append({"op": "sample", "X": qm(X), "p": {"k": "none", "v": []} if p is None else {"k": "given", "v": qv(pa)}, "labels": labels,
                        "same": same, "out": out_of(r, "vM")})
        if ok and m in ("jorion", "bayes_stein"):
            evs.append(jorion_event(mu, S, T, labels, i, rm, same))
        if ok and m in ("james_stein", "james-stein", "js"):
            evs.append(js_event(mu, S, T, labels, me[1].get("target", None) if "target" not in me[1] else list(me[1]["target"]), i, rm, same))
        if ok and "huber" in m:
            evs.append(huber_event(X, labels, False, i, rm))
        if ok and m in ("mom", "median_of_means"):
            evs.append(mom_event(X, labels, me[1].get("n_blocks"), 0, i, rm))
        c = ce[0].lower()
        if c in ("ledoit_wolf", "lw"):
            evs.append(lw_event(X, S, labels, ce[1].get("target"), i, rc, same))
        elif c == "oas":
            evs.append(oas_event(X, labels, ce[1].get("assume_centered", True), i, rc))
        elif c == "poet":
            evs.append(poet_event(X, labels, ce[1].get("k"), ce[1].get("thresh"), True, False, i, "", rc))
        elif c.startswith("tyler"):
            evs.append(tyler_event(X, labels, ce[1]["shrinkage"], None, i, False, n > 1, rc))
        elif "lasso" in c:
            evs.append(glasso_event(X, labels, ce[1]["alpha"], True, False, i, False, rc))
        elif c == "ewma":
            evs.append(ewma_event(X, labels, ce[1].get("span", 252), 1, i, rc))
        elif "n" == c[0]:
            evs.append(nls_event(X, labels, i, rc))
    return evs


def check(ctx):
    em = []
    for cfg in ("MomentsMC", "MomentsMC2"):
        em += ctx.model_check("MomentsMC", cfg)
    rng = ctx.rng(7)
    out = []
    rng.shuffle(em)
    # 1. samples of the model, through every closed-form estimator
    for i, c in enumerate(em[:ctx.n(60, len(em))]):
        X = fl([[F(a) for a in r] for r in c["X"]])
        T, n = X.shape
        L = names(n, i % 2)

        def run(X=X, L=L, i=i, T=T, n=n):
            S = np.cov(X, rowvar=False, ddof=0)
            mu = X.mean(axis=0)
            evs = [sample_event(X, L, None if i % 3 else gen_p(rng, T), i, "dispatch" if i % 3 else "direct"),
                   lw_event(X, S, L, None if i % 2 else "identity", i), oas_event(X, L, i % 4 < 2, i),
                   ewma_event(X, L, rng.choice([1, 2, 4, 252, 2.5]), rng.choice([1, 2, T, T + 1]), i),
                   js_event(mu, S, T, L, None if i % 2 else [0.25, -0.5], i), huber_event(X, L, i % 2, i), mom_event(X, L, rng.choice([None, 1, 2, 3, 9]), i, i),
                   poet_event(X, L, 2, 0.0, True, True, i, ""), tyler_event(X, L, 0.5, None, i, True, True)]
            if np.all(np.diag(S) > 0):
                evs.append(lw_event(X, S, L, "constant_correlation", i))
            return evs
        out.append(ctx.run_session(f"model-{i}", {}, run))
    # 2. random samples of every shape
    for i in range(ctx.n(70, 320)):
        kind = rng.choice(KINDS)
        n = rng.choice([1, 2, 3, 3, 4, 5])
        T = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 30])
        X = draw(rng, T, n, kind)
        L = names(n, i % 2)
        p = gen_p(rng, T) if rng.random() < 0.7 else None

        def run(X=X, L=L, i=i, T=T, n=n, p=p):
            S = np.atleast_2d(np.cov(X, rowvar=False, ddof=rng.choice([0, 0, 1]) if T > 1 else 0))
            mu = X.mean(axis=0)
            evs = [sample_event(X, L, p, i, "direct" if p is not None else "dispatch"), lw_event(X, S, L, "identity", i),
                   lw_event(X, S, L, "constant_correlation", i), oas_event(X, L, rng.random() < 0.5, i),
                   ewma_event(X, L, rng.choice([1, 2, 3, 10, 60, 252]), 1, i), mom_event(X, L, rng.choice([None, 1, 2, 3, 4, 50]), i, i),
                   huber_event(X, L, rng.random() < 0.5, i), js_event(mu, S, T, L, rng.choice([None, "grand_mean", rng.choices([-0.5, 0.25, 0.0, 1.0], k=n)]), i)]
            if n > 2:
                evs.append(jorion_event(mu, S, T, L, i))
            if T > 1:
                th = rng.choice([None, 0.0, 0.125, 0.05, 5.0])
                std = rng.random() < 0.6
                evs.append(poet_event(X, L, rng.choice([1, 2, n, n + 2]), th, std, True, i, ""))
                evs.append(tyler_event(X, L, rng.choice([0.2, 0.5, 1.0]), rng.choice([None, "identity", spd(rng, n)]), i, True, True))
            if T >= 3 * n and T >= 12 and (X.std(axis=0) > 1e-3).all() and np.linalg.matrix_rank(X - X.mean(axis=0)) == n:
                evs.append(tyler_event(X, L, 0.0, None, i, rng.random() < 0.5, True))
            return evs
        out.append(ctx.run_session(f"rand-{i}", {}, run))
    # many assets, and many observations
    for i in range(ctx.n(3, 12)):
        n, T = [(10, 4), (2, 130), (11, 3)][i % 3]
        X = draw(rng, T, n, rng.choice(["grid", "gauss"]))
        L = names(n, i % 2)

        def run(X=X, L=L, i=i, T=T, n=n):
            S = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
            return [sample_event(X, L, gen_p(rng, T), i, "direct"), sample_event(X, L, None, i, "dispatch"), oas_event(X, L, True, i),
                    ewma_event(X, L, rng.choice([3, 10, 60]), 1, i), mom_event(X, L, rng.choice([None, 2, 3]), i, i),
                    lw_event(X, S, L, "identity", i), js_event(X.mean(axis=0), S, T, L, None, i)]
        out.append(ctx.run_session(f"wide-{i}", {}, run))
    # 3. factor decompositions with an automatic number of factors; sparse precision; nonlinear shrinkage
    for i in range(ctx.n(24, 100)):
        n = rng.choice([4, 5, 6])
        T = rng.choice([12, 24, 40])
        X = draw(rng, T, n, rng.choice(["factors", "factors", "gauss", "heavy"]))
        L = names(n, i % 2)

        def run(X=X, L=L, i=i, n=n):
            std = rng.random() < 0.5
            evs = [poet_event(X, L, n, rng.choice([None, 0.0]), std, True, i, "k"), poet_event(X, L, None, None, std, True, i, "k"),
                   poet_event(X, L, None, 0.0625, std, False, i, ""), nls_event(X, L, i)]
            Y = X / X.std(axis=0)
            Y = np.round(Y * 2 ** 20) / 2 ** 20
            if np.linalg.cond(np.corrcoef(Y, rowvar=False)) < 60:
                evs.append(glasso_event(Y, L, rng.choice([0.05, 0.2, 0.5, 1.5]), rng.random() < 0.5, True, i, True))
                evs.append(glasso_event(Y, L, None, True, True, i, True))
            return evs
        out.append(ctx.run_session(f"factor-{i}", {}, run, timeout=120))
    # 4. the dispatcher
    for i in range(ctx.n(24, 90)):
        n = rng.choice([1, 2, 3, 4])
        T = rng.choice([6, 8, 16, 30])
        X = draw(rng, T, n, rng.choice(["gauss", "heavy", "grid"]))
        p = gen_p(rng, T) if i % 3 == 0 else None
        if p is not None and sum(x > 0 for x in p) <= n:
            p = None
        out.append(ctx.run_session(f"dispatch-{i}", {}, lambda: combos(ctx, rng, X, names(n, i % 2), p, i), timeout=120))
    # 5. repair of matrices
    for i in range(ctx.n(30, 120)):
        n = rng.choice([1, 2, 3, 4])
        A = spd(rng, n, rng.choice([None, 1, n]))
        k = rng.choice(["as-is", "shift", "tiny", "asym", "zero", "neg", "scaled"])
        A = A - {"shift": 0.5, "tiny": 2.0 ** -30, "as-is": 0.0, "asym": 0.0, "zero": 0.0, "neg": 0.0, "scaled": 1e-3}[k] * np.eye(n)
        if k == "asym":
            A[0, -1] += 0.25
        if k == "zero":
            A = np.zeros((n, n))
        if k == "neg":
            A = -A
        if k == "scaled":
            A = A * 2.0 ** -20
        out.append(ctx.run_session(f"psd-{i}", {}, lambda: [psd_event(A)]))
    # 6. refusals
    X = draw(rng, 6, 3, "gauss")
    S = np.cov(X, rowvar=False, ddof=0)
    mu = X.mean(axis=0)
    L = names(3, True)
    bad = []
    for p in ([0.25] * 4, [0.2] * 6, [-0.5, 0.5, 0.25, 0.25, 0.25, 0.25], [NAN] + [0.2] * 5, [1.0] * 6, [0.0] * 6, [1.5, -0.5, 0, 0, 0, 0], [0.1] * 6,
              [1.0], [1.0 / 7] * 7, [float("inf")] + [0.0] * 5):
        for f in (0, 1, 2, 3):
            bad.append(lambda p=p, f=f: sample_event(X, L if f % 2 else [], p, f, "direct" if f < 2 else "dispatch"))
    for T, m, s in ((0, mu, S), (-3, mu, S), (6, mu[:2], S[:2, :2]), (6, mu[:1], S[:1, :1]), (6, mu, S[:2, :2]), (6, mu, S[:, :2]), (6, mu[:2], S)):
        bad.append(lambda T=T, m=m, s=s: jorion_event(m, s, T, [], 1))
        if not (T == 6 and len(m) == len(s) and s.shape[0] == s.shape[1]):
            bad.append(lambda T=T, m=m, s=s: js_event(m, s, T, [], None, 1))
    for t in ("zero", "sample", [0.25], [0.1] * 4):
        bad.append(lambda t=t: js_event(mu, S, 6, L, t, 1))
    for s, t in ((S, "diagonal"), (S[:2, :2], "identity"), (S[:, :2], "constant_correlation"), (S, "")):
        bad.append(lambda s=s, t=t: lw_event(X, s, [], t, 1) if t else misfit(mo.shrink_covariance_ledoit_wolf, X, s, ""))
    for span, mp in ((5, 7), (0.5, 1), (0, 1), (-3, 1), (5, 100)):
        bad.append(lambda span=span, mp=mp: ewma_event(X, L, span, mp, 1))
    for k, th in ((0, None), (-1, None), (1, -0.5), (None, -1e-6)):
        bad.append(lambda k=k, th=th: poet_event(X, L, k, th, True, False, 1, ""))
    for rho, G in ((-0.1, None), (1.1, None), (0.2, "sample"), (0.2, np.eye(2)), (0.2, np.ones((3, 2)))):
        bad.append(lambda rho=rho, G=G: tyler_event(X, [], rho, G, 1, False, False))
    bad += [lambda a=a: glasso_event(X, L, a, True, False, 1, False) for a in (0.0, -0.5)]
    bad += [lambda: glasso_event(X[:1], L, 0.1, True, False, 1, False)]
    bad += [lambda b=b: mom_event(X, L, b, 1, 1) for b in (0, -2)]
    rev = L[::-1]
    bad += [lambda: misfit(mo.shrink_mean_jorion, pd.Series(mu, index=L), pd.DataFrame(S, index=rev, columns=rev), 6),
            lambda: misfit(mo.shrink_mean_james_stein, pd.Series(mu, index=L), pd.DataFrame(S, index=rev, columns=rev), 6),
            lambda: misfit(mo.shrink_covariance_ledoit_wolf, pd.DataFrame(X, columns=L), pd.DataFrame(S, index=rev, columns=rev)),
            lambda: misfit(mo.estimate_moments, X, mean_estimator="mode"), lambda: misfit(mo.estimate_moments, X, cov_estimator="mode"),
            lambda: misfit(mo.estimate_moments, X[:, 0]), lambda: misfit(mo.shrink_covariance_oas, X[:, 0]), lambda: misfit(mo.covariance_ewma, X[:, 0]),
            lambda: misfit(mo.robust_mean_huber, X[:, 0]), lambda: misfit(mo.robust_covariance_tyler, X[:0]), lambda: misfit(ensure_psd_matrix, X),
            lambda: misfit(mo.shrink_covariance_oas, X[:0]), lambda: misfit(mo.shrink_covariance_nls, S, input_is_cov=True)]
    for j, f in enumerate(bad):
        out.append(ctx.run_session(f"bad-{j}", {}, lambda: [f()]))
    ctx.validate("MomentsTrace", out)
    ctx.required_clauses = {
        "data-unchanged", "misfits-rejected", "covariance-shape", "covariance-symmetric", "covariance-semidefinite", "labels-kept", "sample-mean",
        "sample-covariance", "bayes-stein", "james-stein", "between-data-and-target", "ledoit-wolf-identity", "ledoit-wolf-correlation", "oas",
        "exponential-recursion", "factors-are-eigenvectors", "largest-factors", "low-rank-plus-sparse", "eigen-gap", "tyler-fixed-point",
        "scale-of-the-sample", "huber-fixed-point", "within-the-data", "median-of-block-means", "same-seed-same-answer", "precision-inverts-covariance",
        "penalised-likelihood", "same-eigenvectors", "repaired-is-semidefinite", "repair-is-a-uniform-shift", "scores-are-projections"}
    return ctx.finish(assumptions=[
        "Tyler's estimator is judged where the numerical floor of its weights does not bind",
        "the cross-validated penalty of the graphical lasso may be any of the documented grid; the ADMM iteration may refuse to converge",
        "nonlinear shrinkage is a third-party routine: judged on eigenvectors, definiteness and labels"])
