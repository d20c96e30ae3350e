"""Driver of the blending and ensemble properties (spec/Blend.tla, BlendMC, EnsMC, BlendTrace)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd
from cvxopt import matrix, solvers

from pyvallocation import ensembles as en
from pyvallocation.moments import estimate_moments
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper
from pyvallocation.utils.projection import log2simple, project_mean_covariance
from vkit import call, mro, q, qv, size
from pyvallocation.utils.constraints import Constraints
from frontier import abstract
from stress import snap

Fr = F

MEAS = "Risk"
NAMES = {"mean": "average", "stack": "stack"}
KEYS = {v: k for k, v in NAMES.items()}


# ---- witnesses (verified by the specification) ---------------------------
def folds(n, L):
    s = n // L
    return [list(range(k * s, (k + 1) * s if k < L - 1 else n)) for k in range(L)]


def qp(P, c, n, tight):
    opt = {"show_progress": False, "maxiters": 200, "abstol": tight, "reltol": tight, "feastol": tight}
    prev = dict(solvers.options)
    try:
        solvers.options.clear()
        s = solvers.qp(matrix(P), matrix(c), matrix(-np.eye(n)), matrix(np.zeros(n)), matrix(np.ones((1, n))), matrix(1.0), options=opt)
    finally:
        solvers.options.clear()
        solvers.options.update(prev)
    w = np.maximum(np.array(s["x"]).ravel(), 0)
    return w / w.sum()


def criterion(X, L):
    n = X.shape[1]
    P, c = np.zeros((n, n)), np.zeros(n)
    for S in folds(n, L):
        Y = X.copy()
        Y[:, S] = 0
        P += Y.T @ Y
        c -= Y.T @ X[:, S].mean(axis=1)
    return 2 * P, 2 * c


def polish(P, c, w):
    """Solve exactly on the support of w where that stays feasible."""
    n = len(w)
    best, gap = w, (P @ w + c) @ w - (P @ w + c).min()
    for cut in (1e-3, 1e-5, 1e-7, 1e-9):
        S = np.flatnonzero(w > cut)
        K = np.block([[P[np.ix_(S, S)], np.ones((len(S), 1))], [np.ones((1, len(S))), np.zeros((1, 1))]])
        z = np.linalg.lstsq(K, np.append(-c[S], 1.0), rcond=None)[0][:-1]
        v = np.zeros(n)
        v[S] = np.maximum(z, 0)
        if v.sum() <= 0:
            continue
        v /= v.sum()
        g = P @ v + c
        if g @ v - g.min() < gap:
            best, gap = v, g @ v - g.min()
    return best


def witness(X, L, x):
    n = X.shape[1]
    P, c = criterion(X, L)
    opt = polish(P, c, qp(P, c, n, 1e-11))
    scale = 1e6
    wit = qp(P + 2 * scale * X.T @ X, c - 2 * scale * X.T @ x, n, 1e-12)
    best, err = opt, np.abs(X @ opt - x).max()
    for w in (wit, polish(P + 2 * scale * X.T @ X, c - 2 * scale * X.T @ x, wit)):
        e = np.abs(X @ w - x).max()
        if e < err:
            best, err = w, e
    return qv(best), qv(opt)


# ---- encodings ---------------------------------------------------------
def plain(names):
    return [] if names == list(range(len(names))) else [str(x) for x in names]


def answer(r):
    o = {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "names": [], "v": []}
    if r[0] == "ok":
        x = r[1]
        if isinstance(x, pd.Series):
            o.update(names=plain(list(x.index)), v=qv(x.to_numpy(float)))
        else:
            o["v"] = qv(x)
    return o


def frontier(W, risk, names, alts=None, ret=None):
    W = np.asarray(W, float)
    m = W.shape[1]
    return PortfolioFrontier(weights=W, returns=np.arange(float(m)) if ret is None else np.asarray(ret, float), risks=np.asarray(risk, float), risk_measure=MEAS,
                             asset_names=list(names) if names else None, alternate_risks={k: np.asarray(v, float) for k, v in (alts or {}).items()})


def columns(es):
    """The samples in order, aligned to the first labelled entry; None when they cannot be read."""
    base = next((e["names"] for e in es if e["names"]), [])
    X = []
    for e in es:
        W = [[float(F(x)) for x in c] for c in e["W"]]
        if e["kind"] == "frontier":
            if e["pick"]:
                p = e["pick"][0]
                if len(p) != 1 or not -len(W) <= p[0] < len(W):
                    return None
                W = [W[p[0]]]
            else:
                W = [W[int(np.argmin([float(F(x)) for x in e["risk"]]))]]
        for c in W:
            if base and e["names"]:
                if sorted(base) != sorted(e["names"]):
                    return None
                c = [c[e["names"].index(b)] for b in base]
            X.append(c)
    if len({len(c) for c in X}) != 1:
        return None
    return np.array(X).T, base


def fill(ev, es, L):
    ev["wit"] = ev["opt"] = []
    if ev["how"] == "stack" and ev["out"]["k"] == "ok":
        c = columns(es)
        if c is not None:
            X, base = c
            v = np.array([float(F(x)) for x in ev["out"]["v"]])
            nm = ev["out"]["names"]
            if len(v) == X.shape[0] and 2 <= L <= X.shape[1] and np.isfinite(v).all() and (not base or sorted(nm) == sorted(base)):
                if base:
                    v = v[[nm.index(b) for b in base]]
                ev["wit"], ev["opt"] = witness(X, L, v)
    return ev


def entry(kind, names, W, risk=(), pick=None):
    return {"kind": kind, "names": list(names), "W": [[q(x) for x in c] for c in W], "risk": [q(x) for x in risk], "pick": [] if pick is None else [list(pick)]}


def fl(c):
    return np.array([[float(F(x)) for x in r] for r in c])


def weights_arg(ws, form):
    if not ws:
        return None
    v = [float("nan") if x == "nan" else float("inf") if x == "inf" else float(F(x)) for x in ws[0]["v"]]
    if ws[0]["names"]:
        return pd.Series(v, index=ws[0]["names"])
    return [v, np.array(v), tuple(v), np.array(v).reshape(-1, 1)][form % 4]


def blend_event(es, how, ws, L, via, form, snames=()):
    """via: array (one matrix entry), frontiers or portfolios."""
    objs = []
    for e in es:
        A = fl(e["W"]).T
        if e["kind"] == "frontier":
            objs.append(frontier(A, [float(F(x)) for x in e["risk"]], e["names"]))
        elif e["names"]:
            objs.append(pd.Series(A[:, 0], index=e["names"]) if e["kind"] == "vector" else pd.DataFrame(A, index=e["names"], columns=snames or None))
        else:
            objs.append(A[:, 0].copy() if e["kind"] == "vector" and form % 2 else A.copy())
    wa = weights_arg(ws, form)
    sel = None
    if any(e["pick"] for e in es):
        sel = [(e["pick"][0] if form % 3 else iter(e["pick"][0])) if e["pick"] else None for e in es]
    kw = {} if sel is None else {"selections": sel}

    def state():
        return snap(*[o for o in objs if not isinstance(o, PortfolioFrontier)], wa if wa is not None else 0), \
            [(o.weights.tolist(), o.risks.tolist(), o.asset_names) for o in objs if isinstance(o, PortfolioFrontier)], dict(solvers.options)
    before = state()
    if via == "array":
        r = call(en.average_exposures, objs[0], wa) if how == "mean" else call(en.exposure_stacking, objs[0], L)
    elif how == "mean":
        r = call(en.average_frontiers, objs, ensemble_weights=wa, **kw)
    elif via == "portfolios":
        r = call(en.stack_portfolios, objs, L=L, **kw)
    else:
        r = call(en.exposure_stack_frontiers, objs, L, **kw)
    ev = {"op": "blend", "es": es, "how": how, "ws": ws, "snames": list(snames), "L": L, "out": answer(r), "same": state() == before}
    return fill(ev, es, L)


def pct_event(fs, x, label):
    objs = [frontier(np.eye(2)[:, [0] * len(f["risk"])], [float(F(v)) for v in f["risk"]], None,
                     {a["name"]: [float(F(v)) for v in a["v"]] for a in f["alts"]}) for f in fs]
    before = [(o.weights.tolist(), o.risks.tolist()) for o in objs]
    r = call(en.risk_percentile_selections, objs, x, risk_label=label or None)
    o = {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "picks": [[int(i) for i in p] for p in r[1]] if r[0] == "ok" else []}
    return {"op": "pct", "fs": fs, "x": q(float(x)), "label": label, "out": o, "same": before == [(o.weights.tolist(), o.risks.tolist()) for o in objs]}


def hard_weights(rng, n, snames):
    t = rng.random()
    v = [q(F(rng.randint(0, 6), 4)) for _ in range(n)]
    if t < 0.25:
        return []
    if t < 0.55:
        if all(F(x) == 0 for x in v):
            v[0] = "1"
    elif t < 0.65:
        v[rng.randrange(n)] = "-1/4"
    elif t < 0.72:
        v = v + ["1"] if rng.random() < 0.5 or n == 1 else v[:-1]
    elif t < 0.78:
        v[rng.randrange(n)] = rng.choice(["nan", "inf"])
    elif t < 0.82:
        v = ["0"] * n
    names = []
    if snames and rng.random() < 0.6:
        names = rng.sample(list(snames), len(snames))
        if len(v) > len(names):
            names.append("other")
        names = names[:len(v)]
        if rng.random() < 0.15:
            names[rng.randrange(len(names))] = "stranger"
    return [{"v": v, "names": names}]


def gen_col(rng, n):
    t = rng.random()
    if t < 0.5:
        c = [rng.randint(0, 8) for _ in range(n)]
        if sum(c) == 0:
            c[rng.randrange(n)] = 1
        return [F(x, sum(c)) if sum(c) in (1, 2, 4, 8, 16) else F(x / sum(c)) for x in c]
    if t < 0.8:
        return [F(rng.randint(-8, 16), 16) for _ in range(n)]
    return [F(rng.random()) for _ in range(n)]


def gen_entries(rng, n, count):
    L = [f"k{(3 * i + n) % 5}{i}" for i in range(n)]
    es = []
    lab = rng.choice(["all", "all", "none", "some"])
    for _ in range(count):
        nm = L if lab == "all" or (lab == "some" and rng.random() < 0.5) else []
        m = n
        t = rng.random()
        if t < 0.06 and nm and n > 1:
            nm = rng.sample(L, n)
        elif t < 0.10 and nm:
            nm = L[:-1] + ["zz"]
        elif t < 0.13:
            m = n + 1
            nm = L + ["yy"] if nm else []
        kind = rng.choice(["vector", "frontier", "frontier", "matrix"])
        k = 1 if kind == "vector" else rng.choice([1, 2, 3, 5])
        W = [gen_col(rng, m) for _ in range(k)]
        risk, pick = (), None
        if kind == "frontier":
            risk = [F(x, 8) for x in rng.sample(range(1, 20), k)]
            if rng.random() < 0.15 and k > 1:
                risk[0] = risk[1]
            if rng.random() < 0.4:
                pick = [rng.randrange(-1, k)] if rng.random() < 0.85 else rng.choice([[], [0, k - 1], [k], [0, 0]])
        es.append(entry(kind, nm, W, risk, pick))
    return es


def check_blend(ctx):
    rng = ctx.rng("blend")
    recs = ctx.model_check("BlendMC", "BlendMC", timeout=300)
    if ctx.thorough:
        recs += ctx.model_check("BlendMC", "BlendMC3", timeout=900)
    out = []

    def go(sid, *events):
        out.append(ctx.run_session(sid, {}, lambda: [e() if callable(e) else e for e in events], timeout=120))
    rng.shuffle(recs)
    used = {"mean": 0, "stack": 0}
    for k, r in enumerate(recs):
        if r["how"] == "none" or used[r["how"]] >= ctx.n(220, 1500):
            continue
        used[r["how"]] += 1
        es = [entry(e["kind"], e["names"], [[F(str(x)) for x in c] for c in e["W"]], [F(str(x)) for x in e["risk"]], e["pick"][0] if e["pick"] else None) for e in r["es"]]
        ws = [{"v": [q(F(str(x))) for x in w["v"]], "names": w["names"]} for w in r["ws"]]
        via = "portfolios" if r["how"] == "stack" and k % 2 else "frontiers"
        go(f"mc-{k}", lambda: blend_event(es, r["how"], ws, r["L"], via, k))
    for k in range(ctx.n(260, 2500)):                 # matrices with and without labels
        n, m = size(rng, [1, 2, 3, 4, 5], [11, 13]), size(rng, [1, 2, 3, 4, 5, 6, 7], [11, 13], 0.06)
        W = [gen_col(rng, n) for _ in range(m)]
        if m > 1 and rng.random() < 0.2:
            W[-1] = list(W[0])
        named = rng.random() < 0.6
        es = [entry("matrix", [f"a{(3 * i + k) % 7}{i}" for i in range(n)] if named else [], W)]
        sn = [f"s{(5 * j + k) % 11}{j}" for j in range(m)] if named else []
        if k % 2:
            go(f"mean-{k}", lambda: blend_event(es, "mean", hard_weights(rng, m, sn), 0, "array", k, sn))
        else:
            L = rng.choice([2, 2, 3, 4, m, m, m + 1, 1, 0])
            go(f"stack-{k}", lambda: blend_event(es, "stack", [], L, "array", k, sn))
    for k in range(ctx.n(260, 2500)):                 # mixtures of portfolios, matrices and frontiers
        es = gen_entries(rng, rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))
        if k % 9 == 0 and k < 30:
            es = []
        m = sum(1 if e["kind"] == "frontier" else len(e["W"]) for e in es)
        if k % 2:
            go(f"mixm-{k}", lambda: blend_event(es, "mean", hard_weights(rng, max(m, 1), []), 0, "frontiers", k))
        else:
            for e in es:                               # a tie would leave the samples open
                if e["kind"] == "frontier" and len(set(e["risk"])) < len(e["risk"]):
                    e["risk"] = [q(F(i + 1, 4)) for i in range(len(e["risk"]))]
            go(f"mixs-{k}", lambda: blend_event(es, "stack", [], rng.choice([2, 2, 3, m, max(m, 1)]), rng.choice(["frontiers", "portfolios"]), k))
    for k in range(ctx.n(60, 400)):
        fs = []
        for _ in range(rng.randint(1, 3)):
            m = rng.choice([1, 2, 3, 5, 8])
            g = lambda: [q(F(rng.randint(0, 9), 4)) for _ in range(m)]
            fs.append({"ret": g(), "risk": g(), "measure": MEAS, "alts": [{"name": a, "v": g()} for a in ("Other", "Third")[:rng.choice([1, 1, 2])]]})
        x = rng.choice([0, 1, 100, 50, 25, 0.5, 0.3, 75, 99.9, 1.5, -0.1, 100.5, 33, rng.random(), 100 * rng.random()])
        go(f"pct-{k}", lambda: pct_event(fs, x, rng.choice(["", MEAS, "Other", "Other", "Third"])))
    ctx.validate("BlendTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "no-candidate-refused", "bad-selection-refused", "other-assets-refused", "bad-weights-refused",
                            "bad-folds-refused", "asset-names", "one-weight-per-asset", "weighted-mean", "least-criterion-in-the-hull",
                            "percentile-selections", "bad-percentile-refused"}
    ctx.notes["uncertified_stacks"] = ctx.clause_ok.get("uncertified", 0)
    return ctx.finish(assumptions=["candidates whose labels agree up to order may be aligned or refused",
                                   "labelled weights beyond those of the samples may be ignored or refused",
                                   "the stacking criterion is the fold-wise leave-one-out criterion of exposure_stacking's documentation, folds of consecutive samples"])


# ---- ensemble runs -----------------------------------------------------------
def absf(f):
    a = abstract(f)
    a.pop("table")
    a["asset"] = [str(x) for x in f.asset_names] if f.asset_names is not None else []
    vol = any(x["name"] == "Volatility" for x in a["alts"])     # limits on estimation-risk frontiers are volatilities
    a["implied"] = "Volatility" if vol and "Estimation Risk" in a["measure"] else ""
    return a


def clean(x):
    """A stable printable form of anything the caller may hold."""
    if isinstance(x, dict):
        return [(str(k), clean(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [clean(v) for v in x]
    if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame)):
        return repr(snap(x))
    if isinstance(x, AssetsDistribution):
        return [clean(v) for v in (x.mu, x.cov, x.scenarios, x.probabilities, x.asset_names, x.N)]
    if isinstance(x, PortfolioWrapper):
        return [clean(x.dist)] + [clean(v) for v in (x.G, x.h, x.A, x.b, x.initial_weights, x.proportional_costs)]
    return repr(x) if not callable(x) else "f"


def spoil_result(r, rng):
    for f in r.frontiers.values():
        for a in (f.weights, f.returns, f.risks, *f.alternate_risks.values()):
            try:
                a[...] = 77.0
            except ValueError:
                pass
    try:
        r.selections.iloc[:, :] = 5.0
    except Exception:  # noqa: BLE001
        pass
    for v in r.ensembles.values():
        try:
            v.iloc[:] = -1.0
        except Exception:  # noqa: BLE001
            pass
    for m in r.metadata.values():
        m.clear()
    for d in (r.frontiers, r.ensembles, r.metadata):
        d.clear()


class World:
    """What the caller of one session holds, and the specifications built from it."""

    def __init__(self, rng, k):
        self.rng, self.k, self.force = rng, k, None
        n = rng.choice([2, 3, 3, 4])
        T = rng.choice([12, 20, 30])
        self.names = [f"{'cab'[i % 3]}{i}" for i in range(n)]
        X = np.array([[rng.gauss(0.01 * (j + 1), 0.03 * (j + 1)) for j in range(n)] for _ in range(T)])
        self.idx = [f"t{(7 * i) % T if T % 7 else i}" for i in range(T)]
        self.returns = pd.DataFrame(X, columns=self.names, index=self.idx)
        p = np.array([rng.randint(1, 5) for _ in range(T)], float)
        self.prob = pd.Series(p / p.sum(), index=self.idx)
        self.mu = pd.Series(X.mean(axis=0), index=self.names)
        self.cov = pd.DataFrame(np.cov(X.T), index=self.names, columns=self.names)
        self.dists = [AssetsDistribution(mu=self.mu, cov=self.cov), AssetsDistribution(scenarios=self.returns, probabilities=self.prob.to_numpy()),
                      AssetsDistribution(mu=X.mean(axis=0), cov=np.cov(X.T))]
        self.wrappers = [PortfolioWrapper(d) for d in self.dists]
        self.kwargs = []            # every dictionary handed to a specification
        self.shared_sel = {}
        self.made, self.specs, self.refs = [], [], []

    def held(self):
        return repr([clean(v) for v in (self.returns, self.prob, self.mu, self.cov, self.dists, self.wrappers, self.kwargs)] + [sorted(map(str, solvers.options.items()))])

    def keep(self, d):
        self.kwargs.append(d)
        return d

    def cons(self):
        rng = self.rng
        t = rng.random()
        if t < 0.5:
            return {"long_only": True, "total_weight": 1.0}
        if t < 0.8:
            return {"long_only": True, "total_weight": 1.0, "bounds": (0.02, 0.9)}
        return Constraints(long_only=True, total_weight=1.0, bounds=(0.01, 0.95))

    def optimiser(self, scen):
        """(argument, keyword arguments, reference function of a wrapper)"""
        rng = self.rng
        m = rng.choice([2, 3, 4])
        kind = rng.choice(["mean_variance", "mv", "cvar", "mean-cvar", "callable", "rrp", "robust", "MV"]) if scen else \
            rng.choice(["mean_variance", "mv", "rrp", "relaxed_risk_parity", "robust", "robust", "callable"])
        kw = {"num_portfolios": m}
        if kind in ("mean_variance", "mv", "MV"):
            return kind, kw, lambda w, **k: w.variance_frontier(**k)
        if kind in ("cvar", "mean-cvar"):
            return kind, {**kw, "alpha": rng.choice([0.1, 0.25])}, lambda w, **k: w.cvar_frontier(**k)
        if kind in ("rrp", "relaxed_risk_parity"):
            return kind, {**kw, "max_multiplier": rng.choice([1.2, 1.4]), "lambda_reg": 0.3}, lambda w, **k: w.relaxed_risk_parity_frontier(**k)
        if kind == "robust":
            return kind, {**kw, "max_lambda": rng.choice([1.0, 2.0])}, lambda w, **k: w.robust_lambda_frontier(**k)

        def mine(wrapper, num_portfolios, scale=1.0):
            f = wrapper.variance_frontier(num_portfolios=num_portfolios)
            return PortfolioFrontier(weights=np.array(f.weights), returns=np.array(f.returns) * scale, risks=np.array(f.risks) * scale, risk_measure="Mine",
                                     asset_names=None if f.asset_names is None else list(f.asset_names), alternate_risks={"Other": np.array(f.risks)[::-1].copy()})
        return mine, {**kw, "scale": 2.0}, mine

    def selector(self, F):
        """(argument, keyword arguments, the query it stands for)"""
        rng = self.rng
        risk = [float(Fr(x)) for x in F["risk"]]
        lab = rng.choice(["", F["measure"]] + [a["name"] for a in F["alts"]] * 2)
        v = risk if lab in ("", F["measure"]) else [float(Fr(x)) for x in next(a["v"] for a in F["alts"] if a["name"] == lab)]
        robust = "Estimation" in F["measure"]
        if robust and not lab and F["implied"]:
            v = [float(Fr(x)) for x in next(a["v"] for a in F["alts"] if a["name"] == F["implied"])]
        kl = {"risk_label": lab} if lab else {}
        if self.force and F["alts"]:
            a = F["alts"][-1]
            lab, v = a["name"], [float(Fr(x)) for x in a["v"]]
            kl = {"risk_label": lab}
        x = rng.choice(v) * rng.choice([1.0, 1.05, 0.97]) + 1e-4
        if self.force:
            x = sorted(v)[len(v) // 2] + 1e-4
        kind = rng.choice(["tangency", "max_sharpe", "min_risk", "min_risk", "minimum_risk", "max_return", "maximum_return", "Sharpe",
                           "risk_target", "max_return_subject_to_risk", "risk_match", "risk_nearest", "percentile", "risk_pct",
                           "risk_percentile", "column", "index", "fn-series", "fn-tuple", "fn-array", "fn-column"]) if not self.force else self.force
        qz = {"kind": "", "label": "", "x": q(0.0), "i": 0}
        m = len(risk)
        if kind in ("tangency", "max_sharpe", "Sharpe"):
            rf = rng.choice([0.0, 0.001, -0.02])
            return kind, rng.choice([{"risk_free_rate": rf}] + ([{}] if rf == 0 else [])), {**qz, "kind": "tangency", "x": q(rf)}
        if kind in ("min_risk", "minimum_risk"):
            return kind, kl, {**qz, "kind": "min_risk", "label": lab}
        if kind in ("max_return", "maximum_return"):
            return kind, {}, {**qz, "kind": "max_return"}
        if kind in ("risk_target", "max_return_subject_to_risk"):
            if rng.random() < 0.12:
                x = min(v) - 1.0
            return kind, {"max_risk": x, **kl}, {**qz, "kind": "at_risk", "label": lab, "x": q(x)}
        if kind in ("risk_match", "risk_nearest"):
            return kind, {"target_risk": x, **kl}, {**qz, "kind": "closest_risk", "label": lab, "x": q(x)}
        if kind in ("percentile", "risk_percentile", "risk_pct"):
            x = rng.choice([0, 1, 50, 0.3, 100, 80])
            return kind, {"percentile": x, **kl}, {**qz, "kind": "at_percentile", "label": lab, "x": q(float(x))}
        i = rng.choice([0, m - 1, -1, rng.randrange(m)] + ([m] if rng.random() < 0.2 else []))
        if kind in ("column", "index"):
            return kind, {"index": i}, {**qz, "kind": "column", "i": i}
        if kind == "fn-series":
            return (lambda f, risk_label=None: f.min_risk(risk_label=risk_label)[0]), kl, {**qz, "kind": "min_risk", "label": lab}
        if kind == "fn-tuple":
            return (lambda f: f.max_return()), {}, {**qz, "kind": "max_return"}
        if kind == "fn-array":
            return (lambda f, j: f.weights[:, j]), {"j": 0}, {**qz, "kind": "column", "i": 0}
        return (lambda f, j=0: list(f.weights[:, j])), {"j": m - 1}, {**qz, "kind": "column", "i": m - 1}

    def moments(self, kw):
        """The distribution a specification over the returns stands for, built step by step."""
        data = self.returns.copy()
        if kw.get("preprocess") is not None:
            data = kw["preprocess"](data)
        p = kw.get("probabilities")
        if isinstance(p, pd.Series):
            p = p.loc[list(data.index)]
        if p is not None:
            p = np.asarray(p, float)
            p = pd.Series(p / p.sum(), index=data.index)
        if kw.get("use_scenarios"):
            return AssetsDistribution(scenarios=data, probabilities=None if p is None else p.to_numpy())
        mu, cov = estimate_moments(data, p, mean_estimator=kw.get("mean_estimator", "sample"), cov_estimator=kw.get("cov_estimator", "sample"),
                                   mean_kwargs=dict(kw.get("mean_kwargs") or {}), cov_kwargs=dict(kw.get("cov_kwargs") or {}))
        pr = kw.get("projection") or {}
        if "annualization_factor" in pr:
            mu, cov = project_mean_covariance(mu, cov, annualization_factor=pr["annualization_factor"])
        if pr.get("log_to_simple") or pr.get("to_simple"):
            mu, cov = log2simple(mu, cov)
        if pr.get("transform"):
            mu, cov = pr["transform"](mu, cov)
        return AssetsDistribution(mu=mu, cov=cov)

    def add(self, name, fails=False, other=None):
        rng = self.rng
        src = rng.choice(["returns", "returns", "scenarios", "dist", "dist", "factory", "wrapper"])
        kw, dist, wrapper = {}, None, None
        if src in ("returns", "scenarios"):
            kw["returns"] = self.returns
            if src == "scenarios":
                kw["use_scenarios"] = True
            else:
                kw["mean_estimator"] = rng.choice(["sample", "james_stein", "jorion" if len(self.names) > 2 else "huber", "huber"])
                kw["cov_estimator"] = rng.choice(["sample", "ledoit_wolf", "oas", "ewma"])
                if kw["cov_estimator"] == "ewma":
                    kw["cov_kwargs"] = self.keep({"span": 8})
                if kw["mean_estimator"] == "huber":
                    kw["mean_kwargs"] = self.keep({})
                pr = rng.choice([None, None, {"annualization_factor": 12}, {"log_to_simple": True}, {"annualization_factor": 4, "to_simple": True},
                                 {"transform": lambda m, S: (m * 2 + 0.01, S * 3)}, {"annualization_factor": 2, "transform": lambda m, S: (m - 0.001, S * 2)}])
                if pr is not None:
                    kw["projection"] = self.keep(pr)
            t = rng.random()
            if t < 0.25:
                order = rng.sample(self.idx, len(self.idx))
                kw["probabilities"] = self.prob.loc[order]
            elif t < 0.4:
                kw["probabilities"] = self.prob.to_numpy().copy()
            elif t < 0.5:
                kw["probabilities"] = self.prob.tolist()
            if "probabilities" in kw:
                self.kwargs.append(kw["probabilities"])
            if rng.random() < 0.35:
                def pre(d):
                    d.iloc[:, :] = np.expm1(d.to_numpy())        # the caller's hook may write to what it is given
                    return d.iloc[1:] if isinstance(kw.get("probabilities"), pd.Series) else d
                kw["preprocess"] = pre
            dist = lambda: self.moments(kw)  # noqa: E731
        else:
            j = rng.randrange(3)
            shared = self.dists[j]
            if other is not None:
                shared = other
            dist = lambda: shared  # noqa: E731
            if src == "dist":
                kw["distribution"] = shared
            elif src == "factory":
                kw["distribution_factory"] = lambda: shared
                if rng.random() < 0.5:
                    kw["returns"] = self.returns * 5              # the factory has precedence
            elif other is None:
                wrapper = self.wrappers[j]
            else:
                kw["distribution"] = shared
        scen = dist().scenarios is not None
        opt, okw, ref = self.optimiser(scen)
        cons = self.cons()
        w = PortfolioWrapper(dist(), constraints=cons)
        F = absf(ref(w, **okw))
        sel, skw, query = self.selector(F)
        if fails:
            how = rng.choice(["cons", "factory", "returns", "optimiser", "kw", "proj"])
            if how == "cons":
                cons = {"long_only": True, "total_weight": 1.0, "bounds": (0.0, 0.1)}
            elif how == "factory":
                def broken():
                    raise RuntimeError("no data")
                kw, wrapper = {"distribution_factory": broken}, None
            elif how == "returns":
                kw, wrapper = {}, None
            elif how == "optimiser":
                opt, okw = "no such optimiser", {}
            elif how == "kw":
                okw = {**okw, "no_such_argument": 1}
            else:
                kw, wrapper = {"returns": self.returns, "projection": self.keep({"no such step": 1})}, None
        if rng.random() < 0.4 and isinstance(sel, str) and isinstance(skw, dict):
            skw = self.shared_sel.setdefault(repr(sorted(skw.items())), skw)   # one dictionary for several specifications
        meta = {"who": name, "n": len(self.specs)} if rng.random() < 0.6 else {}
        pick = None if rng.random() < 0.6 else rng.choice([[0], [-1], (len(F["risk"]) - 1,), [0, 1] if rng.random() < 0.5 else [0]])
        kw.update(optimiser=opt, optimiser_kwargs=self.keep({**okw, "constraints": cons}), selector=sel, selector_kwargs=self.keep(skw))
        if meta:
            kw["metadata"] = self.keep(meta)
        if pick is not None:
            kw["frontier_selection"] = self.keep(pick)
        self.made.append((name, kw, wrapper))
        self.refs.append({"name": name, "F": F, "fails": bool(fails), "q": query, "pick": [] if pick is None else [list(pick)],
                          "meta": sorted(f"{a}={b}" for a, b in meta.items())})
        kw = dict(kw)
        self.specs.append(wrapper.make_ensemble_spec(name, **kw) if wrapper is not None else en.make_portfolio_spec(name, **kw))
        if rng.random() < 0.15:                        # the same thing written by hand
            s = self.specs[-1]
            self.specs[-1] = en.EnsembleSpec(name=name, frontier_factory=s.frontier_factory, selector=s.selector,
                                             metadata=self.keep({"who": name}) if meta else {}, frontier_selection=s.frontier_selection)
            self.refs[-1]["meta"] = [f"who={name}"] if meta else []

    # events
    def run(self, l, how, spoil=False, extra=True):
        rng = self.rng
        specs = [self.specs[i - 1] for i in l]
        names = [s.name for s in specs]
        hows = {"mean": ["mean"], "stack": ["stack"], "both": ["mean", "stack"], "": []}[how]
        arg = {"mean": rng.choice(["average", " Average ", ["average"]]), "stack": rng.choice(["stack", ("stack",), "STACK"]),
               "both": ("average", "stack"), "": rng.choice([None, "none", "", []])}[how]
        combine = rng.choice(["selected", "selected", "frontier", "Frontier"])
        kw = {"ensemble": arg, "combine": combine}
        if arg == "stack" and rng.random() < 0.5:
            kw.pop("ensemble")
        if combine == "selected" and rng.random() < 0.5:
            kw.pop("combine")
        ws, L, bad, starved = [], [], False, False
        if extra:
            if rng.random() < 0.5 and len(set(names)) == len(names) and names:
                ws = hard_weights(rng, len(l), names)
                wa = weights_arg(ws, rng.randrange(4))
                if wa is not None:
                    kw["ensemble_weights"] = wa
            if rng.random() < 0.4:
                L = [rng.choice([2, 2, 3, 1, 9])]
                kw["stack_folds"] = L[0]
            t = rng.random()
            if t < 0.06:
                bad = True
                kw.update(rng.choice([{"combine": "nothing"}, {"ensemble": "blend"}, {"ensemble": ("average", "blend")}]))
        t = rng.random()
        if t < 0.35:
            kw["stack_kwargs"] = {"maxiters": 1} if t < 0.1 else rng.choice([{"abstol": 1e-9}, {"reltol": 1e-9, "refinement": 2}])
            starved = t < 0.1
        f = en.assemble_portfolio_ensemble if rng.random() < 0.7 else self.wrappers[0].assemble_ensembles
        own = [v for key, v in kw.items() if key in ("ensemble_weights", "stack_kwargs")]
        before = repr([clean(v) for v in own])
        r = call(f, specs if rng.random() < 0.7 else tuple(specs), **kw)
        ev = {"op": "run", "l": list(l), "how": hows, "combine": combine.lower(), "ws": ws, "L": L, "bad": bad, "starved": starved, "wit": [], "opt": [],
              "out": {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "fronts": [], "sel": [], "ens": [], "meta": []}}
        if r[0] == "ok":
            x = r[1]
            o = ev["out"]
            mine = [self.refs[i - 1] for i in l]
            for nm in names:
                if nm in x.frontiers:
                    o["fronts"].append({"name": nm, "F": absf(x.frontiers[nm])})
                keys = [s.split("=")[0] for s in next(m["meta"] for m in mine if m["name"] == nm)]
                o["meta"].append(sorted(f"{a}={b}" for a, b in x.metadata.get(nm, {}).items() if a in keys))
            for j, c in enumerate(x.selections.columns):
                s = x.selections.iloc[:, j].dropna()        # rows of other universes are blank
                o["sel"].append({"name": str(c), "names": plain(list(s.index)), "v": qv(s.to_numpy(float))})
            got = {"average": x.average, "stack": x.stacked, **{k: x.get(k) for k in x.ensembles}}
            for key, v in got.items():
                if v is not None:
                    a = answer(("ok", v))
                    o["ens"].append({"key": KEYS.get(key, key), "names": a["names"], "v": a["v"]})
            if "stack" in hows and len(o["fronts"]) == len(l) == len(o["sel"]):
                if ev["combine"] == "selected":
                    es = [{"kind": "vector", "names": s["names"], "W": [s["v"]], "risk": [], "pick": []} for s in o["sel"]]
                else:
                    es = [{"kind": "frontier", "names": g["F"]["asset"], "W": g["F"]["W"], "risk": g["F"]["risk"], "pick": m["pick"]} for g, m in zip(o["fronts"], mine)]
                n = len(l)
                folds_ = min(3, n) if not L else min(L[0], n)
                for e in o["ens"]:
                    if e["key"] == "stack":
                        t = fill({"how": "stack", "out": {"k": "ok", "names": e["names"], "v": e["v"]}}, es, folds_)
                        ev["wit"], ev["opt"] = t["wit"], t["opt"]
            if spoil:
                spoil_result(x, rng)
        ev["held"] = self.held() + ("" if repr([clean(v) for v in own]) == before else " (run options changed)")
        return ev

    def use(self, s):
        sp = self.specs[s - 1]
        r = call(lambda: (lambda f: (f, sp.selector(f)))(sp.frontier_factory()))
        o = {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "F": {}, "v": []}
        if r[0] == "ok":
            f, v = r[1]
            v = v[0] if isinstance(v, tuple) else v
            o.update(F=absf(f), v=qv(np.asarray(v, float)))
        return {"op": "use", "s": s, "out": o, "held": self.held()}


def check_ensembles(ctx):
    rng = ctx.rng("ensembles")
    recs = ctx.model_check("EnsMC", "EnsMC", timeout=300)
    if ctx.thorough:
        r3 = ctx.model_check("EnsMC", "EnsMC3", timeout=600)
        recs += rng.sample(r3, min(len(r3), 1200))
    out = []
    rng.shuffle(recs)

    def session(sid, build, play):
        keep = {}

        def go():
            w = World(rng, len(out))
            keep["w"] = w
            build(w)
            keep["held"] = w.held()
            return play(w)
        s = ctx.run_session(sid, {}, go, timeout=120)
        if "held" in keep:
            s["init"] = {"refs": keep["w"].refs, "held": keep["held"]}
        out.append(s)

    def three(w):
        for i in (1, 2, 3):
            w.add(f"s{i}", fails=i == 3)

    def follow(rec):
        def play(w):
            evs, sc = [], rec["script"]
            for k, a in enumerate(sc):
                if a["op"] == "spoil":
                    evs.append({"op": "spoil", "held": w.held()})
                elif a["op"] == "use":
                    evs.append(w.use(a["l"][0]))
                else:
                    evs.append(w.run(a["l"], a["how"], spoil=k + 1 < len(sc) and sc[k + 1]["op"] == "spoil", extra=False))
            return evs
        return play
    for k, r in enumerate(recs[: ctx.n(90, 1500)]):
        session(f"mc-{k}", three, follow(r))

    def many(w):
        n = rng.choice([1, 2, 3, 4])
        other = None
        t = rng.random()
        if t < 0.12:
            other = AssetsDistribution(mu=w.mu.rename({w.names[0]: "else"}), cov=w.cov.rename(index={w.names[0]: "else"}, columns={w.names[0]: "else"}))
        elif t < 0.2:
            o = w.names[::-1]
            other = AssetsDistribution(mu=w.mu[o], cov=w.cov.loc[o, o])
        elif t < 0.28 and len(w.names) > 2:
            o = w.names[1:]
            other = AssetsDistribution(mu=w.mu[o], cov=w.cov.loc[o, o])
        for i in range(n):
            w.add(f"p{i}" if rng.random() < 0.95 else "p0", fails=rng.random() < 0.06, other=other if i == n - 1 else None)

    def wander(w):
        evs = []
        for _ in range(rng.choice([2, 3, 4])):
            if rng.random() < 0.25:
                evs.append(w.use(rng.randrange(len(w.specs)) + 1))
            else:
                l = rng.sample(range(1, len(w.specs) + 1), rng.choice([len(w.specs)] * 3 + [rng.randint(0, len(w.specs))]))
                evs.append(w.run(l, rng.choice(["mean", "mean", "stack", "both", ""]), spoil=rng.random() < 0.4))
        return evs
    for k in range(ctx.n(160, 2500)):
        session(f"rnd-{k}", many, wander)
    kinds = ["min_risk", "minimum_risk", "risk_target", "risk_match", "percentile", "fn-series", "tangency", "max_return", "column", "risk_pct",
             "risk_nearest", "max_return_subject_to_risk"]
    for k in range(ctx.n(36, 300)):                   # one selector, the same specifications again and again

        def same(w, k=k):
            w.force = kinds[k % len(kinds)]
            for i in range(2):
                w.add(f"q{i}")

        def again(w):
            return [w.use(1), w.run([1, 2], "both", spoil=True), w.use(2), w.run([2, 1], "mean"), w.use(1)]
        session(f"again-{k}", same, again)
    def malformed(w):
        evs = []
        d = {"distribution": w.dists[0], "optimiser": "mv", "optimiser_kwargs": {"num_portfolios": 2, "constraints": {}}}
        for sel, kw in (("risk_target", {}), ("risk_match", {}), ("percentile", {}), ("column", {}), ("no such selector", {}),
                        ("risk_target", {"target_risk": 0.1}), ("percentile", {"percentile": -1}), ("percentile", {"percentile": 101}),
                        ("risk_match", {"target_risk": 0.1, "risk_label": "nothing"}), ("column", {"index": 2}), ("column", {"index": -3})):
            r = call(lambda: (lambda sp: sp.selector(sp.frontier_factory()))(en.make_portfolio_spec("bad", selector=sel, selector_kwargs=kw, **d)))
            evs.append({"op": "bad", "out": {"k": r[0], "mro": mro(r[2])}, "held": w.held()})
        return evs
    session("malformed", lambda w: None, malformed)
    ctx.validate("BlendTrace", out)
    ctx.required_clauses = {"malformed-spec-refused", "caller-state-unchanged", "every-spec-and-blend-reported", "its-own-frontier", "metadata-kept", "the-selection-asked-for",
                            "weighted-mean", "least-criterion-in-the-hull", "failed-build-raises", "unattainable-selection-raises", "same-name-refused",
                            "unknown-option-refused", "other-assets-refused", "bad-weights-refused", "bad-folds-refused", "no-candidate-refused"}
    ctx.notes["uncertified_stacks"] = ctx.clause_ok.get("uncertified", 0)
    return ctx.finish(assumptions=["frontiers of a specification are compared with those of a wrapper built from the same inputs within 1e-4 (weights) and 1e-5 (figures)",
                                   "labelled and unlabelled or reordered candidates may be aligned or refused"])
