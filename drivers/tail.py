"""Driver of the risk-measure property (spec/TailRisk.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vkit import call, mro, q, qm, qv, size
from pyvallocation.utils.functions import portfolio_cvar, portfolio_var, portfolio_variance, portfolio_volatility


def fl(m):
    return np.array([[float(x) for x in r] for r in m], dtype=float)


def res(r):
    k, v, exc = r
    if k == "ok":
        try:
            return {"k": "ok", "v": qv(v), "scalar": np.ndim(v) == 0, "mro": []}
        except Exception as e:  # noqa: BLE001
            return {"k": "odd", "v": [], "scalar": False, "mro": [type(e).__name__]}
    return {"k": "err", "v": [], "scalar": False, "mro": mro(exc)}


def risk(R, p, W, conf, demean, form, exact, cls="", junk=None):
    """R: T x N, W: list of weight vectors (Fractions), p: list or None."""
    Rf = fl(R)
    n = Rf.shape[1]
    Wf = fl(W).T
    wa = Wf[:, 0] if len(W) == 1 and form % 2 else Wf
    if len(W) == 1 and form % 5 == 1:
        wa = pd.Series(Wf[:, 0], index=[f"a{i}" for i in range(n)])
    ra = pd.DataFrame(Rf, columns=[f"a{i}" for i in range(n)]) if form % 3 == 0 else Rf.copy()
    pa = None
    if p is not None:
        pa = np.array([float(x) for x in p])
        pa = [pa, pa.reshape(-1, 1), pd.Series(pa), pa.tolist()][form % 4]
    cf = None if conf is None else float(conf)
    if junk:
        cf = junk.get("conf", cf)
    dm = junk.get("demean", demean) if junk else demean
    if not junk and form % 7 == 0 and not demean:
        dm = None

    def s():
        return (repr(np.asarray(wa).tolist()), repr(np.asarray(ra).tolist()), repr(None if pa is None else np.asarray(pa).tolist()))
    b = s()
    v = res(call(portfolio_var, wa, ra, pa, cf, dm))
    c = res(call(portfolio_cvar, wa, ra, pa, cf, dm))
    scale = max(1.0, float(np.abs(Rf).max() * np.abs(Wf).sum(axis=0).max()))
    conf_log = "19/20" if cf is None else q(cf) if isinstance(cf, float) else "nan"
    if cf is None:
        conf_log = q(0.95)
    return {"op": "risk", "R": qm(Rf), "p": "none" if p is None else "given", "pv": [] if p is None else qv(np.asarray(pa, dtype=float)),
            "W": [qv([float(x) for x in w]) for w in W], "conf": conf_log, "demean": bool(demean), "exact": exact,
            "scale": q(scale), "class": cls, "junk": bool(junk and junk.get("junk")), "same": b == s(), "var": v, "cvar": c}


def variance(cov, W, form, exact):
    C, Wf = fl(cov), fl(W).T
    n = C.shape[0]
    lab = [f"a{i}" for i in range(n)]
    wa = Wf[:, 0] if len(W) == 1 else Wf
    if form % 2:
        wa = pd.Series(wa, index=lab) if len(W) == 1 else pd.DataFrame(wa, index=lab)
    ca = pd.DataFrame(C, index=lab, columns=lab) if form % 3 == 0 else C.copy()

    def s():
        return (repr(np.asarray(wa).tolist()), repr(np.asarray(ca).tolist()))
    b = s()
    o, v = res(call(portfolio_variance, wa, ca)), res(call(portfolio_volatility, wa, ca))
    return {"op": "variance", "cov": qm(C), "W": [qv([float(x) for x in w]) for w in W], "exact": exact, "same": b == s(),
            "scale": q(float(max(1, np.abs(C).max() * np.abs(Wf).sum() ** 2))), "out": o, "vol": v}


def check(ctx):
    rng = ctx.rng("tail")
    out = []
    recs = ctx.model_check("TailMC", "TailMC4" if ctx.thorough else "TailMC")
    group = {}
    for r in recs:
        group.setdefault((str(r["p"]), str(r["a"])), []).append(r)
    for k, rs in enumerate(group.values()):
        def run(rs=rs):
            evs = []
            for i in range(0, len(rs), 4):      # several portfolios at once: pnl columns are the explored outcomes
                part = rs[i:i + 4]
                T = len(part[0]["X"])
                R = [[F(str(x["X"][t])) for x in part] for t in range(T)]
                W = [[F(int(a == b)) for a in range(len(part))] for b in range(len(part))]
                p = [F(str(x)) for x in part[0]["p"]]
                evs.append(risk(R, p, W, 1 - F(str(part[0]["a"])), False, i + k, True))
            return evs
        out.append(ctx.run_session(f"mc-{k}", {}, run))
    for k in range(ctx.n(400, 4000)):
        dy = rng.random() < 0.6
        T, n, m = size(rng, [1, 2, 3, 4, 5, 8, 8, 12, 20, 40], [100, 120]), size(rng, [1, 2, 3, 4], [11]), size(rng, [1, 1, 2, 3], [9])
        if dy:
            lev = rng.choice([2, 4, 16])
            R = [[F(rng.randint(-lev, lev), 8) for _ in range(n)] for _ in range(T)]
            W = [[F(rng.randint(-4, 8), 8) for _ in range(n)] for _ in range(m)]
            cuts = sorted(rng.randint(0, 64) for _ in range(T - 1))
            p = [F(b - a, 64) for a, b in zip([0] + cuts, cuts + [64])]
            if T in (1, 2, 4, 8) and rng.random() < 0.3:
                p = None
            conf = F(rng.randint(1, 63), 64) if rng.random() < 0.7 else F(rng.choice([1, 2, 3]), 4)
            if p and rng.random() < 0.4:          # tail mass that meets a cumulative probability exactly
                c = sum(sorted(p)[: rng.randint(1, T)])
                conf = 1 - c if 0 < c < 1 else conf
        else:
            R = [[F(round(rng.gauss(0, 0.03), rng.choice([2, 4, 9]))) if False else F(str(round(rng.gauss(0, 0.03), rng.choice([2, 4, 9]))))
                  for _ in range(n)] for _ in range(T)]
            W = [[F(str(round(rng.uniform(-0.3, 1), 3))) for _ in range(n)] for _ in range(m)]
            raw = [rng.choice([0, 1, 1, 2, 5, 7]) for _ in range(T)]
            if sum(raw) == 0:
                raw[0] = 1
            p = None if rng.random() < 0.4 else [F(x, sum(raw)) for x in raw]
            conf = rng.choice([F("0.95"), F("0.9"), F("0.99"), F("0.5"), F("0.75"), None, F("0.05")])
        demean = rng.random() < 0.25
        ex = dy and not demean
        f = rng.randrange(1000)

        def run():
            evs = [risk(R, p, W, conf, demean, f, ex, "c")]
            P = p or [F(1, T)] * T
            perm = rng.sample(range(T), T)
            evs.append(risk([R[i] for i in perm], [P[i] for i in perm], W, conf, demean, f + 1, ex, "c"))
            i = rng.randrange(T)                  # split a scenario in two and add an empty one
            z = [F(rng.randint(-40, 40), 8) for _ in range(n)]
            evs.append(risk(R + [R[i], z], P[:i] + [P[i] / 2] + P[i + 1:] + [P[i] / 2, F(0)], W, conf, demean, f + 2, ex, "c"))
            if dy and p:                          # unnormalised masses
                evs.append(risk(R, [x * 2 for x in P], W, conf, demean, f, ex, "c"))
            return evs
        out.append(ctx.run_session(f"rnd-{k}", {}, run))
        if k % 2 == 0:
            A = [[F(rng.randint(-8, 8), 8) for _ in range(n)] for _ in range(n)]
            S = [[sum(A[i][t] * A[j][t] for t in range(n)) for j in range(n)] for i in range(n)]
            if not dy:
                S = [[x / 1000 + (F(1, 333) if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(S)]
            out.append(ctx.run_session(f"var-{k}", {}, lambda: [variance(S, W, f, dy)]))
    R = [[F(1), F(-1)], [F(-2), F(1, 2)], [F(0), F(1)], [F(3), F(-3)]]
    W = [[F(1, 2), F(1, 2)]]
    bad = [dict(conf=0.0), dict(conf=1.0), dict(conf=-0.5), dict(conf=1.5), dict(conf=95.0), dict(conf=float("nan")),
           dict(demean=1, junk=True), dict(demean="yes", junk=True), dict(conf="high", junk=True)]
    for k, b in enumerate(bad):
        out.append(ctx.run_session(f"bad-{k}", {}, lambda: [risk(R, None, W, F(3, 4), False, 1, True, junk=b)]))
    for k, p in enumerate([[1], [F(1, 2)] * 2, [F(1, 4)] * 5, [-F(1, 4), F(1, 2), F(1, 4), F(1, 2)], [0, 0, 0, 0],
                           [float("nan"), 0.5, 0.25, 0.25], [float("inf"), 0, 0, 0]]):
        for f in range(4):
            out.append(ctx.run_session(f"badp-{k}-{f}", {}, lambda: [risk(R, p, W, F(3, 4), False, f, True)]))
    ctx.validate("TailTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "refuses-bad-arguments", "var-is-the-quantile", "cvar-is-the-tail-average",
                            "cvar-at-least-var", "presentation-does-not-matter", "variance-is-the-quadratic-form",
                            "volatility-is-its-root", "one-value-per-portfolio"}
    return ctx.finish(assumptions=["on data whose arithmetic is not exact in doubles a quantile met within 1e-12 of probability is accepted"])
