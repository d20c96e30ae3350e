"""Driver of the optimiser properties (spec/Optim.tla, OptimTrace.tla)."""
import copy
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

import feasible as F
from cert import Problem, enc_term, hyperplanes, lp, mats, value
from vkit import MachineryError, call, mro, q, qm, qv, size
from pyvallocation.optimization import MeanCVaR, MeanVariance, RelaxedRiskParity, RobustOptimizer
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints

NAMES = ["AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "GGG", "HHH", "III", "JJJ", "KKK", "LLL"]
warnings.filterwarnings("ignore")


# --------------------------------------------------------------------------
# data and declarations
# --------------------------------------------------------------------------
class Data:
    """Numbers of one market: mu, S, R, p, alpha, w0, quad and prop costs, budgets."""

    def __init__(self, rng, n, T=None):
        r = np.random.default_rng(rng.randrange(2**32))
        self.n = n
        kind = rng.randrange(6)
        vol = r.uniform(0.05, 0.6, n)
        if kind == 0:
            C = np.eye(n)
        elif kind == 1:
            C = np.full((n, n), rng.choice([0.3, 0.8, 0.95]))
            np.fill_diagonal(C, 1)
        else:
            B = r.normal(size=(n, n + 2))
            C = B @ B.T
            s = np.sqrt(np.diag(C))
            C = C / np.outer(s, s)
        if kind == 2 and n > 1:
            vol[:] = vol[0]
        S = C * np.outer(vol, vol)
        self.S = np.round((S + S.T) / 2, 6) + 1e-4 * np.eye(n)
        unit = rng.choice([1] * 6 + [3, 10, 0.1])      # percent-like and daily-like numbers
        self.S *= unit * unit
        self.mu = np.round(r.normal(0.05, 0.12, n), 4) * rng.choice([1, unit])
        if rng.random() < .15:
            self.mu[:] = self.mu[0]
        elif rng.random() < .2:
            self.mu = -np.abs(self.mu)
        elif n > 2 and rng.random() < .15:
            self.mu[1] = self.mu[0]
        elif rng.random() < .15:                       # nearly equal means
            self.mu = np.round(0.1 + r.normal(size=n) * rng.choice([3e-4, 2e-3]), 6)
        T = T or rng.choice([1, 2, 3, 5, 8, 10, 12])
        self.R = np.round(r.normal(rng.choice([0.02, 0.02, 0.3]), 0.2, (T, n)), 3)
        if T > 2 and rng.random() < .2:
            self.R[1] = self.R[0]
        p = np.array([rng.choice([0, 1, 1, 2, 3, 4]) for _ in range(T)], float)
        p = np.ones(T) if p.sum() == 0 or rng.random() < .3 else p
        self.p = p / p.sum()
        self.uniform = bool(np.all(p == p[0]))
        self.alpha = rng.choice([0.05, 0.1, 0.25, 0.3, 0.5, 0.9])
        w = r.dirichlet(np.ones(n))
        self.w0 = np.round(w, 4) if rng.random() < .7 else np.zeros(n)
        r0 = rng.random()
        if r0 < .2:
            self.w0 = np.eye(n)[rng.randrange(n)]
        elif r0 < .4:                                  # part cash, or levered
            self.w0 = np.round(w * rng.choice([0.3, 0.6, 1.5]), 4)
        elif r0 < .6:                                  # long-short and unheld names
            self.w0 = np.array([rng.choice([-0.3, 0, 0, 0.2, 0.6]) for _ in range(n)])
        self.quad = np.round(r.uniform(0, 0.4, n) * rng.choice([1, 1, 0.1, 5]), 4)
        self.prop = np.round(r.uniform(0, 0.03, n) * rng.choice([1, 1, 3]), 4)
        if rng.random() < .2:
            self.quad[rng.randrange(n)] = 0
            self.prop[rng.randrange(n)] = 0
        self.budgets = np.round(r.dirichlet(np.ones(n) * 3), 4) + 0.01
        self.labels = NAMES[:n]
        self.named = rng.random() < .5

    @staticmethod
    def of(rec):
        """Data of a record emitted by OptimMC."""
        f = F.num
        self = Data.__new__(Data)
        self.n = rec["n"]
        self.mu = np.array([f(x) for x in rec["mu"]])
        self.S = np.array([[f(x) for x in r] for r in rec["S"]])
        self.R = np.array([[f(x) for x in r] for r in rec["sc"]])
        self.p = np.array([f(x) for x in rec["p"]])
        self.uniform = False
        self.alpha = f(rec["al"])
        self.w0 = np.array([f(x) for x in rec["w0"]])
        self.quad, self.prop = np.full(self.n, 0.125), np.full(self.n, 0.0625)
        self.budgets = np.array([f(x) for x in rec["b"]])
        self.labels = NAMES[:self.n]
        self.named = True
        return self

    def dist(self, kind, form=0, raw=False):
        """kind mom / scen / both; pandas when named."""
        mu, S, R, p = self.mu.copy(), self.S.copy(), self.R.copy(), self.p.copy()
        if self.named:
            mu, S = pd.Series(mu, index=self.labels), pd.DataFrame(S, index=self.labels, columns=self.labels)
            R = pd.DataFrame(R, columns=self.labels)
            p = pd.Series(p) if form % 2 else p
        kw = {}
        if kind in ("mom", "both"):
            kw.update(mu=mu, cov=S)
        if kind in ("scen", "both"):
            kw.update(scenarios=R)
            if not (self.uniform and form % 3 == 0):
                kw.update(probabilities=p)
        return kw if raw else AssetsDistribution(**kw)

    @property
    def lab(self):
        return self.labels if self.named else [str(i) for i in range(self.n)]


def v16(rng, lo, hi):
    return q(Fraction(rng.randint(lo, hi), 16))


def decl(rng, n, loose=False):
    """Mostly satisfiable declarations; now and then an impossible one."""
    d = F.empty(n)
    d["long"] = rng.random() < .75
    d["total"] = rng.choice(["1"] * 8 + ["1/2", "2", "0"]) if not loose else "1"
    tot = float(Fraction(d["total"]))
    r = rng.random()
    hi = rng.choice([0.4, 0.5, 0.6, 1.0, round(1.1 / n, 3), 1.0 / n])
    lo = rng.choice([0, 0, 0.05, -0.3, -0.1, 0.1])
    if r < .3:
        d["bounds"] = {"kind": "pair", "e": [[q(min(lo, hi)), q(hi)]]}
    elif r < .5:
        d["bounds"] = {"kind": "list", "e": [[q(rng.choice([0, -0.25, 0.05])), q(rng.choice([0.3, 0.6, 1, 2]))] for _ in range(n)]}
    elif r < .75:
        k = rng.randint(1, n)
        d["bounds"] = {"kind": "map", "e": [[i + 1, rng.choice(["none", q(0.1), q(-0.2), q(0)]),
                                             rng.choice(["none", q(0.2), q(0.5), q(0.45)])] for i in rng.sample(range(n), k)]}
    if d["long"] is False and d["bounds"]["kind"] == "none" and rng.random() < .8:
        d["bounds"] = {"kind": "pair", "e": [[q(-0.5), q(1)]]}
    if n > 1 and rng.random() < .3:
        i, j = rng.sample(range(1, n + 1), 2)
        d["rel"].append([i, j, q(rng.choice([0.1, 0, -0.1, 0.25]))])
    if n > 1 and rng.random() < .35:
        ms = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
        a, b = sorted([rng.choice([0, 0.2, 0.4]), rng.choice([0.3, 0.5, 0.8, 1])])
        d["groups"].append([ms, q(a * max(tot, .5)), q(b * max(tot, .5))])
    if rng.random() < .25:
        d["gh"].append([[q(rng.choice([-1, 0, 0.5, 1, 2])) for _ in range(n)], q(rng.choice([0.25, 0.5, 0.9, 0]))])
    if n > 2 and rng.random() < .2:
        row = [0] * n
        i, j = rng.sample(range(n), 2)
        row[i], row[j] = 1, rng.choice([-1, -2])
        d["ab"].append([[q(x) for x in row], q(rng.choice([0, 0, 0.05]))])
    return d


def loosen(rng, d):
    """Now and then a region without a budget row, without inequalities, or without anything."""
    r = rng.random()
    if r < .08:
        d["total"] = "none"
    elif r < .16:
        d.update(d, total="none" if r < .12 else d["total"], long=False, bounds={"kind": "none", "e": []}, rel=[], groups=[], gh=[])
        if r < .10:
            d["ab"] = []
    return d


def eff(d, form):
    """What is in force on a wrapper: nothing declared at construction means the default constraints."""
    return dict(d, long=True, total="1") if nothing(d) and form % 3 else d


def nothing(d):
    return not hyperplanes(d) and not (d["long"] or d["bounds"]["kind"] != "none" or d["rel"] or d["groups"] or d["gh"])


# --------------------------------------------------------------------------
# running the library
# --------------------------------------------------------------------------
def cons(d, form):
    _, kw = F.to_kwargs(d, form, {})
    return kw if form % 2 else Constraints(**kw)


def raw(d, form=0):
    """The declaration's matrices, spelled as arrays, as integers where they are integral, or as nested lists."""
    def spell(x):
        if x is None:
            return x
        if (form // 4) % 3 == 1:
            return whole(x)
        return x.tolist() if (form // 4) % 3 == 2 else x
    return tuple(spell(x) for x in Constraints(**F.to_kwargs(d, 0, {})[1]).to_matrices(d["n"]))


def whole(x):
    x = np.array(x, dtype=float)
    return x.astype(int) if np.array_equal(x, np.round(x)) else x


def wrapper(D, d, kind, form, costs=None, rng=None):
    """The wrapper and the per-call keywords putting declaration d (and costs) in force."""
    c = cons(d, form)

    def held(**kw):                                 # by the constructor or by the factory of the same data
        if kind == "mom" and form % 5 in (1, 3):
            x = D.dist(kind, form, raw=True)
            return PortfolioWrapper.from_moments(x["mu"], x["cov"], **kw)
        if kind == "scen" and form % 5 in (1, 3):
            x = D.dist(kind, form, raw=True)
            return PortfolioWrapper.from_scenarios(x["scenarios"], probabilities=x.get("probabilities"), **kw)
        return PortfolioWrapper(D.dist(kind, form), **kw)
    if form % 3 == 0 and rng is not None:           # override everything per call
        other = decl(rng, D.n)
        oc = None if costs is None else (TransactionCosts(initial_weights=np.ones(D.n) / D.n,
                                                          market_impact_costs=np.full(D.n, .7),
                                                          proportional_costs=np.full(D.n, .2)) if form % 4 == 0 else None)
        return held(constraints=cons(other, form + 1), costs=oc), {"constraints": c, **({} if costs is None else {"costs": costs})}
    if form % 3 == 1 and costs is not None:
        return held(constraints=c), {"costs": costs}
    return held(constraints=c, costs=costs), {}


def snap(*objs):
    out = []
    for o in objs:
        if isinstance(o, PortfolioWrapper):
            out.append([repr(getattr(o, k)) for k in ("G", "h", "A", "b", "initial_weights", "market_impact_costs",
                                                      "proportional_costs")] + snap(o.dist))
        elif isinstance(o, AssetsDistribution):
            out.append([repr(getattr(o, k)) for k in ("mu", "cov", "scenarios", "probabilities", "asset_names")])
        elif isinstance(o, TransactionCosts):
            out.append([repr(getattr(o, k)) for k in ("initial_weights", "market_impact_costs", "proportional_costs")])
        elif isinstance(o, dict):
            out.append([(k, snap(v)) for k, v in o.items()])
        elif isinstance(o, Constraints):
            out.append(F.snap(vars(o)))
        else:
            out.append(repr(o))
    return out


def rep(name, kind, x, **kw):
    o = {"name": name, "kind": kind, "x": qv(x) if np.ndim(x) else q(x)}
    for k, v in kw.items():
        a = np.asarray(v)
        o[k] = qm(a) if a.ndim == 2 else qv(a) if a.ndim == 1 else q(float(v))
    return o


def same_number(name, x, y):
    """Two numbers (or absences) that must agree."""
    return {"name": name, "kind": "equals", "x": "none" if x is None else q(x), "none": y is None, "y": "0" if y is None else q(y)}


STATS = {"wit": 0, "nowit": 0}


def wit_of(P, near=None):
    """A verified-tight witness as a list of zero or one."""
    b = P.witness(near)
    if b is None:
        STATS["nowit"] += 1
        return []
    u = P.reference() if any(t["t"] in ("norm", "gap") for t in P.obj) else None
    if u is not None and value(P.obj, u) - b[0] > 1e-6:
        STATS["nowit"] += 1
        return []
    STATS["wit"] += 1
    return [b[1]]


def finish_solve(ev, P, encd, res, w, labels, want, reports, sharpe=None, equal=None, goal=None, same=True, loose=1, certify=True,
                 bounded=None):
    k, _, exc = res
    out = {"k": k, "mro": mro(exc)}
    if k == "ok":
        out.update(w=qv(w), labels=labels, reports=reports)
    ok = k == "ok"
    ev.update(op="solve", P=P.enc(encd), extra=[[qv(a), q(b)] for a, b in P.extra], out=out, labels=want, same=same,
              sharpe=sharpe or [], equal=equal or [], goal=goal or [], loose=loose,
              fark=P.farkas() if (ok or certify) and P.cap is None else [],
              room=[] if ok else qv(P.room()),
              bounded=(P.bounded() if bounded is None else bounded) if not ok else True,
              wit=wit_of(P, w) if ok and certify and np.all(np.isfinite(w)) else [])
    if ok and ev["fark"]:
        ev["wit"] = []
    return ev


# ---- mean-variance -------------------------------------------------------
def terms_mv(D, costs):
    return [{"t": "quad", "M": D.S}] + ([{"t": "qcost", "l": D.quad, "w0": D.w0}] if costs else [])


def target_rows(mu, tau):
    return [] if tau is None else [(-np.asarray(mu), -tau)]


def labelled(D, w, strict=True):
    return [str(x) for x in w.index] if isinstance(w, pd.Series) else ["!"]


def mv_target(D, d, tau, costs, form, rng):
    direct = form % 4 == 3 or tau is None
    e = d if direct else eff(d, form)
    encd = F.enc(e)
    P = Problem(e, terms_mv(D, costs), extra=target_rows(D.mu, tau))
    tc = TransactionCosts(initial_weights=whole(D.w0), market_impact_costs=D.quad.copy()) if costs else None
    pd_ok = bool(np.linalg.eigvalsh(D.S).min() > 1e-3)
    if direct:
        G, h, A, b = raw(d, form)
        args = [D.mu.copy(), D.S.copy(), G, h, A, b]
        kw = dict(initial_weights=whole(D.w0), market_impact_costs=D.quad.copy()) if costs else {}
        s0 = snap(args, kw)
        res = call(lambda: MeanVariance(*args, **kw).efficient_portfolio(tau))
        same = s0 == snap(args, kw)
        w = res[1]
        return finish_solve({}, P, encd, res, w, [], [], [], same=same, bounded=pd_ok or None)
    W, kw = wrapper(D, d, rng.choice(["mom", "both"]), form, tc, rng)
    s0 = snap(W, tc, kw)
    res = call(lambda: W.min_variance_at_return(tau, **kw))
    same = s0 == snap(W, tc, kw)
    w, reports, lab = None, [], []
    if res[0] == "ok":
        w = np.asarray(res[1][0], float)
        lab = labelled(D, res[1][0])
        reports = [rep("return", "lin", res[1][1], a=D.mu), rep("risk", "vol", res[1][2], M=D.S)]
    return finish_solve({}, P, encd, res, w, lab, D.lab, reports, same=same, bounded=pd_ok or None)


def mv_sharpe(D, d, rf, rng):
    G, h, A, b = raw(d, rng.randrange(12))
    if d["total"] == "none":                  # a fully invested portfolio is meant
        d = dict(d, total="1")
    encd = F.enc(d)
    args = [D.mu.copy(), D.S.copy(), G, h, A, b]
    s0 = snap(args)
    res = call(lambda: MeanVariance(*args).max_sharpe(rf))
    same = s0 == snap(args)
    w, reports, k = None, [], 0.0
    if res[0] == "ok":
        w = np.asarray(res[1].weights, float)
        reports = [rep("return", "lin", res[1].nominal_return, a=D.mu), rep("risk", "vol", res[1].risk, M=D.S)]
        k = float((D.mu @ w - rf) / np.sqrt(w @ D.S @ w))
    P = Problem(d, [{"t": "lin", "a": -D.mu}, {"t": "norm", "k": max(k, 0.0), "S": D.S}])
    sh = [{"k": q(k), "S": qm(D.S), "mu": qv(D.mu), "rf": q(rf)}]
    ev = finish_solve({}, P, encd, res, w, [], [], reports, sharpe=sh if res[0] == "ok" else None, same=same, loose=4, bounded=False)
    if res[0] == "err":                       # solvable when some comfortable portfolio earns more than rf
        P2 = Problem(d, [], extra=[(-D.mu, -(rf + 0.02))])
        ev["extra"] = [[qv(a), q(b)] for a, b in P2.extra]
        ev["room"] = qv(P2.room())
        ev["bounded"] = bool(P2.room()) and P.bounded()
    return ev


def overlays(D, fr, kind, j):
    """Alternate risk rows of column j."""
    out = []
    for name, arr in (fr.alternate_risks or {}).items():
        x = float(np.asarray(arr)[j])
        if name == "Volatility":
            out.append(rep("volatility-overlay", "vol", x, M=covp(D)))
        elif name.startswith("CVaR (95%)"):
            out.append(rep("cvar-overlay", "cvar", x, R=D.R, p=D.p, al=1 - 0.95))
        elif name.startswith("CVaR (raw"):
            out.append(rep("raw-cvar", "cvar", x, R=D.R, p=D.p, al=D.alpha))
        else:
            out.append(rep("unknown-overlay", "bad", x))
    return out


def covp(D):
    m = D.p @ D.R
    X = D.R - m
    return (X * D.p[:, None]).T @ X


def columns(P, d, mu, obj_of, fr_w, rep_of, own=True, every=1):
    cols = []
    H = [*P.extra]
    for j in range(fr_w.shape[1]):
        w = np.asarray(fr_w[:, j], float)
        obj = obj_of(j)
        wit, slack = [], 0.0
        if np.all(np.isfinite(w)):
            for slack in ((0.0, 1e-6) if own else (0.0,)):
                extra = H if not own else H + [(-mu, -(float(mu @ w) - slack - 2e-16))]
                Pj = Problem(d, obj, extra=extra)
                wit = wit_of(Pj, w)
                if wit:
                    break
                if own and slack == 0.0:
                    STATS["nowit"] -= 1
        cols.append({"w": qv(w), "obj": [enc_term(t) for t in obj], "wit": wit, **rep_of(j, w)})
    return cols


def finish_frontier(P, encd, res, fr, mu, num, labels, want, obj_of, rep_of, own=True, ordered=False, lambdas=(), meta=(), same=True,
                    bounded=None):
    k, _, exc = res
    out = {"k": k, "mro": mro(exc)}
    ok = k == "ok"
    d = P.d
    wmin = wmax = []
    if ok:
        W = np.asarray(fr, float)
        out.update(labels=labels, meta=[q(x) for x in meta],
                   cols=columns(P, d, mu, obj_of, W, rep_of, own))
        if own:
            wmin = wit_of(P, W[:, 0])
            wmax = wit_of(Problem(d, [{"t": "lin", "a": -np.asarray(mu)}]))
    return {"op": "frontier", "P": P.enc(encd), "mu": qv(mu), "num": num, "own": own, "ordered": ordered,
            "lambdas": [q(x) for x in lambdas], "out": out, "labels": want, "same": same, "fark": P.farkas(),
            "room": [] if ok else qv(P.room()), "bounded": True if ok else (P.bounded() if bounded is None else bounded),
            "wmin": wmin, "wmax": wmax}


def mv_frontier(D, d, num, costs, form, rng):
    e = d if form % 4 == 3 else eff(d, form)
    encd = F.enc(e)
    P = Problem(e, terms_mv(D, costs))
    tc = TransactionCosts(initial_weights=whole(D.w0), market_impact_costs=D.quad.copy()) if costs else None
    kind = rng.choice(["mom", "both"])
    if form % 4 == 3:
        G, h, A, b = raw(d, form)
        kw = dict(initial_weights=whole(D.w0), market_impact_costs=D.quad.copy()) if costs else {}
        args = [D.mu.copy(), D.S.copy(), G, h, A, b]
        s0 = snap(args, kw)
        res = call(lambda: MeanVariance(*args, **kw).efficient_frontier(num))
        return finish_frontier(P, encd, res, res[1], D.mu, num, [], [], lambda j: P.obj,
                               lambda j, w: {"ret": "0", "risk": "0", "reports": []}, same=s0 == snap(args, kw))
    W, kw = wrapper(D, d, kind, form, tc, rng)
    s0 = snap(W, tc, kw)
    res = call(lambda: W.variance_frontier(num, **kw))
    same = s0 == snap(W, tc, kw)
    fr = res[1]

    def reps(j, w):
        return {"ret": q(fr.returns[j]), "risk": q(fr.risks[j]),
                "reports": [rep("return", "lin", fr.returns[j], a=D.mu), rep("risk", "vol", fr.risks[j], M=D.S)]
                + overlays(D, fr, "mv", j)}
    return finish_frontier(P, encd, res, fr.weights if res[0] == "ok" else None, D.mu, num,
                           list(fr.asset_names or D.lab) if res[0] == "ok" else [], D.lab, lambda j: P.obj, reps, same=same)


# ---- CVaR ----------------------------------------------------------------
def terms_cv(D, costs):
    return [{"t": "cvar", "R": D.R, "p": D.p, "al": D.alpha}] + ([{"t": "pcost", "c": D.prop, "w0": D.w0}] if costs else [])


def cv_target(D, d, tau, costs, form, rng):
    direct = form % 4 == 3 or tau is None
    e = d if direct else eff(d, form)
    encd = F.enc(e)
    kind = rng.choice(["scen", "scen", "both"])
    mu = D.mu if kind == "both" else D.p @ D.R
    tc = TransactionCosts(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else None
    if direct:
        mu = D.p @ D.R
        P = Problem(d, terms_cv(D, costs), extra=target_rows(mu, tau))
        G, h, A, b = raw(d, form)
        kw = dict(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else {}
        args = [D.R.copy(), D.p.copy(), D.alpha, G, h, A, b]
        s0 = snap(args, kw)
        res = call(lambda: MeanCVaR(*args, **kw).efficient_portfolio(tau))
        return finish_solve({}, P, encd, res, res[1], [], [], [], same=s0 == snap(args, kw))
    P = Problem(e, terms_cv(D, costs), extra=target_rows(mu, tau))
    W, kw = wrapper(D, d, kind, form, tc, rng)
    s0 = snap(W, tc, kw)
    res = call(lambda: W.min_cvar_at_return(tau, alpha=D.alpha, **kw))
    same = s0 == snap(W, tc, kw)
    w, reports, lab = None, [], []
    if res[0] == "ok":
        w = np.asarray(res[1][0], float)
        lab = labelled(D, res[1][0])
        reports = [rep("return", "lin", res[1][1], a=mu), rep("cvar", "cvar", res[1][2], R=D.R, p=D.p, al=D.alpha)]
    return finish_solve({}, P, encd, res, w, lab, D.lab, reports, same=same)


def cv_simulated(D, d, tau, form, rng):
    """No scenarios: the library simulates them; constraints and target still bind."""
    e = eff(d, form)
    encd = F.enc(e)
    P = Problem(e, [], extra=target_rows(D.mu, tau))
    W, kw = wrapper(D, d, "mom", form, None, rng)
    s0 = snap(W, kw)
    res = call(lambda: W.min_cvar_at_return(tau, alpha=D.alpha, seed=rng.randrange(1000), **kw))
    w, reports, lab = None, [], []
    if res[0] == "ok":
        w = np.asarray(res[1][0], float)
        lab = labelled(D, res[1][0])
        reports = [rep("return", "lin", res[1][1], a=D.mu)]
    return finish_solve({}, P, encd, res, w, lab, D.lab, reports, same=s0 == snap(W, kw), certify=False)


def cv_frontier(D, d, num, costs, form, rng):
    e = d if form % 4 == 3 else eff(d, form)
    encd = F.enc(e)
    kind = rng.choice(["scen", "scen", "both"])
    mu = D.mu if kind == "both" else D.p @ D.R
    P = Problem(e, terms_cv(D, costs))
    tc = TransactionCosts(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else None
    if form % 4 == 3:
        mu = D.p @ D.R
        G, h, A, b = raw(d, form)
        kw = dict(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else {}
        args = [D.R.copy(), D.p.copy(), D.alpha, G, h, A, b]
        s0 = snap(args, kw)
        res = call(lambda: MeanCVaR(*args, **kw).efficient_frontier(num))
        return finish_frontier(P, encd, res, res[1], mu, num, [], [], lambda j: P.obj,
                               lambda j, w: {"ret": "0", "risk": "0", "reports": []}, same=s0 == snap(args, kw))
    W, kw = wrapper(D, d, kind, form, tc, rng)
    convex = form % 2 == 0
    s0 = snap(W, tc, kw)
    res = call(lambda: W.cvar_frontier(num, alpha=D.alpha, enforce_convexity=convex, **kw))
    same = s0 == snap(W, tc, kw)
    fr = res[1]

    def reps(j, w):
        o = [rep("return", "lin", fr.returns[j], a=mu)] + overlays(D, fr, "cv", j)
        if not convex:
            o.append(rep("cvar", "cvar", fr.risks[j], R=D.R, p=D.p, al=D.alpha))
        elif not costs:                     # the correction only absorbs solver noise: the frontier is convex already
            o.append(rep("corrected-cvar", "nearcvar", fr.risks[j], R=D.R, p=D.p, al=D.alpha))
        return {"ret": q(fr.returns[j]), "risk": q(fr.risks[j]), "reports": o}
    return finish_frontier(P, encd, res, fr.weights if res[0] == "ok" else None, mu, num,
                           list(fr.asset_names or D.lab) if res[0] == "ok" else [], D.lab, lambda j: P.obj, reps, same=same)


# ---- robust --------------------------------------------------------------
def terms_ro(D, lam, costs):
    return [{"t": "lin", "a": -D.mu}, {"t": "norm", "k": float(lam), "S": D.S}] + (
        [{"t": "pcost", "c": D.prop, "w0": D.w0}] if costs else [])


def ro_solve(D, d, lam, cap2, costs, form, rng):
    e = d if cap2 is None or form % 4 == 3 else eff(d, form)
    encd = F.enc(e)
    cap = None if cap2 is None else (D.S, float(np.sqrt(cap2)))
    P = Problem(e, terms_ro(D, lam, costs), cap=cap)
    tc = TransactionCosts(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else None
    if cap2 is None or form % 4 == 3:
        G, h, A, b = raw(d, form)
        kw = dict(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else {}
        args = [D.mu.copy(), D.S.copy(), G, h, A, b]
        s0 = snap(args, kw)
        res = call(lambda: RobustOptimizer(*args, **kw).solve_lambda_variant(lam) if cap2 is None
                   else RobustOptimizer(*args, **kw).solve_gamma_variant(lam, cap2))
        w, reports = None, []
        if res[0] == "ok":
            w = np.asarray(res[1].weights, float)
            reports = [rep("return", "lin", res[1].nominal_return, a=D.mu), rep("radius", "radius", res[1].risk, M=D.S)]
        return finish_solve({}, P, encd, res, w, [], [], reports, same=s0 == snap(args, kw), loose=6)
    W, kw = wrapper(D, d, rng.choice(["mom", "both"]), form, tc, rng)
    s0 = snap(W, tc, kw)
    res = call(lambda: W.solve_robust_gamma_portfolio(lam, cap2, **kw))
    w, reports, lab = None, [], []
    if res[0] == "ok":
        w = np.asarray(res[1][0], float)
        lab = labelled(D, res[1][0])
        reports = [rep("return", "lin", res[1][1], a=D.mu), rep("squared-radius", "radius2", res[1][2], M=D.S)]
    return finish_solve({}, P, encd, res, w, lab, D.lab, reports, same=s0 == snap(W, tc, kw), loose=6)


def ro_frontier(D, d, lams, costs, form, rng):
    """lams: explicit list, or (num, max)."""
    e = eff(d, form)
    encd = F.enc(e)
    P = Problem(e, terms_ro(D, 1, costs))
    tc = TransactionCosts(initial_weights=whole(D.w0), proportional_costs=D.prop.copy()) if costs else None
    kind = rng.choice(["mom", "both"])
    W, kw = wrapper(D, d, kind, form, tc, rng)
    if isinstance(lams, tuple):
        num, mx = lams
        grid = [float(mx)] if num == 1 else [0.0] if mx == 0 else [float(x) for x in np.linspace(0, mx, num)]
        kw2 = dict(num_portfolios=num, max_lambda=mx)
    else:
        grid, kw2 = [float(x) for x in lams], dict(lambdas=lams)
    rc = None
    if form % 5 == 0:
        rc = D.S * 4 + 0.01 * np.eye(D.n)
        kw2["return_cov"] = pd.DataFrame(rc, index=D.labels, columns=D.labels).iloc[::-1, ::-1] if D.named else rc.copy()
    s0 = snap(W, tc, kw, kw2)
    res = call(lambda: W.robust_lambda_frontier(**kw2, **kw))
    same = s0 == snap(W, tc, kw, kw2)
    fr = res[1]
    meta = [m["lambda"] for m in fr.metadata] if res[0] == "ok" else []

    def reps(j, w):
        o = [rep("return", "lin", fr.returns[j], a=D.mu), rep("radius", "radius", fr.risks[j], M=D.S)]
        for a in overlays(D, fr, "ro", j):
            if a["name"] == "volatility-overlay" and rc is not None:
                a = rep("volatility-overlay", "vol", Fraction(a["x"]), M=rc)
            o.append(a)
        return {"ret": q(fr.returns[j]), "risk": q(fr.risks[j]), "reports": o}
    return finish_frontier(P, encd, res, fr.weights if res[0] == "ok" else None, D.mu, len(grid),
                           list(fr.asset_names or D.lab) if res[0] == "ok" else [], D.lab,
                           lambda j: terms_ro(D, meta[j], costs), reps, own=False, ordered=True, lambdas=grid, meta=meta, same=same)


# ---- relaxed risk parity ---------------------------------------------------
def rp_decl(d):
    d = copy.deepcopy(d)
    d["long"] = True
    if d["total"] == "none":
        d["total"] = "1"
    return d


def plain(d):
    return not (d["rel"] or d["groups"] or d["gh"] or d["ab"]) and d["bounds"]["kind"] == "none"


def best_return(D, d):
    P = Problem(d, [])
    r = lp(-D.mu, P.H, P.h, P.E, P.e, [(None, None)] * D.n)
    return -r.fun if r.status == 0 else None


def rp_problem(D, d, lam, b, tau):
    zeta = [(-D.S[i], 0.0) for i in range(D.n)]
    return Problem(d, [{"t": "gap", "S": D.S, "lam": float(lam), "b": b}], extra=zeta + target_rows(D.mu, tau))


def rp_goal(D, d, b, asked, used, base, lam):
    top = best_return(D, d)
    if top is None:
        return []
    exp = max(min(asked, top - max(1e-8, 1e-3 * abs(top))), base)
    z = rp_problem(D, d, lam, b, exp - 1e-12).room()
    return [{"asked": q(asked), "used": "none" if used is None else q(used), "base": q(base), "max": q(top), "mu": qv(D.mu), "room": qv(z)}]


def rp_raw(D, d, lam, tau, budgets, min_target=None):
    rd = rp_decl(d)
    encd = F.enc(rd)
    b = D.budgets / D.budgets.sum() if budgets else np.full(D.n, 1 / D.n)
    G, h, A, bb = raw(d, len(d["gh"]) * 4 + (4 if budgets else 8 if tau is None else 0))
    args = [D.mu.copy(), D.S.copy(), G, h, A, bb]
    kw = dict(risk_budgets=D.budgets.copy()) if budgets else {}
    s0 = snap(args, kw)
    res = call(lambda: RelaxedRiskParity(*args, **kw).solve(lambda_reg=lam, return_target=tau, min_target=min_target))
    same = s0 == snap(args, kw)
    used, w, reports, goal = None, None, [], []
    if res[0] == "ok":
        r = res[1]
        w, used = np.asarray(r.weights, float), r.target_return
        reports = [rep("marginal-risk", "marg", r.marginal_risk, M=D.S), rep("gap", "gapval", r.objective, M=D.S, lam=lam, b=b)]
        if tau is not None:
            goal = rp_goal(D, rd, b, tau, used, -1000.0 if min_target is None else min_target, lam)
            top = best_return(D, rd)
            if top is not None:
                reports.append(same_number("max-return", r.max_return, top))
    P = rp_problem(D, rd, lam, b, used)
    eq = [{"S": qm(D.S), "b": qv(b)}] if lam == 0 and used is None and plain(d) else None
    if res[0] == "err" and tau is not None:
        top = best_return(D, rd)
        tau = tau if top is None else min(tau, top - max(1e-8, 1e-3 * abs(top)))
        P = rp_problem(D, rd, lam, b, tau if min_target is None else max(tau, min_target))
    return finish_solve({}, P, encd, res, w, [], [], reports, equal=eq, goal=goal, same=same, loose=5)


def rp_diag(D, d, lam, mult, tau, budgets, form, rng):
    """Portfolio and diagnostics; returns the list of solve events it implies."""
    rd = rp_decl(d)
    encd = F.enc(rd)
    b = D.budgets / D.budgets.sum() if budgets else np.full(D.n, 1 / D.n)
    W, kw = wrapper(D, d, rng.choice(["mom", "both"]), form, None, rng)
    kw2 = dict(lambda_reg=lam, target_multiplier=mult, return_target=tau, **(dict(risk_budgets=D.budgets.copy()) if budgets else {}))
    s0 = snap(W, kw, kw2)
    res = call(lambda: W.relaxed_risk_parity_portfolio_with_diagnostics(**kw2, **kw))
    same = s0 == snap(W, kw, kw2)
    if res[0] == "err":
        P = rp_problem(D, rd, lam, b, None)
        return [finish_solve({}, P, encd, res, None, [], [], [], same=same)]
    ws, ret, risk, g = res[1]
    w = np.asarray(ws, float)
    used, base = g["target_return"], max(g["risk_parity_return"], 0.0)
    reports = [rep("return", "lin", ret, a=D.mu), rep("risk", "vol", risk, M=D.S),
               rep("achieved-return", "lin", g["achieved_return"], a=D.mu),
               rep("risk-contributions", "contrib", g["risk_contributions"], M=D.S),
               rep("risk-shares", "share", g["risk_contributions_pct"], M=D.S),
               rep("marginal-risk", "marg", g["marginal_risk"], M=D.S),
               rep("variance", "radius2", g["portfolio_variance"], M=D.S)]
    asked = tau if tau is not None else (None if mult is None else mult * base)
    reports.append(same_number("requested-target", g["requested_target"], asked))
    if used is not None and asked is not None:
        clip = not np.isclose(used, asked, rtol=1e-8, atol=1e-10)
        reports.append({"name": "clipping-flag", "kind": "flag", "x": bool(g["target_clipped"]), "y": bool(clip)})
    lam_used = lam
    goal = rp_goal(D, rd, b, asked, used, base, lam) if asked is not None else []
    P = rp_problem(D, rd, lam_used, b, used)
    reports.append(rep("gap", "gapval", g["objective"], M=D.S, lam=lam, b=b))
    eq = [{"S": qm(D.S), "b": qv(b)}] if lam == 0 and used is None and plain(d) else None
    ev = finish_solve({}, P, encd, res, w, labelled(D, ws), D.lab, reports, equal=eq, goal=goal, same=same, loose=5)
    # the anchor the diagnostics quote
    w1 = np.asarray(g["risk_parity_weights"], float)
    P1 = rp_problem(D, rd, 0.0, b, None)
    e1 = finish_solve({}, P1, encd, res, w1, [], [], [rep("risk-parity-return", "lin", g["risk_parity_return"], a=D.mu)],
                      equal=[{"S": qm(D.S), "b": qv(b)}] if plain(d) else None, loose=5)
    return [ev, e1]


def rp_frontier(D, d, mults, lam, include, budgets, form, rng):
    rd = rp_decl(d)
    encd = F.enc(rd)
    b = D.budgets / D.budgets.sum() if budgets else np.full(D.n, 1 / D.n)
    W, kw = wrapper(D, d, rng.choice(["mom", "both"]), form, None, rng)
    kw2 = dict(lambda_reg=lam, include_risk_parity=include, **(dict(risk_budgets=D.budgets.copy()) if budgets else {}))
    if isinstance(mults, tuple):
        kw2.update(num_portfolios=mults[0], max_multiplier=mults[1])
        grid = [max(1.0, mults[1])] if mults[0] == 1 else [float(x) for x in np.linspace(1.0, mults[1], mults[0])]
    else:
        kw2.update(target_multipliers=mults)
        grid = [float(x) for x in mults]
    s0 = snap(W, kw, kw2)
    res = call(lambda: W.relaxed_risk_parity_frontier(**kw2, **kw))
    same = s0 == snap(W, kw, kw2)
    fr = res[1]
    P = rp_problem(D, rd, lam, b, None)
    if res[0] == "err":
        return [finish_solve({}, P, encd, res, None, [], [], [], same=same)]
    evs = []
    if fr.weights.shape[1] != len(grid) + (1 if include else 0) or len(fr.metadata) != fr.weights.shape[1]:
        return [{"op": "escape", "what": "frontier-size", "msg": str(fr.weights.shape)}]
    base = None
    for j in range(fr.weights.shape[1]):
        w, m = np.asarray(fr.weights[:, j], float), fr.metadata[j]
        anchor = include and j == 0
        reports = [rep("return", "lin", fr.returns[j], a=D.mu), rep("risk", "vol", fr.risks[j], M=D.S)] + overlays(D, fr, "rp", j)
        lamj = 0.0 if anchor else lam
        mult = None if anchor else grid[j - (1 if include else 0)]
        reports += [same_number("multiplier", m["target_multiplier"], mult), same_number("penalty", m["lambda_reg"], lamj),
                    rep("gap", "gapval", m["objective"], M=D.S, lam=lamj, b=b)]
        if anchor:
            base = max(float(fr.returns[0]), 0.0)
        used, goal = m["effective_target"], []
        if not anchor and base is not None:
            reports.append(same_number("requested-target", m["requested_target"], mult * base))
            goal = rp_goal(D, rd, b, mult * base, used, base, lam)
        elif not anchor:
            goal = rp_goal(D, rd, b, m["requested_target"], used, m["requested_target"] / mult if mult else 0.0, lam) if mult else []
        Pj = rp_problem(D, rd, lamj, b, used)
        evs.append(finish_solve({}, Pj, encd, res, w, list(fr.asset_names or D.lab), D.lab, reports, goal=goal, same=same, loose=5,
                                equal=[{"S": qm(D.S), "b": qv(b)}] if lamj == 0 and used is None and plain(d) else None))
    return evs


# --------------------------------------------------------------------------
# requests
# --------------------------------------------------------------------------
def span(D, d, mu):
    """A few interesting return targets of region d."""
    P = Problem(d, [])
    lo = lp(mu, P.H, P.h, P.E, P.e, [(-5, 5)] * D.n)
    hi = lp(-mu, P.H, P.h, P.E, P.e, [(-5, 5)] * D.n)
    if lo.status != 0 or hi.status != 0:
        return [0.05]
    a, b = lo.fun, -hi.fun
    return [round(a + t * (b - a), 5) for t in (0.2, 0.5, 0.7, 0.9)] + [round(b + 0.02, 5), round(a - 0.05, 5)]


def pick_tau(D, d, mu, rng):
    return float(rng.choice(span(D, d, mu)))


def session(ctx, out, sid, fn):
    out.append(ctx.run_session(sid, {}, fn, timeout=120))


def as_list(x):
    return x if isinstance(x, list) else [x]


def make(kind, rng, n=None):
    """One random request of the given family -> list of events."""
    n = n or size(rng, [1, 2, 2, 3, 3, 3, 4, 5], [7, 9, 11], 0.03)
    D, d, form, costs = Data(rng, n), loosen(rng, decl(rng, n)), rng.randrange(60), rng.random() < .4
    if costs and rng.random() < .3:                    # trading across zero
        d["long"], d["bounds"] = False, {"kind": "pair", "e": [[q(-0.5), q(1)]]}
        D.w0 = np.array([rng.choice([-0.2, 0, 0, 0.5]) for _ in range(n)])
    if kind == "mv":
        r = rng.random()
        if r < .5:
            tau = None if rng.random() < .25 else pick_tau(D, d, D.mu, rng)
            return [mv_target(D, d, tau, costs, form, rng)]
        if r < .8:
            return [mv_frontier(D, d, rng.choice([1, 2, 3, 4, 6]), costs, form, rng)]
        d["total"] = "none" if d["total"] == "none" else "1"
        return [mv_sharpe(D, d, rng.choice([0.0, 0.01, -0.02, 0.03]), rng)]
    if kind == "cvar":
        mu = D.p @ D.R
        if rng.random() < .6:
            tau = None if rng.random() < .25 else pick_tau(D, d, mu, rng)
            return [cv_target(D, d, tau, costs, form, rng)]
        return [cv_frontier(D, d, rng.choice([1, 2, 3, 5]), costs, form, rng)]
    if kind == "robust":
        r = rng.random()
        if r < .35:
            return [ro_solve(D, d, rng.choice([0, 0, 0.1, 0.5, 1, 3]), None, costs, form, rng)]
        if r < .65:
            P = Problem(d, [{"t": "norm", "k": 1.0, "S": D.S}])
            u = P.reference()
            c = 0.04 if u is None else float(u @ D.S @ u) * rng.choice([1.2, 2, 4, 0.8]) + 1e-3
            return [ro_solve(D, d, rng.choice([0, 0, 0.1, 0.7]), round(c, 5), costs, form, rng)]
        lams = rng.choice([(4, 2.0), (1, 1.5), (3, 0.4), (2, 0), [0.3], [2, 0.5, 0, 0.5], [0.1, 1.0, 0.2], [0, 0]])
        return [ro_frontier(D, d, lams, costs, form, rng)]
    if kind == "rrp":
        if rng.random() < .5:
            d = dict(F.empty(n), long=rng.random() < .8, total="1")
        elif d["total"] == "0":
            d["total"] = "1"
        if rng.random() < .6:
            D.mu = np.abs(D.mu) + .01
        elif rng.random() < .3:     # losing parity portfolio, and nothing gained by the best asset either
            D.mu = -np.abs(D.mu) - .01
            D.mu[rng.randrange(n)] = 0.0
        lam = rng.choice([0.0, 0.0, 0.2, 1.0])
        bud = rng.random() < .3
        r = rng.random()
        if r < .4:
            rd = rp_decl(d)
            tau = None if rng.random() < .5 else pick_tau(D, rd, D.mu, rng)
            return [rp_raw(D, d, lam, tau, bud)]
        if r < .75:
            tau = pick_tau(D, rp_decl(d), D.mu, rng) if rng.random() < .4 else None
            mult = rng.choice([1.2, 1.0, 0.5, 1.6, 3.0])
            if rng.random() < .3:
                lam, mult, tau = 0.0, None, None
            return rp_diag(D, d, lam, mult, tau, bud, form, rng)
        return rp_frontier(D, d, rng.choice([(3, 1.6), (1, 1.3), (2, 1.0), [1.1], [1.5, 1.0, 2.5], [0.0, 1.2]]), lam,
                           rng.random() < .7, bud, form, rng)
    tau = pick_tau(D, d, D.mu, rng)
    return [cv_simulated(D, d, tau, form, rng)]


def losing(rng, k):
    """Risk parity where the parity portfolio loses and the best asset gains nothing: the default target leaves no choice."""
    n = 2 + k % 3
    D = Data(rng, n)
    D.mu = -np.abs(D.mu) - .01
    D.mu[k % n] = 0.0
    return rp_diag(D, dict(F.empty(n), long=True, total="1"), [0.0, 0.2][k % 2], 1.2, None, k % 4 < 2, k, rng)


def replay(rec, k, rng):
    """A problem emitted by the model, asked of the library in one of its spellings."""
    D, d, a, costs = Data.of(rec), rec["d"], rec["ask"], rec["cost"]
    tau = None if a["tau"] == "none" else F.num(a["tau"])
    kind = a["kind"]
    if kind == "mv":
        return [mv_target(D, d, tau, costs, k, rng)]
    if kind == "cvar":
        return [cv_target(D, d, tau, costs, k, rng)]
    if kind == "robust":
        return [ro_solve(D, d, 0.5, None, costs, k, rng)]
    return [rp_raw(D, d, 0.25 if costs else 0.0, None, not costs)]


def refusals(kind, rng):
    D = Data(rng, 3)
    D.named = False
    out = []

    def ask(fn, same=True):
        r = call(fn)
        out.append({"op": "refuse", "out": {"k": r[0], "mro": mro(r[2])}, "same": same})
    W = PortfolioWrapper(D.dist("mom"))
    if kind == "sim":
        return []
    one = np.ones((1, 3))
    make = {"mv": lambda G, h, A, b: MeanVariance(D.mu, D.S, G, h, A, b).efficient_portfolio(None),
            "cvar": lambda G, h, A, b: MeanCVaR(D.R, D.p, D.alpha, G, h, A, b).efficient_portfolio(None),
            "robust": lambda G, h, A, b: RobustOptimizer(D.mu, D.S, G, h, A, b).solve_lambda_variant(0.5),
            "rrp": lambda G, h, A, b: RelaxedRiskParity(D.mu, D.S, G, h, A, b).solve()}[kind]
    I, z, t = -np.eye(3), np.zeros(3), np.ones(1)
    for bad in ((-np.eye(4), np.zeros(4), one, t), (-np.eye(2), np.zeros(2), one, t), (I, np.zeros(2), one, t), (I, np.zeros(4), one, t),
                (I, z, np.ones((1, 2)), t), (I, z, np.ones((1, 4)), t), (I, z, one, np.ones(2)), (I, z, np.ones((2, 3)), t)):
        ask(lambda: make(*bad))
    if kind == "robust":
        for f in (lambda: W.robust_lambda_frontier(lambdas=[-1.0]), lambda: W.robust_lambda_frontier(lambdas=[]),
                  lambda: W.robust_lambda_frontier(num_portfolios=0), lambda: W.robust_lambda_frontier(max_lambda=-1.0),
                  lambda: W.solve_robust_gamma_portfolio(-0.1, 0.1), lambda: W.solve_robust_gamma_portfolio(0.1, -0.1),
                  lambda: W.robust_lambda_frontier(lambdas=[0.5, -0.5])):
            ask(f)
    if kind == "rrp":
        for f in (lambda: W.relaxed_risk_parity_portfolio(lambda_reg=-0.1), lambda: W.relaxed_risk_parity_portfolio(target_multiplier=-1.0),
                  lambda: W.relaxed_risk_parity_portfolio(return_target=float("nan")),
                  lambda: W.relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=None),
                  lambda: W.relaxed_risk_parity_frontier(lambda_reg=-1.0), lambda: W.relaxed_risk_parity_frontier(num_portfolios=0),
                  lambda: W.relaxed_risk_parity_frontier(max_multiplier=0.5), lambda: W.relaxed_risk_parity_frontier(target_multipliers=[]),
                  lambda: W.relaxed_risk_parity_frontier(target_multipliers=[1.0, -1.0]),
                  lambda: W.relaxed_risk_parity_portfolio(risk_budgets=np.array([0.5, 0.5])),
                  lambda: W.relaxed_risk_parity_portfolio(risk_budgets=np.array([0.5, 0.5, 0.0])),
                  lambda: W.relaxed_risk_parity_portfolio(risk_budgets=np.array([0.5, -0.5, 1.0]))):
            ask(f)
    return out


COMMON = {"inputs-unchanged", "fails-with-an-error", "finite-weights", "obeys-constraints", "labels", "optimal",
          "no-trial-portfolio-better"}


def run(ctx, kinds, counts, recs_kinds, required, assumptions):
    STATS.update(wit=0, nowit=0)
    rng = ctx.rng("optim")
    out = []
    recs = ctx.model_check("OptimMC", "OptimMC3" if ctx.thorough else "OptimMC")
    for k, r in enumerate(recs):
        if r["ask"]["kind"] in recs_kinds and (len(recs_kinds) == 1 or k % 4 == 0 or ctx.thorough):
            session(ctx, out, f"mc-{k}", lambda: replay(r, k, rng))
    for kind, n in zip(kinds, counts):
        for k in range(n):
            session(ctx, out, f"{kind}-{k}", lambda: make(kind, rng))
        for k in range(ctx.n(12, 40) if kind == "rrp" else 0):
            session(ctx, out, f"losing-{k}", lambda: losing(rng, k))
        bad = refusals(kind, rng)
        if bad:
            session(ctx, out, f"refuse-{kind}", lambda: bad)
    tot = STATS["wit"] + STATS["nowit"]
    if tot and STATS["nowit"] > 0.12 * tot:
        raise MachineryError(f"witness generation degenerated: {STATS}")
    ctx.notes["witnesses"] = dict(STATS)
    ctx.validate("OptimTrace", out)
    ctx.required_clauses = required
    return ctx.finish(assumptions=assumptions)


ASSUME = ["optimality is claimed among portfolios of gross exposure up to 10",
          "solver tolerance: constraints 2e-6, objective 3e-6 relative to 0.1+|value| (frontier columns and cone programs up to 6 times that)",
          "requests whose witness search fails are judged on constraints and reports only (counted in the evidence)"]


def check_mv(ctx):
    return run(ctx, ["mv"], [ctx.n(330, 3000)], {"mv"},
               COMMON | {"column-optimal", "starts-at-minimum-risk", "ends-at-maximum-return", "returns-increase", "frontier-size",
                         "reported-return", "reported-risk", "impossible-requests-fail", "own-sharpe-ratio",
                         "answers-feasible-requests"} - {"impossible-requests-fail", "answers-feasible-requests"}, ASSUME)


def check_cvar(ctx):
    return run(ctx, ["cvar"], [ctx.n(400, 3000)], {"cvar"},
               COMMON | {"column-optimal", "starts-at-minimum-risk", "ends-at-maximum-return", "reported-cvar", "reported-raw-cvar",
                         "reported-corrected-cvar"}, ASSUME)


def check_robust(ctx):
    return run(ctx, ["robust"], [ctx.n(300, 2500)], {"robust"},
               COMMON | {"column-optimal", "ordered-by-risk", "every-penalty-once", "reported-radius", "reported-squared-radius"}, ASSUME)


def check_rrp(ctx):
    return run(ctx, ["rrp"], [ctx.n(260, 2500)], {"rrp"},
               COMMON | {"equal-risk-contributions", "target-as-requested", "target-reached", "reported-risk-contributions"}, ASSUME)


def check_feasible(ctx):
    a, b = ctx.n(80, 700), ctx.n(16, 200)
    return run(ctx, ["mv", "cvar", "robust", "rrp", "sim"], [a, a, a, a, b], {"mv", "cvar", "robust", "rrp"}, COMMON, ASSUME)
