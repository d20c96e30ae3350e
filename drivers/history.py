"""Driver of the history-independence property (spec/Hist.tla, HistMC, HistTrace)."""
import os
import pickle
import random
import struct

import numpy as np
import pandas as pd
from cvxopt import solvers

from pyvallocation import optimization as op
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints
from stress import snap
from vkit import MachineryError, call, labels_of, mro, qv


# ---- answers of a process without history ---------------------------------
class Fresh:
    """Processes forked before the library was used; each request is answered in a fork of its own."""

    def __init__(self, n=6):
        self.ends = []
        for _ in range(n):
            a, b = os.pipe(), os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(a[1])
                    os.close(b[0])
                    for r, w in self.ends:
                        os.close(r)
                        os.close(w)
                    self.serve(a[0], b[1])
                finally:
                    os._exit(0)
            os.close(a[0])
            os.close(b[1])
            self.ends.append((b[0], a[1]))

    @staticmethod
    def read(fd):
        head = b""
        while len(head) < 8:
            x = os.read(fd, 8 - len(head))
            if not x:
                return None
            head += x
        n, buf = struct.unpack("q", head)[0], b""
        while len(buf) < n:
            x = os.read(fd, n - len(buf))
            if not x:
                return None
            buf += x
        return pickle.loads(buf)

    @staticmethod
    def write(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, rd, wr):
        while True:
            batch = self.read(rd)
            if batch is None:
                return
            out = []
            for desc in batch:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        seed, o, req, c, k, d = desc
                        world = World(seed)
                        world.build(cons=c, costs=k, only=o)
                        if d == 2:
                            world.objs[o - 1].dist = world.other()
                        ans = show(world.request(o, req, 0, 0)[0])
                        self.write(w, ans)
                    except BaseException as e:  # noqa: BLE001
                        self.write(w, {"k": "broken", "mro": [repr(e)[:300]]})
                    finally:
                        os._exit(0)
                os.close(w)
                out.append(self.read(r))
                os.close(r)
                os.waitpid(pid, 0)
            self.write(wr, out)

    def answers(self, descs):
        descs = list(dict.fromkeys(descs))
        n = len(self.ends)
        parts = [descs[i::n] for i in range(n)]
        got = {}
        for (r, w), p in zip(self.ends, parts):
            self.write(w, p)
        for (r, w), p in zip(self.ends, parts):
            res = self.read(r)
            if res is None or len(res) != len(p):
                raise MachineryError("a reference process died")
            got.update(zip(p, res))
        for r, w in self.ends:
            os.close(w)
            os.close(r)
        for _ in self.ends:
            try:
                os.wait()
            except ChildProcessError:
                break
        return got


# ---- encodings -----------------------------------------------------------
def show(r):
    a = {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "names": [], "labels": [], "v": []}
    if r[0] != "ok":
        return a
    x = r[1]
    if isinstance(x, PortfolioFrontier):
        W = np.asarray(x.weights, float)
        a["names"] = [str(i) for i in x.asset_names] if x.asset_names is not None else []
        a["labels"] = [x.risk_measure] + sorted(x.alternate_risks)
        a["v"] = [qv(W[:, j]) for j in range(W.shape[1])] + [qv(x.returns), qv(x.risks)] + [qv(x.alternate_risks[k]) for k in sorted(x.alternate_risks)]
        if x.metadata is not None:
            for m in x.metadata:
                keys = sorted(k for k in m if isinstance(m[k], (int, float)) and not isinstance(m[k], bool))
                a["labels"].append(",".join(keys))
                a["v"].append(qv([m[k] for k in keys]))
    elif isinstance(x, tuple):
        a["names"] = labels_of(x[0])
        a["v"] = [qv(np.asarray(i, float)) for i in x if not isinstance(i, dict)]
        for d in x:
            if isinstance(d, dict):
                keys = sorted(k for k in d if isinstance(d[k], (int, float, np.ndarray)) and not isinstance(d[k], bool))
                a["labels"] = keys
                a["v"] += [qv(np.atleast_1d(np.asarray(d[k], float))) for k in keys]
    elif isinstance(x, (op.OptimizationResult, op.RelaxedRiskParityResult)):
        a["v"] = [qv(x.weights)]
    else:
        x = np.asarray(x, float)
        a["v"] = [qv(x)] if x.ndim == 1 else [qv(x[:, j]) for j in range(x.shape[1])]
    return a


def prints(x):
    if isinstance(x, dict):
        return [(str(k), prints(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [prints(v) for v in x]
    if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame)):
        return repr(snap(x))
    if isinstance(x, PortfolioFrontier):
        return [prints(v) for v in (x.weights, x.returns, x.risks, x.risk_measure, x.asset_names, x.metadata, x.alternate_risks)]
    if isinstance(x, AssetsDistribution):
        return [prints(v) for v in (x.mu, x.cov, x.scenarios, x.probabilities, x.asset_names, x.N, x.T)]
    if isinstance(x, PortfolioWrapper):
        return [prints(x.dist)] + [prints(getattr(x, a, None)) for a in ("G", "h", "A", "b", "initial_weights", "market_impact_costs", "proportional_costs", "_uncertainty_cov", "_return_type")]
    if isinstance(x, (TransactionCosts, Constraints)):
        return [prints(v) for v in vars(x).values()]
    if isinstance(x, (op.OptimizationResult, op.RelaxedRiskParityResult)):
        return [prints(getattr(x, f)) for f in x.__dataclass_fields__]
    if isinstance(x, RobustBayesPosterior):
        return [prints(v) for v in (x.mu, x.sigma, x.s_mu)]
    return repr(x)


def scribble(x, depth=0):
    """Overwrite in place whatever the caller can reach."""
    if isinstance(x, np.ndarray):
        try:
            x[...] = x[::-1] * 1.7 + 0.31
        except ValueError:
            pass
    elif isinstance(x, (pd.Series, pd.DataFrame)):
        try:
            v = x.to_numpy(dtype=float)[::-1] * 1.7 + 0.31
            if isinstance(x, pd.Series):
                x.iloc[:] = v
            else:
                x.iloc[:, :] = v
            x.values[...] = v
        except Exception:  # noqa: BLE001
            pass
    elif isinstance(x, list):
        for i in x:
            scribble(i, depth + 1)
        x.reverse()
        if x and isinstance(x[0], str):
            x[0] = "spoilt"
    elif isinstance(x, tuple):
        for i in x:
            scribble(i, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, depth + 1)
        if depth:
            x.clear()
        else:
            x.update(long_only=False, total_weight=3.0)
    elif isinstance(x, PortfolioFrontier):
        for a in (x.weights, x.returns, x.risks, *x.alternate_risks.values(), x.asset_names, x.metadata):
            scribble(a, depth + 1)
        x.alternate_risks.clear()
    elif isinstance(x, TransactionCosts):
        for a in (x.initial_weights, x.market_impact_costs, x.proportional_costs):
            scribble(a)
    elif isinstance(x, Constraints):
        for a in (x.bounds, x.relative_bounds, x.group_constraints, x.additional_G_h, x.additional_A_b):
            scribble(a, 1)
    elif isinstance(x, RobustBayesPosterior):
        for a in (x.mu, x.sigma, x.s_mu):
            scribble(a)
    elif isinstance(x, (op.OptimizationResult, op.RelaxedRiskParityResult)):
        scribble(x.weights)


BUILDERS = ["dist-moments", "dist-moments", "dist-scen", "dist-scen", "moments", "scenarios", "scenarios", "prices", "posterior", "invariants"]
# moments-only objects simulate scenarios: fewer of them than by default, where that is how many is told
FEW = "n_simulations" in (PortfolioWrapper._scenario_inputs.__kwdefaults__ or {}) if hasattr(PortfolioWrapper, "_scenario_inputs") else False
if FEW:
    PortfolioWrapper._scenario_inputs.__kwdefaults__["n_simulations"] = 60

FRONTS = ["vf:3", "cf:3:0.1", "rf:3:2.0", "rrpf:2", "vf:2", "cf:2:0.25", "rf:2:0.7", "rfc:2:0.7"]
POINTS = ["mv:0.5", "mc:0.5:0.2", "rrp:1.2", "gam:1.0:0.5", "mv:0.2", "mc:0.3:0.1", "diag:1.1", "rrp:1.0"]


class World:
    """Everything one session starts from, the same for the same seed."""

    def __init__(self, seed):
        self.seed = seed
        rng = random.Random(seed)
        n = self.n = rng.choice([2, 3, 3, 4])
        T = rng.choice([8, 12, 20])
        pandas = rng.random() < 0.6
        self.names = [f"{'cab'[i % 3]}{i}" for i in range(n)]
        X = np.array([[rng.gauss(0.01 * (j + 1), 0.03 * (j + 1)) for j in range(n)] for _ in range(T)])
        p = np.array([rng.randint(1, 4) for _ in range(T)], float)
        if rng.random() < 0.5:
            p /= p.sum()
        mu, cov = X.mean(axis=0), np.cov(X.T) + 1e-4 * np.eye(n)
        self.mu = mu.copy()
        self.kind = rng.choice(BUILDERS)
        lab = {"index": self.names} if pandas else {}
        S = (lambda v: pd.Series(v, index=self.names)) if pandas else (lambda v: np.array(v))
        M = (lambda v: pd.DataFrame(v, index=self.names, columns=self.names)) if pandas else (lambda v: np.array(v))
        P = (lambda v: pd.DataFrame(v, columns=self.names)) if pandas else (lambda v: np.array(v))
        self.inputs = {}
        i = self.inputs
        if self.kind in ("dist-moments", "moments"):
            i.update(mu=S(mu), cov=M(cov))
        elif self.kind in ("dist-scen", "scenarios"):
            i.update(scenarios=P(X), probabilities=(pd.Series(p) if pandas else p) if rng.random() < 0.7 else None)
            if self.kind == "dist-scen" and rng.random() < 0.3:
                i.update(mu=S(mu * 1.2))
        elif self.kind == "prices":
            i.update(prices=P(np.vstack([np.ones(n), np.cumprod(1 + np.clip(X, -0.5, 1), axis=0)])))
        elif self.kind == "posterior":
            i.update(posterior=RobustBayesPosterior(mu=S(mu), sigma=M(cov), s_mu=M(cov / 5 + 0.0002 * np.eye(n))))
        else:
            i.update(invariants=P(X), p=p / p.sum() if rng.random() < 0.5 else None)
        if self.kind.startswith("dist") and not pandas and rng.random() < 0.5:
            i.update(asset_names=list(self.names))
        self.af = rng.choice([1.0, 4.0])
        typ = rng.choice(["dict", "typed", "none"])
        lists = rng.random() < 0.5
        bd = (lambda lo, hi: {a: [lo, hi] for a in range(n)}) if lists else (lambda lo, hi: (lo, hi))
        row = np.zeros(n)
        row[0] = 1.0
        self.cons = {1: {"long_only": True, "total_weight": 1.0, "bounds": bd(0.0, 0.9), "additional_G_h": [(row, 0.8)]},
                     2: {"long_only": True, "total_weight": 1.0, "bounds": bd(0.1, 0.7)},
                     3: {"long_only": True, "total_weight": 1.0, "bounds": bd(0.0, 0.1)}}
        if rng.random() < 0.3:
            self.cons[2] = {"long_only": False, "total_weight": 0.9, "bounds": bd(-0.2, 0.8), "group_constraints": {"g": ([0, 1], 0.1, 0.7)} if rng.random() < 0.5 else None}
        if typ == "typed":
            self.cons = {k: Constraints(**v) for k, v in self.cons.items()}
        if typ == "none":
            self.cons[1] = None
        a = np.array([0.5] + [0.5 / (n - 1)] * (n - 1)) * rng.choice([1.0, 1.0, 0.875])
        free = rng.random() < 0.4
        self.costs = {1: None if free else TransactionCosts(initial_weights=S(a), market_impact_costs=S(np.full(n, 0.02)), proportional_costs=S(np.full(n, 0.003))),
                      2: TransactionCosts(initial_weights=S(a[::-1].copy()), market_impact_costs=S(np.linspace(0.05, 0.2, n)), proportional_costs=S(np.linspace(0.001, 0.02, n)))}
        self.spare = {}                     # objects handed to single calls
        self.fronts = []

    def wrapper(self, cons, costs):
        c, k = self.cons[cons], self.costs[costs]
        kw = {"constraints": c, "costs": k}
        i = self.inputs
        if self.kind.startswith("dist"):
            if not hasattr(self, "shared"):
                self.shared = AssetsDistribution(**i)
            return PortfolioWrapper(self.shared, **kw)
        if self.kind == "moments":
            return PortfolioWrapper.from_moments(i["mu"], i["cov"], **kw)
        if self.kind == "scenarios":
            return PortfolioWrapper.from_scenarios(i["scenarios"], probabilities=i["probabilities"], **kw)
        if self.kind == "prices":
            return PortfolioWrapper.from_prices(i["prices"], **kw)
        if self.kind == "posterior":
            return PortfolioWrapper.from_robust_posterior(i["posterior"], annualization_factor=self.af, **kw)
        return PortfolioWrapper.from_invariants(i["invariants"], horizon=2, n_simulations=30, p=i["p"], seed=5, **kw)

    def build(self, cons=1, costs=1, only=0):
        """Two wrappers and, over the plain arrays, the four optimisers."""
        self.objs = [None] * 6
        for o in (1, 2):
            if only in (0, o):
                self.objs[o - 1] = self.wrapper(cons, costs)
        d = World.__new__(World)
        rng = random.Random(self.seed + 1)
        n, T = self.n, 15
        X = np.array([[rng.gauss(0.01 * (j + 1), 0.03 * (j + 1)) for j in range(n)] for _ in range(T)])
        m, C = X.mean(axis=0), np.cov(X.T) + 1e-4 * np.eye(n)
        G, h, A, b = -np.eye(n), np.zeros(n), np.ones((1, n)), np.ones(1)
        w0, pc, mic, rb, p = np.full(n, 1.0 / n), np.full(n, 0.002), np.full(n, 0.05), np.arange(1.0, n + 1) / (n * (n + 1) / 2), np.full(T, 1.0 / T)
        cost = rng.random() < 0.5
        self.raw = {"m": m, "C": C, "G": G, "h": h, "A": A, "b": b, "w0": w0, "pc": pc, "mic": mic, "rb": rb, "p": p, "X": X}
        kw = lambda **k: k if cost else {}  # noqa: E731
        self.raw["own"] = [rng.choice([0.0, 1.0]) + np.arange(2.0 * n).reshape(n, 2) / 8, np.array([0.01, 0.02]), np.array([0.1, 0.3]), list(self.names),
                           [{"a": 1.0}, {"a": 2.0}], {"CVaR": np.array([0.2, 0.5])}]
        if only in (0, 3):
            self.objs[2] = op.MeanVariance(m, C, G, h, A, b, **kw(initial_weights=w0, market_impact_costs=mic))
        if only in (0, 4):
            self.objs[3] = op.MeanCVaR(X, p, 0.2, G, h, A, b, **kw(initial_weights=w0, proportional_costs=pc), mean=m)
        if only in (0, 5):
            self.objs[4] = op.RobustOptimizer(m, C, G, h, A, b, **kw(initial_weights=w0, proportional_costs=pc))
        if only in (0, 6):
            self.objs[5] = op.RelaxedRiskParity(m, C, G, h, A, b, risk_budgets=rb)
        del d

    def other(self):
        """Another distribution over the same assets, to take the place of the first."""
        d = World(self.seed).wrapper(1, 1).dist
        kw = {"asset_names": d.asset_names}
        if d.scenarios is not None:
            return AssetsDistribution(scenarios=0.8 * d.scenarios[:, ::-1] + 0.002, **kw)
        return AssetsDistribution(mu=d.mu[::-1].copy(), cov=1.3 * d.cov[::-1, ::-1], **kw)

    def scen(self):
        return FEW or self.kind in ("dist-scen", "scenarios", "prices", "invariants")

    def request(self, o, req, c, k):
        """One call; constraints and costs for the call are the caller's own objects of a second, equal world."""
        x = self.objs[o - 1]
        f, *a = req.split(":")
        a = [float(v) for v in a]
        kw = {}
        if o <= 2:
            if c:
                kw["constraints"] = self.spare["cons"][c]
            if k:
                kw["costs"] = self.spare["costs"][k]
        lo, hi = float(self.mu.min()), float(self.mu.max())
        t = lambda u: lo + u * (hi - lo) if u < 5 else 50.0  # noqa: E731
        fn = {"vf": lambda: x.variance_frontier(int(a[0]), **kw), "cf": lambda: x.cvar_frontier(int(a[0]), a[1], seed=4, **kw),
              "rf": lambda: x.robust_lambda_frontier(int(a[0]), a[1], **kw), "rfc": lambda: x.robust_lambda_frontier(int(a[0]), a[1], return_cov=0.02 * np.eye(self.n) + 0.003, **kw),
              "rrpf": lambda: x.relaxed_risk_parity_frontier(int(a[0]), 1.4, **kw),
              "mv": lambda: x.min_variance_at_return(t(a[0]), **kw), "mc": lambda: x.min_cvar_at_return(t(a[0]), a[1], seed=4, **kw),
              "rrp": lambda: x.relaxed_risk_parity_portfolio(target_multiplier=a[0], **kw), "gam": lambda: x.solve_robust_gamma_portfolio(a[0], a[1], **kw),
              "diag": lambda: x.relaxed_risk_parity_portfolio_with_diagnostics(target_multiplier=a[0], **kw),
              "vf0": lambda: x.variance_frontier(0, **kw), "cfa": lambda: x.cvar_frontier(3, 1.5, **kw), "rfneg": lambda: x.robust_lambda_frontier(3, lambdas=[-1.0], **kw),
              "rrpneg": lambda: x.relaxed_risk_parity_portfolio(lambda_reg=0.3, target_multiplier=-1.0, **kw),
              "eff": lambda: x.efficient_frontier(int(a[0])), "tgt": lambda: x.efficient_portfolio(t(a[0])), "sharpe": lambda: x.max_sharpe(a[0]),
              "lam": lambda: x.solve_lambda_variant(a[0]), "gv": lambda: x.solve_gamma_variant(a[0], a[1]), "lams": lambda: x.efficient_frontier([0.0, a[0], 1.0])[2],
              "rp": lambda: x.solve(lambda_reg=a[0], return_target=None if a[1] < 0 else t(a[1]))}[f]
        r = call(fn)
        return r, kw

    def after(self):
        return {"objs": [repr(prints(x)) if k < 2 else "" for k, x in enumerate(self.objs)],
                "held": repr([prints(self.inputs), prints(self.cons), prints(self.costs), prints(self.raw), prints(self.spare), sorted(map(repr, solvers.options.items()))]),
                "fronts": [repr(prints(f)) for f in self.fronts]}


OPT = {3: ["eff:3", "tgt:0.5", "tgt:0.8", "tgt:9", "sharpe:0.0", "sharpe:0.001"], 4: ["eff:3", "tgt:0.5", "tgt:9"],
       5: ["lam:0.5", "lam:1.5", "gv:1.0:0.5", "gv:0.5:0.0000001", "lams:0.5"], 6: ["rp:0.0:-1", "rp:0.3:0.5", "rp:0.3:0.9", "rp:0.3:9"]}


class Play:
    def __init__(self, seed, rng):
        self.w, self.rng, self.seed = World(seed), rng, seed
        v = World(seed)
        # no object at all means no override: what the construction default stands for is spelt out
        self.w.spare = {"cons": {i: x or Constraints() for i, x in v.cons.items()}, "costs": {i: x or TransactionCosts(initial_weights=None) for i, x in v.costs.items()}}
        self.w.build()
        sc = self.w.scen()
        ok = lambda r: sc or not r.startswith(("cf", "mc"))  # noqa: E731
        self.front = [r for r in rng.sample(FRONTS, len(FRONTS)) if ok(r)][:2]
        self.point = [r for r in rng.sample(POINTS, len(POINTS)) if ok(r)][:2]
        self.cons, self.costs = [1] * 6, [1] * 6
        self.dists = [1] * 6
        self.start = {"cons": [1] * 6, "costs": [1] * 6, "dists": [1] * 6, **self.w.after()}

    def ask(self, o, req, c=0, k=0):
        w = self.w
        ec, ek = c or self.cons[o - 1], k or self.costs[o - 1]
        desc = (self.seed, o, req, ec, ek, self.dists[o - 1]) if o <= 2 else (self.seed, o, req, 1, 1, 1)
        r, _ = w.request(o, req, c, k)
        out = show(r)
        if r[0] == "ok":
            w.fronts.append(r[1])
        return {"op": "ask", "o": o, "c": c, "k": k, "j": 0, "req": req, "out": out, "ref": desc, "after": w.after()}

    def setc(self, o, c):
        x, v = self.w.objs[o - 1], World(self.seed)
        d = v.cons[c]
        d = Constraints(**d) if isinstance(d, dict) else Constraints() if d is None else d
        x.G, x.h, x.A, x.b = d.to_matrices(self.w.n)
        self.cons[o - 1] = c
        return {"op": "setc", "o": o, "c": c, "k": 0, "j": 0, "after": self.w.after()}

    def setk(self, o, k):
        x, v = self.w.objs[o - 1], World(self.seed)
        t = v.costs[k]
        f = lambda a: None if t is None else np.array(getattr(t, a), float)  # noqa: E731
        x.initial_weights, x.market_impact_costs, x.proportional_costs = f("initial_weights"), f("market_impact_costs"), f("proportional_costs")
        self.costs[o - 1] = k
        return {"op": "setk", "o": o, "c": 0, "k": k, "j": 0, "after": self.w.after()}

    def setd(self, o):
        self.w.objs[o - 1].dist = World(self.seed).other()
        self.dists[o - 1] = 2
        return {"op": "setd", "o": o, "c": 0, "k": 0, "j": 0, "after": self.w.after()}

    def mutate(self, which):
        w = self.w
        if which == 1:
            for v in w.inputs.values():
                scribble(v)
            for v in w.raw.values():
                scribble(v)
        else:
            scribble(w.costs[1])
            scribble(w.cons[1])
        return {"op": "mutate", "o": which, "c": 0, "k": 0, "j": 0, "after": w.after()}

    def spoil(self, j=None):
        w = self.w
        j = len(w.fronts) if j is None else j
        scribble(w.fronts[j - 1])
        return {"op": "spoil", "o": 0, "c": 0, "k": 0, "j": j, "after": w.after()}

    def make(self):
        """The caller assembles a frontier from arrays it keeps."""
        W, ret, risk, names, meta, alt = self.w.raw["own"]
        r = call(lambda: PortfolioFrontier(weights=W, returns=ret, risks=risk, risk_measure="Volatility", asset_names=names, metadata=meta, alternate_risks=alt))
        if r[0] == "ok":
            self.w.fronts.append(r[1])
        return {"op": "make", "o": 0, "c": 0, "k": 0, "j": 0, "after": self.w.after()}

    def query(self):
        rng = self.rng
        for f in self.w.fronts:
            if isinstance(f, PortfolioFrontier) and f.alternate_risks is not None and len(f.returns) and np.isfinite(np.asarray(f.returns, float)).all():
                got = [call(f.min_risk), call(f.max_return), call(f.tangency, 0.0), call(f.to_frame), call(f.to_samples, as_frame=False), call(f.risk_percentiles),
                       call(f.at_percentile, 0.5), call(f.available_risk_measures)]
                for r in got:
                    if r[0] == "ok" and rng.random() < 0.7:
                        scribble(r[1])
        return {"op": "query", "o": 0, "c": 0, "k": 0, "j": 0, "after": self.w.after()}

    def run(self, script):
        evs = []
        for s in script:
            o = s["o"]
            if s["op"] == "ask":
                evs.append(self.ask(o, self.rng.choice(self.front if s["req"] == "front" else self.point), s["c"], s["k"]))
            elif s["op"] == "setd":
                evs.append(self.setd(o))
            elif s["op"] in ("setc", "setk"):
                evs.append(self.setc(o, s["c"]) if s["op"] == "setc" else self.setk(o, s["k"]))
            elif s["op"] == "mutate":
                evs.append(self.mutate(o))
            elif s["op"] == "make":
                evs.append(self.make())
            elif s["op"] == "query":
                evs.append(self.query())
            elif self.w.fronts:
                evs.append(self.spoil())
        for o in (1, 2):
            evs.append(self.ask(o, self.front[0]))
            evs.append(self.ask(o, self.point[0]))
        return evs

    def wander(self, length):
        rng, evs = self.rng, []
        bad = ["vf0", "rfneg", "rrpneg", "mv:9", "gam:1.0:0.0000000001"] + (["cfa", "mc:9:0.1"] if self.w.scen() else [])
        for _ in range(length):
            t = rng.random()
            o = rng.choice([1, 1, 2])
            if t < 0.4:
                evs.append(self.ask(o, rng.choice(self.front + self.point), rng.choice([0, 0, 0, 1, 2, 3]), rng.choice([0, 0, 0, 2])))
            elif t < 0.5:
                evs.append(self.ask(o, rng.choice(bad), rng.choice([0, 0, 2]), rng.choice([0, 0, 2])))
            elif t < 0.66:
                x = rng.choice([3, 4, 5, 6])
                evs.append(self.ask(x, rng.choice(OPT[x])))
            elif t < 0.74:
                evs.append(self.setc(o, rng.choice([1, 2, 2, 3])))
            elif t < 0.76 and self.dists[o - 1] == 1:
                evs.append(self.setd(o))
            elif t < 0.80:
                evs.append(self.setk(o, rng.choice([1, 2])))
            elif t < 0.87:
                evs.append(self.mutate(rng.choice([1, 2])))
            elif t < 0.89:
                evs.append(self.make())
            elif t < 0.94 and self.w.fronts:
                evs.append(self.spoil(rng.randint(1, len(self.w.fronts))))
            else:
                evs.append(self.query())
        for x in rng.sample([1, 2, 3, 4, 5, 6], 4):
            evs.append(self.ask(x, rng.choice(OPT[x]) if x > 2 else rng.choice(self.front + self.point)))
        return evs


def tour(p):
    """Every request once in random order, then some again."""
    rng = p.rng
    reqs = rng.sample(FRONTS + POINTS, len(FRONTS) + len(POINTS))
    reqs = [r for r in reqs if p.w.scen() or not r.startswith(("cf", "mc"))]
    return [p.ask(1, r) for r in reqs + rng.sample(reqs, 3)]


def check(ctx):
    rng = ctx.rng("history")
    fresh = Fresh()
    recs = ctx.model_check("HistMC", "HistMC", timeout=300)
    if ctx.thorough:
        more = ctx.model_check("HistMC", "HistMC4", timeout=600)
        recs = recs + rng.sample(more, 1500)
    rng.shuffle(recs)
    out = []

    def session(sid, play, fits=None):
        keep = {}
        seed = rng.randrange(10 ** 9)
        while fits and not fits(World(seed)):
            seed = rng.randrange(10 ** 9)

        def go():
            keep["p"] = Play(seed, rng)
            return play(keep["p"])
        s = ctx.run_session(sid, {}, go, timeout=120)
        if "p" in keep:
            s["init"] = keep["p"].start
        out.append(s)
    for k, r in enumerate(recs[: ctx.n(170, 2500)]):
        session(f"mc-{k}", lambda p: p.run(r["script"]))
    for k in range(ctx.n(120, 2000)):
        session(f"rnd-{k}", lambda p: p.wander(rng.choice([3, 5, 7])))
    kinds = sorted(set(BUILDERS))
    for k in range(ctx.n(1, 12) * len(kinds)):
        kind, costly = kinds[k % len(kinds)], (k + k // len(kinds)) % 2
        session(f"tour-{k}", tour, lambda w: w.kind == kind and (not costly) == (w.costs[1] is None) and (not costly or abs(sum(w.costs[1].initial_weights) - 1) > 0.01))
    ref = fresh.answers([e["ref"] for s in out for e in s["events"] if e["op"] == "ask"])
    for s in out:
        for e in s["events"]:
            if e["op"] == "ask":
                d = e["ref"]
                if ref[d]["k"] == "broken":
                    raise MachineryError(f"reference {d}: {ref[d]['mro']}")
                e["ref"] = {"c": d[3], "k": d[4], "d": d[5], "ans": ref[d]}
    ctx.validate("HistTrace", out)
    ctx.required_clauses = {"objects-unchanged", "caller-inputs-unchanged", "received-answers-unchanged", "refused-as-without-history", "answered-as-without-history",
                            "override-answered-as-without-history", "objects-unaffected-by-caller-inputs", "answers-unaffected-by-caller-inputs",
                            "objects-unaffected-by-received-answers", "other-answers-unaffected", "other-objects-unchanged"}
    return ctx.finish(assumptions=["the answer without history is that of a forked process in which the library has not been used, agreeing within 1e-6",
                                   "attributes of a distribution are part of it; constraints and costs in force are changed through the wrapper's attributes"])
