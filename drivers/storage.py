"""Driver of the storage property (spec/Storage.tla): the same numbers in every layout, type and container."""
import numpy as np
import pandas as pd

from pyvallocation import ensembles as en, moments as mo, probabilities as P, stress as st
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
from pyvallocation.discrete_allocation import discretize_weights
from pyvallocation.optimization import MeanCVaR, MeanVariance, RelaxedRiskParity, RobustOptimizer
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils import functions as fu, performance as pf, projection as pj, validation as va
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, entropy_pooling
from vkit import MachineryError, call, mro, q, qm, qv

Q = {}


def ask(name, need, tol="", nested=True):
    """need: the inputs, from the figures Figs offers; nested: lists are accepted as well."""
    def reg(f):
        Q[name] = (need.split(), tol, nested, f)
        return f
    return reg


class Figs:
    def __init__(self, rng, whole):
        g = np.random.default_rng(rng.randrange(2 ** 31))
        u = 1.0 if whole else 0.125
        n = self.n = rng.choice([2, 3, 3, 4])
        T = rng.choice([14, 14, 20])
        B = g.integers(-2, 3, (n, n)).astype(float)
        self.R = g.integers(-5, 6, (T, n)) * u
        self.R[: n] += 2 * u * np.eye(n)
        self.P = g.integers(3, 12, (T, n)) * u
        self.p = g.integers(1, 6, T) * (1.0 if whole else 0.25)
        self.pn = self.p / self.p.sum() if not whole else np.eye(T)[rng.randrange(T)]
        self.q = g.integers(1, 6, T) * 1.0
        self.m, self.m2 = g.permutation(np.arange(-1, n - 1)) * u, g.integers(-3, 4, n) * u
        self.S, self.S2 = (B @ B.T + (2 + np.diag(g.integers(0, 3, n))) * np.eye(n)) * u, (np.eye(n) * 3 + 1) * u
        self.w, self.v = g.integers(1, 6, n) * u, g.integers(-2, 4, n) * u
        self.W = g.integers(-2, 5, (n, 3)) * u
        self.w0 = np.eye(n)[rng.randrange(n)]
        self.c = g.integers(0, 3, n) * u
        self.k = g.integers(1, 4, 3) * u
        self.x, self.y = g.permutation(T) * u, g.integers(-4, 5, T) * u
        self.z = g.permutation(T) * (1e9 if whole else 1e6)
        self.G, self.h = np.vstack([-np.eye(n), np.eye(n)]), np.concatenate([np.zeros(n), np.ones(n)])
        self.A, self.b = np.ones((1, n)), np.ones(1)
        self.E, self.f = np.array([g.permutation(np.arange(T)) * 1.0, np.ones(T)]), np.array([T / 2.0 // 1, 1.0])
        self.L = np.abs(self.R) * (1.0 if whole else 0.5)


def N(*a):
    out = []
    for x in a:
        if isinstance(x, (pd.Series, pd.DataFrame)):
            x = x.to_numpy()
        out.append(qv(np.asarray(x, dtype=float).ravel()))
    return out


# moments
ask("sample moments", "R pn")(lambda R, p: N(*mo.estimate_sample_moments(R, p)))
for a in ("sample", "huber", "james_stein"):
    for b in ("sample", "oas", "ledoit_wolf", "ewma", "tyler", "poet", "nls"):
        ask(f"moments {a} {b}", "R", "iterated")(lambda R, a=a, b=b: N(*mo.estimate_moments(R, mean_estimator=a, cov_estimator=b)))
ask("jorion", "m S")(lambda m, S: N(mo.shrink_mean_jorion(m, S, 50)))
ask("ledoit-wolf", "R S")(lambda R, S: N(mo.shrink_covariance_ledoit_wolf(R, S, target="constant_correlation")))
ask("oas", "R")(lambda R: N(mo.shrink_covariance_oas(R, assume_centered=False)))
ask("oas centred", "R")(lambda R: N(mo.shrink_covariance_oas(R), mo.shrink_covariance_nls(R), mo.factor_covariance_poet(R), mo.covariance_ewma(R)))
ask("ledoit-wolf identity", "R S")(lambda R, S: N(mo.shrink_covariance_ledoit_wolf(R, S, target="identity")))
ask("tyler target", "R S", "iterated")(lambda R, S: N(mo.robust_covariance_tyler(R, shrinkage=0.3, target=S)))
ask("james-stein", "w S")(lambda m, S: N(mo.shrink_mean_james_stein(m, S, 50)))
ask("james-stein target", "v S m2")(lambda m, S, t: N(mo.shrink_mean_james_stein(m, S, 50, target=t)))
ask("robust means", "R", "iterated")(lambda R: N(mo.robust_mean_huber(R), mo.robust_mean_median_of_means(R, n_blocks=4, random_state=1)))
ask("niw moments", "m S m2 S2", "iterated")(lambda m, S, n, V: N(*mo.posterior_moments_niw_with_uncertainty(prior_mu=m, prior_sigma=S, t0=5, nu0=9, sample_mu=n, sample_sigma=V, n_obs=40)))
ask("repair", "S", nested=False)(lambda S: N(va.ensure_psd_matrix(S), va.is_psd(S)))
# probabilities
ask("kernel", "x y")(lambda x, v: N(P.generate_gaussian_kernel_probabilities(x, v, 2, 1), P.generate_gaussian_kernel_probabilities(x), P.silverman_bandwidth(x)))
ask("kernel of volumes", "z")(lambda x: N(P.generate_gaussian_kernel_probabilities(x), P.generate_gaussian_kernel_probabilities(x, x[::-1], x_T=x[0]), P.silverman_bandwidth(x)))
ask("resolve", "p")(lambda p: N(P.resolve_probabilities(p, len(p)), P.normalize_probability_vector(p)))
ask("effective number", "pn")(lambda p: N(P.compute_effective_number_scenarios(p)))
# risk
ask("tail", "v R p")(lambda w, R, p: N(fu.portfolio_var(w, R, p, 0.8), fu.portfolio_cvar(w, R, p, 0.8), fu.portfolio_var(w, R, p, 0.8, True), fu.portfolio_cvar(w, R, p, 0.8, True)))
ask("tails", "W R p")(lambda w, R, p: N(fu.portfolio_var(w, R, p, 0.8), fu.portfolio_cvar(w, R, p, 0.8)))
ask("variance", "W S")(lambda w, S: N(fu.portfolio_variance(w, S), fu.portfolio_volatility(w, S)))
# projection and repricing
ask("log to simple", "m2 S2")(lambda m, S: N(*pj.log2simple(m, S)))
ask("simple to log", "w S2")(lambda m, S: N(*pj.simple2log(m, S)))
ask("scenarios", "R L")(lambda R, L: N(pj.convert_scenarios_compound_to_simple(R), pj.convert_scenarios_simple_to_compound(L)))
ask("annualise", "m S", nested=False)(lambda m, S: N(*pj.project_mean_covariance(m, S, 12)))
ask("project", "R p")(lambda R, p: N(pj.project_scenarios(R, 3, p, 12, seed=1), pj.simulate_paths(R, 3, 6, p, seed=1), pj.project_scenarios(R, 2, p, 8, reprice=pj.reprice_exp, seed=2)))
ask("taylor of levels", "z", nested=False)(lambda x: N(pj.reprice_taylor(x, delta=2, gamma=3)))
ask("taylor", "R m c", nested=False)(lambda R, d, g: N(pj.reprice_taylor(R, delta=d, gamma=g, theta=1, tau=0.5), pj.reprice_exp(R)))
# performance and stress
ask("report", "v R p")(lambda w, R, p: N(pf.performance_report(w, R, probabilities=p), pf.scenario_pnl(w, R)))
ask("book", "W R")(lambda w, R: N(pf.scenario_pnl(w, R)))
ask("stress", "W R p q")(lambda w, R, p, s: N(st.stress_test(w, R, probabilities=p, stressed_probabilities=s)))
ask("linear stress", "R m S")(lambda R, m, B: N(st.linear_map(mean_shift=m, scale=2, matrix=B)(R)))
ask("volume stress", "v R p z")(lambda w, R, p, x: N(st.kernel_focus_stress(w, R, focus_series=x, probabilities=p)))
ask("shifted", "R m")(lambda R, m: N(st.linear_map(mean_shift=m)(R), st.linear_map(scale=3)(R), st.linear_map(mean_shift=m, scale=2)(R)))
ask("kernel stress", "v R p x")(lambda w, R, p, x: N(st.kernel_focus_stress(w, R, focus_series=x, probabilities=p, bandwidth=2.0, target=3.0)))
# posteriors
ask("pooling", "q E f", "iterated")(lambda p, A, b: N(entropy_pooling(p, A, b)))
ask("views", "R q", "iterated")(lambda R, p: N(FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, mean_views=np.mean(np.asarray(R, float), axis=0) + 0.01).get_posterior_probabilities()))
ask("black-litterman", "m S m2", "iterated")(lambda m, S, v: N(*BlackLittermanProcessor(prior_mean=m, prior_cov=S, mean_views=np.asarray(v)).get_posterior()))
ask("market", "w S", "iterated")(lambda w, S: N(*BlackLittermanProcessor(market_weights=w, prior_cov=S, risk_aversion=2, mean_views=np.zeros(len(w))).get_posterior()))


def niw(m, S, m2, S2):
    x = NIWPosterior(m, S, 3, 12)
    x.update(m2, S2, 10)
    r = mo.posterior_moments_niw(prior_mu=m, prior_sigma=S, t0=3, nu0=12, sample_mu=m2, sample_sigma=S2, n_obs=10)
    return N(x.get_mu_ce(), x.get_sigma_ce(), x.get_S_mu(), *r[:2])


ask("niw", "m S m2 S2", "iterated")(niw)
ask("robust bundle", "m S")(lambda m, S: N(RobustBayesPosterior(mu=m, sigma=S, s_mu=S).s_mu))


# optimisers and portfolios: figures of the answer, which vertices of equal merit share
def book(fr):
    return N(fr.returns, fr.risks)




ask("mean-variance", "m S", "solved")(lambda m, S: book(PortfolioWrapper.from_moments(m, S).variance_frontier(3)))
ask("tail frontier", "R q", "solved")(lambda R, p: book(PortfolioWrapper.from_scenarios(R, probabilities=p).cvar_frontier(3, alpha=0.3)))
ask("from prices", "P", "solved")(lambda X: book(PortfolioWrapper.from_prices(X).variance_frontier(3)))
ask("robust", "m S", "solved")(lambda m, S: book(PortfolioWrapper.from_moments(m, S).robust_lambda_frontier(3)))
ask("risk parity", "m S w", "solved")(lambda m, S, b: N(PortfolioWrapper.from_moments(m, S).relaxed_risk_parity_portfolio(risk_budgets=b, lambda_reg=0)[0]))
ask("impact costs", "m S w0 c", "solved", False)(lambda m, S, w, c: book(PortfolioWrapper(AssetsDistribution(mu=m, cov=S), costs=TransactionCosts(initial_weights=w, market_impact_costs=c)).variance_frontier(3)))
ask("turnover costs", "R w0 c", "solved", False)(lambda R, w, c: book(PortfolioWrapper(AssetsDistribution(scenarios=R), costs=TransactionCosts(initial_weights=w, proportional_costs=c)).cvar_frontier(2, alpha=0.3)))
ask("raw mean-variance", "m S G h", "solved")(lambda m, S, G, h: N(np.asarray(m, float) @ (x := MeanVariance(m, S, G, h, [[1] * len(m)], [1]).efficient_portfolio()), x @ np.asarray(S, float) @ x))
ask("raw mean-variance rows", "m S A b", "solved")(lambda m, S, A, b: N(MeanVariance(m, S, None, None, A, b).efficient_portfolio()))
ask("raw tail", "R q G h", "solved")(lambda R, p, G, h: N(fu.portfolio_cvar(MeanCVaR(R, np.asarray(p) / np.sum(p), 0.3, G, h, [[1] * len(G[0])], [1]).efficient_portfolio(), R, p, 0.7)))
ask("raw robust", "m S A b", "solved")(lambda m, S, A, b: N(RobustOptimizer(m, S, None, None, A, b).solve_lambda_variant(3.0).risk))
ask("raw risk parity", "m S A b", "solved")(lambda m, S, A, b: N(RelaxedRiskParity(m, S, None, None, A, b).solve(lambda_reg=0.0, return_target=None).weights))
ask("raw risk parity target", "w S A b", "solved")(lambda m, S, A, b: N(RelaxedRiskParity(m, S, None, None, A, b).solve(lambda_reg=0.2, return_target=float(np.mean(m))).weights))
ask("raw tail target", "R q G h", "solved")(lambda R, p, G, h: N(fu.portfolio_cvar(MeanCVaR(R, np.asarray(p) / np.sum(p), 0.3, G, h, [[1] * len(G[0])], [1]).efficient_frontier(3), R, p, 0.7)))
ask("raw robust capped", "m S G h", "solved")(lambda m, S, G, h: N((x := RobustOptimizer(m, S, G, h, [[1] * len(m)], [1]).solve_gamma_variant(1.0, 9.0)).risk, x.nominal_return))
ask("raw sharpe", "w S G h", "solved")(lambda m, S, G, h: N(MeanVariance(m, S, G, h, [[1] * len(m)], [1]).max_sharpe(0.0).weights))
# ensembles, selections and shares
ask("averaging", "W k")(lambda W, k: N(en.average_exposures(W), en.average_exposures(W, k)))
ask("stacking", "W", "solved")(lambda W: N(en.exposure_stacking(W, 3)))


def fron(W, r, s):
    f = PortfolioFrontier(weights=W, returns=r, risks=s, risk_measure="Risk")
    return N(f.min_risk()[0], f.max_return()[0], f.tangency(0.5)[0], f.at_return(float(np.asarray(r)[1]))[0])


ask("frontier", "W k k", nested=False)(fron)
ask("shares", "w w")(lambda w, p: N(list(discretize_weights(pd.Series(np.asarray(w), index=[f"a{i}" for i in range(len(w))]), pd.Series(np.asarray(p) + 1, index=[f"a{i}" for i in range(len(p))]), 500).shares.values())))


def types(x):
    """Element types that hold the whole numbers x."""
    big, neg = np.abs(x).max() >= 2 ** 31, x.min() < 0
    return ["i8", "i8", "f8"] + ([] if big else ["i4"]) + ([] if neg or big else ["u4", "u8"])


# ---- stores ---------------------------------------------------------------
class Store:
    """Numbers x in the layout the specification names, with what the trace needs to read them back."""

    def __init__(self, x, kind, typ, locked, tup):
        self.nested, self.owner = kind == "nested", None
        a = np.array(x, dtype=typ)
        if self.nested:
            self.arg = a.tolist()
            if tup:
                self.arg = tuple(tuple(r) if isinstance(r, list) else r for r in self.arg)
            self.was = repr(self.arg)
            return
        if kind == "C":
            o = v = np.ascontiguousarray(a)
        elif kind == "F":
            o = v = np.asfortranarray(a)
        elif kind == "gap":
            o = np.full(a.size * 2, 99, dtype=typ)
            o[::2] = a.ravel()
            v = o[::2].reshape(a.shape)
            if v.base is None or not np.shares_memory(o, v):
                v = np.lib.stride_tricks.as_strided(o, a.shape, tuple(2 * s for s in np.ascontiguousarray(a).strides))
        else:
            o = np.ascontiguousarray(a.ravel()[::-1])
            v = o[::-1].reshape(a.shape)
            if not np.shares_memory(o, v):
                b = np.ascontiguousarray(np.flip(a))
                o, v = b, np.flip(b)
        self.owner, self.arg = o, v
        self.was = o.tobytes(order="A") + v.tobytes()
        if locked:
            o.flags.writeable = False
            v.flags.writeable = False
        i = v.itemsize
        mem = o.ravel(order="K")
        off = (v.__array_interface__["data"][0] - o.__array_interface__["data"][0]) // i
        self.rec = {"form": "strided", "buf": qv(mem.astype(float)), "off": int(off), "strides": [int(s // i) for s in v.strides],
                    "shape": list(v.shape), "rows": []}

    def record(self):
        if self.nested:
            r = [list(x) if isinstance(x, (list, tuple)) else [x] for x in self.arg]
            return {"form": "nested", "buf": [], "off": 0, "strides": [0], "shape": [len(r)], "rows": qm(r)}
        return self.rec

    def same(self):
        return repr(self.arg) == self.was if self.nested else self.owner.tobytes(order="A") + self.arg.tobytes() == self.was


def result(r):
    return {"k": r[0], "v": r[1] if r[0] == "ok" else [], "mro": mro(r[2]) if r[0] == "err" else []}


def check(ctx):
    rng = ctx.rng("storage")
    recs = ctx.model_check("StorageMC", "StorageMC4" if ctx.thorough else "StorageMC")
    by = {}
    for r in recs:
        by.setdefault(len(r["kinds"]), []).append(r)
    out = []
    for rep in range(ctx.n(16, 60)):
        for name, (need, tol, nested, f) in Q.items():
            for _ in range(12):
                whole = rng.random() < 0.6
                d = Figs(rng, whole)
                xs = [np.array(getattr(d, a), dtype=float) for a in need]
                base = result(call(f, *[x.copy() for x in xs]))
                if base["k"] == "ok":
                    break
            ref = [qm(x if x.ndim == 2 else x.reshape(-1, 1)) for x in xs]

            def run():
                evs = []
                for t in range(5 if rep else 8):
                    k = min(len(xs), 3 if not ctx.thorough else 4)
                    r = rng.choice(by[k])
                    kinds = (r["kinds"] * 2)[: len(xs)]
                    if t == 0:
                        kinds = ["C"] * len(xs)          # only the type of the elements differs
                    if t == 1:
                        kinds = ["nested"] * len(xs)
                    if not nested:
                        kinds = ["F" if x == "nested" else x for x in kinds]
                    ss = []
                    for x, kd in zip(xs, kinds):
                        typ = rng.choice(types(x) if t else ["i8"]) if np.array_equal(x, np.round(x)) else "f8"
                        ss.append(Store(x, kd, typ, r["guard"] == "locked", rng.random() < 0.3))
                    o = result(call(f, *[s.arg for s in ss]))
                    evs.append({"op": "ask", "inputs": [s.record() for s in ss], "out": o, "same": all(s.same() for s in ss)})
                return evs
            out.append(ctx.run_session(f"{name}-{rep}", {"ref": ref, "tol": tol, "base": base}, run))
    ctx.validate("StorageTrace", out)
    ctx.required_clauses = {"ordinary-arrays-get-an-answer", "holds-the-same-numbers", "storage-does-not-matter", "stores-left-as-they-were"}
    return ctx.finish(assumptions=["answers of iterative solvers are compared within their accuracy",
                                   "nested sequences are presented only where array-likes are documented"])
