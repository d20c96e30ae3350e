"""Driver of the label property (spec/Label.tla, LabelMC, LabelTrace)."""
import numpy as np
import pandas as pd

from pyvallocation import discrete_allocation as da
from pyvallocation import ensembles as en
from pyvallocation import moments as mo
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.stress import exp_decay_stress, kernel_focus_stress, entropy_pooling_stress, linear_map, stress_invariants, stress_test
from pyvallocation.utils import functions as fu
from pyvallocation.utils import performance as pe
from pyvallocation.utils import projection as pj
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, at_least
from vkit import MachineryError, call, labels_of, mro, qv

SETS = [["kappa", "alpha", "mid"], ["z", "a", "m"], ["B", "A", "C"], [30, 10, 20], [2, 0, 1], ["2", "0", "1"]]


# ---- results -------------------------------------------------------------
def names_of(x):
    if isinstance(x, pd.DataFrame):
        return [str(i) for i in x.index]
    return [str(i) for i in labels_of(x)] if isinstance(x, pd.Series) else []


def V(x, names=None):
    return {"t": "vec", "names": names_of(x) if names is None else [str(i) for i in names], "v": [[v] for v in qv(np.asarray(x, float).ravel())]}


def M(x):
    if isinstance(x, pd.DataFrame) and set(x.index) == set(x.columns):
        x = x[list(x.index)]                        # a labelled square says the same in any column order
    a = np.asarray(x, float)
    if isinstance(x, pd.DataFrame) and list(x.index) != list(x.columns):
        return {"t": "mat", "names": [*map(str, x.index), *map(str, x.columns)], "v": [qv(r) for r in a]}
    return {"t": "mat", "names": names_of(x), "v": [qv(r) for r in a]}


def C(x, names=None):
    a = np.asarray(x, float)
    nm = ([str(i) for i in x.columns] if isinstance(x, pd.DataFrame) else []) if names is None else [str(i) for i in names]
    return {"t": "cols", "names": nm, "v": [qv(a[:, j]) for j in range(a.shape[1])]}


def N(*x):
    return {"t": "num", "names": [], "v": [qv(np.asarray(i, float).ravel()) for i in x]}


def D(d):
    out = [V(d.mu, d.asset_names or []), {"t": "mat", "names": [str(i) for i in d.asset_names or []], "v": [qv(r) for r in d.cov]}]
    return out + ([C(d.scenarios, d.asset_names or []), N(d.probabilities)] if d.scenarios is not None else [])


def F(f):
    nm = f.asset_names or []
    return [V(f.weights[:, j], nm) for j in range(f.weights.shape[1])] + [N(f.returns, f.risks)]


class Data:
    """One set of figures for three labels, presented in whatever order is asked for."""

    def __init__(self, rng, scen=False):
        self.u = list(rng.choice(SETS if not scen else SETS[:5]))
        self.T = T = rng.choice([13, 16, 20])
        n = self.n = 3
        g = np.random.default_rng(rng.randrange(10 ** 9))
        self.x = {}
        scale = np.array([0.02, 0.035, 0.05])[g.permutation(3)]
        X = g.normal(0.004, 1, (T, n)) * scale + np.array([0.003, 0.009, 0.015])[g.permutation(3)]
        X[:, 1] += 0.4 * X[:, 0]
        p = g.integers(1, 5, T).astype(float)
        self.p = p / p.sum()
        Y = g.normal(0.002, 0.03, (T, n)) + 0.005 * np.arange(n)
        self.X, self.Y = X, Y
        v = self.x
        v["mu"], v["cov"] = X.mean(axis=0), np.cov(X.T) + 1e-4 * np.eye(n)
        v["mu2"], v["cov2"] = Y.mean(axis=0), np.cov(Y.T) + 2e-4 * np.eye(n)
        v["s_mu"] = v["cov2"] * np.outer(*[np.array([0.4, 1.0, 2.5])[g.permutation(3)]] * 2)
        v["w0"], v["mic"], v["pc"] = np.array([0.55, 0.3, 0.15])[g.permutation(3)], np.array([0.002, 0.02, 0.05])[g.permutation(3)], np.array([0.0005, 0.003, 0.001])[g.permutation(3)]
        v["w"], v["w2"] = np.array([0.5, 0.2, 0.3])[g.permutation(3)], np.array([0.1, 0.7, 0.2])[g.permutation(3)]
        v["conf"] = np.array([0.3, 0.6, 0.85])[g.permutation(3)]
        v["price"], v["lot"], v["shift"] = np.array([11.3, 47.9, 101.7])[g.permutation(3)], np.array([1, 2, 5])[g.permutation(3)], np.array([0.01, -0.02, 0.03])[g.permutation(3)]
        v["prob"] = np.array([0.2, 0.5, 0.3])[g.permutation(3)]
        v["prob2"] = np.array([0.45, 0.15, 0.4])[g.permutation(3)]
        self.R3 = g.normal(0.01, 0.04, (3, 2))      # three scenarios of two assets
        self.dates = pd.date_range("2024-01-05", periods=T + 1, freq="W")

    def at(self, labels):
        return [self.u.index(i) if i in self.u else min(k, 2) for k, i in enumerate(labels)]

    def vec(self, name, L):
        a = self.x[name]
        return a.copy() if L is None else pd.Series(a[self.at(L)], index=list(L))

    def dic(self, name, L):
        a = self.x[name][self.at(L)]
        return dict(zip(L, a.tolist()))

    def mat(self, name, Lr, Lc):
        a = self.x[name]
        return a.copy() if Lr is None else pd.DataFrame(a[np.ix_(self.at(Lr), self.at(Lc))], index=list(Lr), columns=list(Lc))

    def frame(self, a, L, index=None):
        return a.copy() if L is None else pd.DataFrame(a[:, self.at(L)], columns=list(L), index=index)

    def rows(self, L):
        """Three scenarios, in the order asked for."""
        return self.R3.copy() if L is None else pd.DataFrame(self.R3[self.at(L)], index=list(L), columns=["A", "B"])


E = {}


def entry(name, roles, tol="exact", plain=True, anchored=False, scen=False):
    """plain: may also be asked without labels; anchored: the first axis keeps its order."""
    def reg(fn):
        E[name] = (roles, tol, plain, anchored, scen, fn)
        return fn
    return reg


FULL = "full"


# ---- distributions, optimisation ------------------------------------------
@entry("distribution", [FULL] * 4)
def _(d, m, r, c, s):
    return D(AssetsDistribution(mu=d.vec("mu", m), cov=d.mat("cov", r, c), scenarios=d.frame(d.X, s), probabilities=d.p))


@entry("distribution from scenarios", [FULL] * 2)
def _(d, s, m):
    return D(AssetsDistribution(scenarios=d.frame(d.X, s), mu=d.vec("mu2", m)))


@entry("distribution with names", [FULL] * 3, plain=False)
def _(d, n, r, c):
    a = d.at(n)
    return D(AssetsDistribution(mu=d.x["mu"][a], cov=d.mat("cov", r, c), asset_names=list(n)))


@entry("distribution with names and scenarios", [FULL] * 2, plain=False)
def _(d, s, n):
    return D(AssetsDistribution(scenarios=d.frame(d.X, s), asset_names=list(n)))


@entry("minimum variance", [FULL] * 5, "solved")
def _(d, m, r, c, w, k):
    p = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", r, c), costs=TransactionCosts(initial_weights=d.vec("w0", w), market_impact_costs=d.vec("mic", k)))
    x, ret, risk = p.min_variance_at_return(float(d.x["mu"].mean()))
    return [V(x), N(ret, risk)]


@entry("minimum variance, log moments", [FULL] * 3, "solved")
def _(d, m, r, c):
    x, ret, risk = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", r, c), return_type="log", bounds=(0, 0.7)).min_variance_at_return(0.0)
    return [V(x), N(ret, risk)]


@entry("minimum variance, costs of the call", [FULL] * 3, "solved")
def _(d, m, w, k):
    p = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", m, m))
    x, ret, risk = p.min_variance_at_return(float(d.x["mu"].mean()), costs=TransactionCosts(initial_weights=d.vec("w0", w), market_impact_costs=d.vec("mic", k)))
    return [V(x), N(ret, risk)]


@entry("variance frontier, costs of the call", [FULL] * 3, "solved")
def _(d, m, w, k):
    return F(PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", m, m)).variance_frontier(3, costs=TransactionCosts(initial_weights=d.vec("w0", w), market_impact_costs=d.vec("mic", k))))


@entry("robust frontier, costs of the call", [FULL] * 3, "solved")
def _(d, m, w, k):
    return F(PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", m, m)).robust_lambda_frontier(2, 1.5, costs=TransactionCosts(initial_weights=d.vec("w0", w), proportional_costs=d.vec("pc", k))))


@entry("minimum CVaR", [FULL] * 3, "solved")
def _(d, s, w, k):
    p = PortfolioWrapper.from_scenarios(d.frame(d.X, s), probabilities=d.p, costs=TransactionCosts(initial_weights=d.vec("w0", w), proportional_costs=d.vec("pc", k)))
    x, ret, risk = p.min_cvar_at_return(float((d.p @ d.X).mean()), 0.2)
    return [V(x), N(ret, risk)]


@entry("CVaR frontier, costs of the call", [FULL] * 3, "solved")
def _(d, s, w, k):
    f = PortfolioWrapper.from_scenarios(d.frame(d.X, s)).cvar_frontier(3, 0.2, costs=TransactionCosts(initial_weights=d.vec("w0", w), proportional_costs=d.vec("pc", k)))
    return [N(f.returns, f.risks)] + [V(f.weights[:, -1], f.asset_names or [])]


@entry("robust portfolio of a posterior", [FULL] * 5, "solved")
def _(d, m, r, c, ur, uc):
    p = PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=d.vec("mu", m), sigma=d.mat("cov", r, c), s_mu=d.mat("s_mu", ur, uc)), annualization_factor=4.0)
    x, ret, risk = p.solve_robust_gamma_portfolio(1.0, 5.0)
    return [V(x), N(ret, risk)] + D(p.dist) + F(p.robust_lambda_frontier(2, 0.4))


@entry("mean uncertainty in simple units", [FULL] * 5)
def _(d, m, r, c, ur, uc):
    p = RobustBayesPosterior(mu=d.vec("mu", m), sigma=d.mat("cov", r, c), s_mu=d.mat("s_mu", ur, uc))
    return [M(p.mean_uncertainty_cov_log(annualization_factor=3.0)), M(p.mean_uncertainty_cov_simple(annualization_factor=3.0)), M(p.mean_uncertainty_cov_simple(exact=True))]


@entry("risk parity", [FULL] * 3, "solved")
def _(d, m, r, c):
    x = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", r, c)).relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=1.1)
    return [V(x[0]), N(*x[1:2])]


@entry("risk parity with budgets", [FULL] * 2, "solved")
def _(d, m, b):
    w = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", m, m))
    x = w.relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None, risk_budgets=d.vec("w", b))
    return [V(x[0]), N(*x[1:2])]


@entry("prices", [FULL], "exact", plain=False)
def _(d, s):
    P = pd.DataFrame(np.vstack([np.ones(3), np.cumprod(1 + d.X[:, d.at(s)], axis=0)]) * np.array([3.0, 5.0, 7.0])[d.at(s)], columns=list(s), index=d.dates)
    w = PortfolioWrapper.from_prices(P)
    return D(w.dist)


@entry("frontier portfolios", [FULL] * 3, "solved")
def _(d, m, r, c):
    f = PortfolioWrapper.from_moments(d.vec("mu", m), d.mat("cov", r, c), bounds=(0.05, 0.8)).variance_frontier(4)
    return F(f) + [V(f.min_risk()[0]), V(f.max_return()[0]), V(f.at_percentile(0.5)[0]) if isinstance(f.at_percentile(0.5), tuple) else V(f.at_percentile(0.5)), V(f.tangency(0.0)[0])]


@entry("invariants", [FULL], "exact")
def _(d, s):
    return D(PortfolioWrapper.from_invariants(d.frame(d.X, s), horizon=2, n_simulations=25, seed=5, p=d.p).dist)


@entry("invariants repriced by name", [FULL, "sub"], "exact", plain=False)
def _(d, s, k):
    fs = {str(u): (lambda y, b=i: np.exp(y * (1 + b)) - 1 if y.ndim == 1 else np.exp(y[:, 0] * (1 + b)) - 1) for i, u in enumerate(d.u)}
    rep = {f"i-{x}": ([x], fs.get(str(x), np.expm1)) for x in k}
    x = PortfolioWrapper.from_invariants(d.frame(d.X, s), reprice=rep, horizon=2, n_simulations=25, seed=5).dist
    nm = [str(i)[2:] for i in x.asset_names]
    return [V(x.mu, nm), C(x.scenarios, nm)]


# ---- moments ---------------------------------------------------------------
for _name, _fn, _tol in (("sample", lambda d, R: mo.estimate_sample_moments(R, d.p), "exact"),
                         ("OAS", lambda d, R: mo.shrink_covariance_oas(R), "exact"), ("NLS", lambda d, R: mo.shrink_covariance_nls(R), "iterated"),
                         ("POET", lambda d, R: mo.factor_covariance_poet(R, k=1), "iterated"), ("Tyler", lambda d, R: mo.robust_covariance_tyler(R, shrinkage=0.2), "iterated"),
                         ("EWMA", lambda d, R: mo.covariance_ewma(R, span=8), "exact"), ("glasso", lambda d, R: mo.sparse_precision_glasso(R * 20, alpha=0.1, return_precision=True), "solved"),
                         ("Huber", lambda d, R: mo.robust_mean_huber(R), "iterated"), ("median of means", lambda d, R: mo.robust_mean_median_of_means(R, n_blocks=3, random_state=4), "exact"),
                         ("Jorion and Ledoit-Wolf", lambda d, R: mo.estimate_moments(R, d.p, mean_estimator="jorion", cov_estimator="ledoit_wolf"), "exact"),
                         ("James-Stein and EWMA", lambda d, R: mo.estimate_moments(R, mean_estimator="james_stein", cov_estimator="ewma"), "exact"),
                         ("POET parts", lambda d, R: mo.factor_covariance_poet(R, k=1, return_decomp=True)[0], "iterated")):
    def _go(d, s, fn=_fn):
        r = fn(d, d.frame(d.X, s))
        return [M(x) if np.ndim(x) == 2 else V(x) for x in (r if isinstance(r, tuple) else (r,))]
    entry("estimate: " + _name, [FULL], _tol)(_go)
for _t in ("identity", "constant_correlation"):
    entry("Ledoit-Wolf to " + _t, [FULL] * 3)(lambda d, s, r, c, t=_t: [M(mo.shrink_covariance_ledoit_wolf(d.frame(d.X, s), d.mat("cov", r, c), target=t))])
entry("Jorion mean", [FULL] * 3)(lambda d, m, r, c: [V(mo.shrink_mean_jorion(d.vec("mu", m), d.mat("cov", r, c), d.T))])
entry("James-Stein mean", [FULL] * 3)(lambda d, m, r, c: [V(mo.shrink_mean_james_stein(d.vec("mu", m), d.mat("cov", r, c), d.T))])
entry("James-Stein mean to a target", [FULL] * 2)(lambda d, m, t: [V(mo.shrink_mean_james_stein(d.vec("mu", m), d.mat("cov", m, m), d.T, target=d.vec("mu2", t)))])
entry("Tyler to a target", [FULL] * 3, "iterated")(lambda d, s, r, c: [M(mo.robust_covariance_tyler(d.frame(d.X, s), shrinkage=0.3, target=d.mat("cov2", r, c)))])


@entry("NIW", [FULL] * 6)
def _(d, m, r, c, sm, sr, sc):
    mu, S, U = mo.posterior_moments_niw_with_uncertainty(prior_mu=d.vec("mu", m), prior_sigma=d.mat("cov", r, c), t0=7, nu0=9,
                                                         sample_mu=d.vec("mu2", sm), sample_sigma=d.mat("cov2", sr, sc), n_obs=12)
    return [V(mu), M(S), M(U)]


@entry("NIW, unlabelled prior mean", [FULL] * 5)
def _(d, r, c, sm, sr, sc):
    m = d.x["mu"] if r is None else d.x["mu"][d.at(r)]
    mu, S = mo.posterior_moments_niw(prior_mu=m, prior_sigma=d.mat("cov", r, c), t0=7, nu0=9, sample_mu=d.vec("mu2", sm), sample_sigma=d.mat("cov2", sr, sc), n_obs=12)
    return [V(mu), M(S)]


@entry("NIW, unlabelled prior", [FULL] * 3, anchored=True)
def _(d, sm, sr, sc):
    mu, S = mo.posterior_moments_niw(prior_mu=d.x["mu"], prior_sigma=d.x["cov"], t0=7, nu0=9, sample_mu=d.vec("mu2", sm), sample_sigma=d.mat("cov2", sr, sc), n_obs=12)
    return [V(np.asarray(mu)), M(np.asarray(S))]


# ---- views ----------------------------------------------------------------
for _k in ("pi", "market_weights", "prior_mean"):
    def _go(d, r, c, v, q, k=_k):
        p = BlackLittermanProcessor(prior_cov=d.mat("cov", r, c), **{k: d.vec("w" if k == "market_weights" else "mu", v)}, mean_views=d.vec("mu2", q), view_confidences=0.4)
        m, S = p.get_posterior()
        return [V(m), M(S)]
    entry("Black-Litterman, " + _k, [FULL] * 4)(_go)


@entry("Black-Litterman, keyed views", [FULL, FULL, FULL, "sub", "loose"], plain=False)
def _(d, r, c, v, q, f):
    m, S = mo.posterior_moments_black_litterman(prior_cov=d.mat("cov", r, c), prior_mean=d.vec("mu", v), mean_views=d.dic("mu2", q), view_confidences=d.dic("conf", f))
    return [V(m), M(S)]


@entry("Black-Litterman, labelled confidences", [FULL] * 5)
def _(d, r, c, v, q, f):
    m, S = mo.posterior_moments_black_litterman(prior_cov=d.mat("cov", r, c), prior_mean=d.vec("mu", v), mean_views=d.vec("mu2", q), view_confidences=d.vec("conf", f))
    return [V(m), M(S)]


@entry("Black-Litterman, unlabelled covariance", [FULL, FULL], anchored=True)
def _(d, v, q):
    p = BlackLittermanProcessor(prior_cov=d.x["cov"], pi=d.vec("mu", v), mean_views=d.vec("mu2", q), view_confidences=0.4)
    m, S = p.get_posterior()
    return [V(np.asarray(m)), M(np.asarray(S))]


def pool(p):
    m, S = p.get_posterior()
    return [N(p.get_posterior_probabilities()), V(m), M(S)]


@entry("pooled means", [FULL, "sub"], "solved", plain=False)
def _(d, s, k):
    m = dict(zip(d.u, d.X.mean(axis=0) + np.array([0.004, -0.003, 0.002])))
    return pool(FlexibleViewsProcessor(prior_risk_drivers=d.frame(d.X, s), prior_probabilities=d.p, mean_views={i: at_least(m[i]) if i == d.u[0] else m.get(i, 0.0) for i in k if i != d.u[2]} | {i: 0.0 for i in k if i not in d.u}))


@entry("pooled second moments", [FULL, "sub", "sub"], "solved", plain=False)
def _(d, s, k, q):
    sd = dict(zip(d.u, d.X.std(axis=0) * np.array([1.1, 0.95, 1.0])))
    rho = float(np.corrcoef(d.X.T)[0, 1])
    a, b = (d.u[0], d.u[1])
    pair = (a, b) if set(q) <= set(d.u) else (a, [i for i in q if i not in d.u][0])
    return pool(FlexibleViewsProcessor(prior_risk_drivers=d.frame(d.X, s), vol_views={i: sd.get(i, 0.02) for i in k if i != d.u[1]}, corr_views={pair: 0.8 * rho}))


@entry("pooled ranking", [FULL, "sub"], "solved", plain=False)
def _(d, s, k):
    bad = [i for i in k if i not in d.u]
    rank = sorted(d.u, key=lambda u: d.X.mean(axis=0)[d.u.index(u)])[:2] + bad[:1]
    return pool(FlexibleViewsProcessor(prior_risk_drivers=d.frame(d.X, s), rank_mean=rank))


@entry("pooled prior moments", [FULL] * 3, "solved", anchored=True, plain=False)
def _(d, m, r, c):
    return pool(FlexibleViewsProcessor(prior_mean=d.vec("mu", m), prior_cov=d.mat("cov", r, c), num_scenarios=40, random_state=3, mean_views={d.u[0]: float(d.x["mu"][0]) * 1.1}))


@entry("pooled mean vector", [FULL, FULL], "solved")
def _(d, s, q):
    x = d.X.mean(axis=0) * np.array([1.02, 0.97, 1.01])
    d.x["view"] = x
    return pool(FlexibleViewsProcessor(prior_risk_drivers=d.frame(d.X, s), mean_views=d.vec("view", q)))


# ---- scenario analysis -------------------------------------------------------
def two(d, L):
    return np.column_stack([d.x["w"], d.x["w2"]]) if L is None else pd.DataFrame({"p": d.x["w"][d.at(L)], "q": d.x["w2"][d.at(L)]}, index=list(L))


entry("scenario P&L", [FULL] * 2)(lambda d, s, w: [N(pe.scenario_pnl(d.vec("w", w), d.frame(d.X, s)))])
entry("scenario P&L of several", [FULL] * 2)(lambda d, s, w: [N(pe.scenario_pnl(two(d, w), d.frame(d.X, s)))])
entry("scenario P&L of a mapping", [FULL] * 2, plain=False)(lambda d, s, w: [N(pe.scenario_pnl(d.dic("w", w), d.frame(d.X, s)))])
entry("performance report", [FULL] * 2)(lambda d, s, w: [N(pe.performance_report(d.vec("w", w), d.frame(d.X, s), probabilities=d.p))])
entry("horizon report", [FULL] * 2)(lambda d, s, w: [N(pe.horizon_report(d.vec("w", w), d.frame(d.X, s), horizons=(2, 4), n_simulations=20, seed=2))])
entry("drawdown", [FULL] * 2)(lambda d, s, w: [N(pe.drawdown_quantile(d.vec("w", w), d.frame(d.X, s), 4, n_paths=20, seed=2))])
entry("stress test", [FULL] * 2)(lambda d, s, w: [N(stress_test(two(d, w), d.frame(d.X, s), probabilities=d.p, transform=linear_map(scale=1.5)))])
entry("stress test of a mapping", [FULL] * 2, plain=False)(lambda d, s, w: [N(stress_test(d.dic("w", w), d.frame(d.X, s)))])
entry("decay stress", [FULL] * 2)(lambda d, s, w: [N(exp_decay_stress(d.vec("w", w), d.frame(d.X, s), half_life=4))])
entry("pooling stress", [FULL] * 2)(lambda d, s, w: [N(entropy_pooling_stress(d.vec("w", w), d.frame(d.X, s), posterior_probabilities=d.p))])
entry("kernel stress", [FULL] * 2)(lambda d, s, w: [N(kernel_focus_stress(d.dic("w", w), d.frame(d.X, s), focus_series=d.X[:, 0]) if w is not None else kernel_focus_stress(d.x["w"], d.X, focus_series=d.X[:, 0]))])
entry("invariant stress", [FULL, FULL, "sub"], "solved", plain=False)(
    lambda d, s, w, k: [N(stress_invariants(d.frame(d.X, s), d.vec("w", w), pj.reprice_exp, stress_views={i: float(d.X[:, d.at([i])[0]].mean()) + 0.002 for i in k if i != d.u[2]}, n_simulations=30, seed=3))])
FORMS = {"one column": lambda d, w: d.x["w"].reshape(-1, 1) if w is None else d.vec("w", w).to_frame("p"), "series": lambda d, w: d.vec("w", w), "mapping": lambda d, w: d.dic("w", w), "several": lambda d, w: two(d, w)}
for _nm, _fn in [("P&L", lambda d, w, R: pe.scenario_pnl(w, R)), ("report", lambda d, w, R: pe.performance_report(w, R, probabilities=d.p)),
                 ("horizons", lambda d, w, R: pe.horizon_report(w, R, horizons=(2, 4), n_simulations=20, seed=2)), ("drawdowns", lambda d, w, R: pe.drawdown_quantile(w, R, 4, n_paths=20, seed=2)),
                 ("stress", lambda d, w, R: stress_test(w, R, transform=linear_map(scale=1.5))), ("stressed factors", lambda d, w, R: stress_invariants(R, w, np.expm1, n_simulations=30, seed=4)),
                 ("variance", lambda d, w, R: fu.portfolio_variance(w, np.cov(d.X.T) if not isinstance(R, pd.DataFrame) else R.cov())),
                 ("tails", lambda d, w, R: np.r_[[] if np.ndim(w) == 2 else np.ravel(fu.portfolio_var(w, R, d.p, confidence=0.7)), np.ravel(fu.portfolio_cvar(w, R, d.p, confidence=0.7))])]:
    for _fm, _w in FORMS.items():
        if (_fm == "mapping" and _nm not in ("P&L", "stress")) or (_fm == "several" and _nm in ("report", "horizons", "drawdowns", "stressed factors")):
            continue
        entry(f"{_nm}, {_fm}", [FULL] * 2, plain=_fm != "mapping")(lambda d, s, w, g=_fn, f=_w: [N(g(d, f(d, w), d.frame(d.X, s)))])
entry("portfolio variance", [FULL] * 3)(lambda d, w, r, c: [N(fu.portfolio_variance(d.vec("w", w), d.mat("cov", r, c)))])
entry("portfolio volatility of several", [FULL] * 3)(lambda d, w, r, c: [N(fu.portfolio_volatility(two(d, w), d.mat("cov", r, c)))])
entry("portfolio CVaR", [FULL] * 2)(lambda d, w, s: [N(fu.portfolio_cvar(d.vec("w", w), d.frame(d.X, s), d.p, confidence=0.8))])
entry("portfolio VaR", [FULL] * 2)(lambda d, w, s: [N(fu.portfolio_var(d.vec("w", w), d.frame(d.X, s), d.p, confidence=0.8))])
entry("portfolio CVaR of several", [FULL] * 2)(lambda d, w, s: [N(fu.portfolio_cvar(two(d, w), d.frame(d.X, s), confidence=0.8, demean=True))])

# ---- projection ---------------------------------------------------------------
entry("log to simple", [FULL] * 3)(lambda d, m, r, c: (lambda x: [V(x[0]), M(x[1])])(pj.log2simple(d.vec("mu", m), d.mat("cov", r, c))))
entry("simple to log", [FULL] * 3)(lambda d, m, r, c: (lambda x: [V(x[0]), M(x[1])])(pj.simple2log(d.vec("mu", m), d.mat("cov", r, c))))
entry("projected moments", [FULL] * 3)(lambda d, m, r, c: (lambda x: [V(x[0]), M(x[1])])(pj.project_mean_covariance(d.vec("mu", m), d.mat("cov", r, c), 4)))
entry("projected scenarios", [FULL])(lambda d, s: [C(pj.project_scenarios(d.frame(d.X, s), 3, n_simulations=20, seed=1, p=d.p))])
entry("projected simple scenarios", [FULL])(lambda d, s: [C(pj.project_scenarios(d.frame(d.X, s), 3, n_simulations=20, seed=1, reprice=pj.reprice_exp))])
entry("simulated paths", [FULL])(lambda d, s: [C(pj.simulate_paths(d.frame(d.X, s), 2, 15, seed=1)[:, 1, :])])


# ---- allocation, ensembles -------------------------------------------------------
@entry("whole lots", [FULL, "super", "sub"], "exact", plain=False)
def _(d, w, p, k):
    r = da.discretize_weights(d.vec("w", w), d.vec("price", p), 20000.0, lot_sizes=dict(zip(k, d.x["lot"][d.at(k)])) if set(k) <= set(d.u) else None)
    if not set(k) <= set(d.u):
        raise ValueError("not asked")
    s = pd.Series(r.shares, dtype=float)
    a = r.achieved_weights
    return [V(s.reindex(list(w)).fillna(0.0)), V(a), N(r.leftover_cash)]


@entry("whole lots, greedy", [FULL, "super"], "exact", plain=False)
def _(d, w, p):
    r = da.discretize_weights(d.dic("w", w), d.dic("price", p), 2000.0, method="greedy")
    return [V(pd.Series(r.shares, dtype=float).reindex(list(w)).fillna(0.0)), V(r.achieved_weights), N(r.leftover_cash)]


def front(d, L, k):
    W = np.column_stack([d.x["w"], d.x["w2"]]) if k else np.column_stack([d.x["w0"], d.x["w"]])
    return PortfolioFrontier(weights=W if L is None else W[d.at(L)], returns=np.array([0.01, 0.02]), risks=np.array([0.1, 0.2]), risk_measure="Volatility", asset_names=None if L is None else list(L))


entry("averaged frontiers", [FULL] * 2)(lambda d, a, b: [V(en.average_frontiers([front(d, a, 0), front(d, b, 1)]))])
entry("averaged exposures", [FULL])(lambda d, a: [V(en.average_exposures(two(d, a), np.array([0.3, 0.7])))])
entry("stacked exposures", [FULL], "solved")(lambda d, a: [V(en.exposure_stacking(two(d, a), 2))])
entry("stacked frontiers", [FULL] * 2, "solved")(lambda d, a, b: [V(en.exposure_stack_frontiers([front(d, a, 0), front(d, b, 1)], 2))])
@entry("frontier portfolios of given weights", [FULL])
def _(d, a):
    f = front(d, a, 0)
    x = f.to_frame()
    m, nm = f.to_samples(as_frame=False)
    return [V(x.iloc[:, 0], x.index if a is not None else []), V(m[:, 1], nm if a is not None else []), V(f.min_risk()[0]), V(f.max_return()[0]), V(f.at_risk(0.15)[0]), V(f.at_return(0.015)[0]), V(f.closest_risk(0.19)[0])]


# ---- scenario labels ------------------------------------------------------------
entry("sample moments, labelled scenarios", [FULL, "loose"], scen=True, plain=False)(lambda d, s, p: (lambda x: [N(x[0], np.ravel(x[1]))])(mo.estimate_sample_moments(d.rows(s), d.vec("prob", p))))
entry("distribution, labelled scenarios", [FULL, "loose"], scen=True, plain=False)(lambda d, s, p: (lambda x: [N(x.mu, np.ravel(x.cov))])(AssetsDistribution(scenarios=d.rows(s), probabilities=d.vec("prob", p))))
entry("performance, labelled scenarios", [FULL, "loose"], scen=True, plain=False)(lambda d, s, p: [N(pe.performance_report(np.array([0.4, 0.6]), d.rows(s), probabilities=d.vec("prob", p)))])
entry("stress, labelled scenarios", [FULL, "loose", "loose"], scen=True, plain=False)(
    lambda d, s, p, q: [N(stress_test(np.array([0.4, 0.6]), d.rows(s), probabilities=d.vec("prob", p), stressed_probabilities=d.vec("prob2", q)))])
entry("pooled, labelled scenarios", [FULL, "loose"], "solved", scen=True, plain=False)(
    lambda d, s, p: (lambda x: [N(*x.get_posterior())])(FlexibleViewsProcessor(prior_risk_drivers=d.rows(s), prior_probabilities=d.vec("prob", p), mean_views={"A": float(d.R3[:, 0].mean())})))
entry("estimated moments, labelled scenarios", [FULL, "loose"], scen=True, plain=False)(
    lambda d, s, p: (lambda x: [N(x[0], np.ravel(x[1]))])(mo.estimate_moments(d.rows(s), d.vec("prob", p), cov_estimator="ledoit_wolf")))
entry("tail risk, labelled scenarios", [FULL, "loose"], scen=True, plain=False)(
    lambda d, s, p: [N(fu.portfolio_cvar(np.array([0.4, 0.6]), d.rows(s), d.vec("prob", p), confidence=0.6), fu.portfolio_var(np.array([0.4, 0.6]), d.rows(s), d.vec("prob", p), confidence=0.6))])
entry("projection, labelled scenarios", [FULL, "loose"], scen=True, plain=False, anchored=True)(
    lambda d, s, p: [N(np.ravel(pj.project_scenarios(d.rows(s), 2, p=d.vec("prob", p), n_simulations=20, seed=4)), np.ravel(pj.simulate_paths(d.rows(s), 2, 10, p=d.vec("prob", p), seed=4)))])


# ---- sessions ------------------------------------------------------------
def answer(name, d, axes):
    r = call(lambda: E[name][5](d, *axes))
    if r[0] == "ok" and axes[0] is None:
        for o in r[1]:
            o["names"] = []
    return {"k": r[0], "mro": mro(r[2]) if r[0] == "err" else [], "outs": r[1] if r[0] == "ok" else []}


def spread(pres, d, roles):
    """A presentation of up to three axes over an entry with any number of them."""
    to = dict(zip("abcxy", d.u + ["x" if isinstance(d.u[0], str) else 77, "y" if isinstance(d.u[0], str) else 78])) | {"z": "zz" if isinstance(d.u[0], str) else 79}
    return [[to[c] for c in a] for a in pres]


def check(ctx):
    rng = ctx.rng("labels")
    recs = [r["axes"] for r in ctx.model_check("LabelMC", "LabelMC")]
    by = {k: [r for r in recs if len(r) == k] for k in (1, 2, 3)}
    out = []
    for rep in range(ctx.n(4, 16)):
        for name, (roles, tol, plain, anchored, scen, _) in E.items():
            k = len(roles)
            for _ in range(8):          # figures the solvers can answer for
                d = Data(rng, scen)
                base = answer(name, d, [d.u] * k)
                if base["k"] == "ok":
                    break
            else:
                raise MachineryError(f"{name}: {base['mro']}")
            uni = [str(u) for u in d.u]
            for o in base["outs"]:
                o["names0"] = o["names"]
                o["names"] = o["names"] or uni
            todo = []
            if plain:
                todo.append([None] * k)
            same = [a[0] for a in by[1]]
            for a in ([] if anchored else same):
                todo.append(spread([a] * k, d, roles))
            if k > 1:
                m = min(k, 3)
                for pres in rng.sample(by[m], min(len(by[m]), ctx.n(14, 60))) + rng.sample([p for p in by[m] if len({tuple(sorted(x)) for x in p}) == 1 and len({tuple(x) for x in p}) > 1], ctx.n(6, 12)):
                    first = ["a", "b", "c"] if anchored else pres[0]
                    others = rng.sample(range(1, k), m - 1)
                    ax = [first] * k
                    for i, j in enumerate(others):
                        ax[j] = pres[i + 1]
                    todo.append(spread(ax, d, roles))
            todo = [t for t in todo if t[0] is None or not any(bad(r, t[i], d.u) for i, r in enumerate(roles))]

            def go(name=name, d=d, todo=todo):
                return [{"op": "ask", "axes": [[] if a is None else [str(x) for x in a] for a in t], "out": answer(name, d, t)} for t in todo]
            s = ctx.run_session(f"{name}-{rep}", {}, go, timeout=120)
            s["init"] = {"entry": name, "uni": uni, "roles": ["full" if r == "loose" else r for r in roles], "tol": tol, "base": base}
            out.append(s)
    ctx.validate("LabelTrace", out)
    ctx.required_clauses = {"permuted-inputs-permute-results", "labels-change-nothing-else", "unmatchable-labels-refused", "reordered-inputs-aligned-or-refused", "results-labelled-as-inputs"}
    return ctx.finish(assumptions=["results agree within 1e-9 (closed forms), 1e-6 (fixed points) or 5e-5 (optimisers), relative to 1 + size",
                                   "probabilities written with other labels than the scenarios' are not judged"])


def bad(role, axis, uni):
    """Presentations outside the question for the role."""
    ok = sorted(map(str, axis)) == sorted(map(str, uni))
    if role == "loose":
        return not ok
    if role == "sub":
        return not ok and all(x in uni for x in axis)
    return False
