"""Driver of the scenario-probability property (spec/Prob.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

import pyvallocation as pv
from pyvallocation import probabilities as P
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper
from pyvallocation.utils.functions import portfolio_cvar, portfolio_var
from pyvallocation.utils.performance import performance_report
from pyvallocation.ensembles import assemble_portfolio_ensemble, make_portfolio_spec
from vkit import call, mro, q, qv, size


def res(r):
    k, v, exc = r
    if k == "ok":
        try:
            return {"k": "ok", "v": qv(v), "mro": []}
        except Exception as e:  # noqa: BLE001
            return {"k": "odd", "v": [], "mro": [type(e).__name__]}
    return {"k": "err", "v": [], "mro": mro(exc)}


def num(s):
    s = str(s)
    return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}.get(s) if s in ("nan", "inf", "-inf") else float(F(s))


def forms(m, form):
    a = np.array([num(x) for x in m], dtype=float)
    return [a, a.tolist(), pd.Series(a, index=[f"s{i}" for i in range(len(a))]), a.reshape(-1, 1), tuple(a.tolist())][form % 5]


def rep(x):
    return repr(np.asarray(x).tolist())


def resolve(m, n, strict, form, via):
    p = None if m is None else forms(m, form)
    b = rep(p)
    if via == "normalize":
        r = call(P.normalize_probability_vector, p, strictly_positive=strict)
        n = len(m)
    else:
        r = call(P.resolve_probabilities, p, n, strictly_positive=strict)
    again = call(P.normalize_probability_vector, r[1]) if r[0] == "ok" else ("err", None, None)
    return {"op": "resolve", "m": ["none"] if m is None else [q(num(x)) for x in m], "n": n, "strict": strict,
            "same": b == rep(p), "out": res(r), "again": res(again)}


# consumers ----------------------------------------------------------------
def _dist(R, p):
    d = AssetsDistribution(scenarios=R, probabilities=p)
    return np.concatenate([d.probabilities, d.mu, d.cov.ravel()])


def _distdf(R, p):
    d = AssetsDistribution(scenarios=pd.DataFrame(R, columns=["a", "b"]), probabilities=p)
    return np.concatenate([d.probabilities, d.mu, d.cov.ravel()])


def _froms(R, p):
    d = PortfolioWrapper.from_scenarios(R, probabilities=p).dist
    return np.concatenate([d.probabilities, d.mu, d.cov.ravel()])


def _moments(R, p):
    p = np.full(len(R), 1 / len(R)) if p is None else p
    mu, S = pv.estimate_sample_moments(R, np.asarray(p) if isinstance(p, pd.Series) else p)
    return np.concatenate([mu, S.ravel()])


W2 = np.array([0.25, 0.75])


def _project(R, p):
    return pv.project_scenarios(R, investment_horizon=3, p=p, n_simulations=40, seed=3)


def _paths(R, p):
    return pv.simulate_paths(R, horizon=3, n_paths=20, p=p, seed=3)


def _stressnom(R, p):
    return pv.stress_test(W2, R, probabilities=p, stressed_probabilities=np.full(len(R), 1 / len(R)), confidence=0.8).to_numpy(float)


def _stressst(R, p):
    p = np.full(len(R), 1 / len(R)) if p is None else p
    return pv.stress_test(W2, R, stressed_probabilities=p, confidence=0.8).to_numpy(float)


def _epstress(R, p):
    p = np.full(len(R), 1 / len(R)) if p is None else p
    return pv.entropy_pooling_stress(W2, R, posterior_probabilities=p, confidence=0.8).to_numpy(float)


def _expstress(R, p):
    return pv.exp_decay_stress(W2, R, probabilities=p, half_life=2, confidence=0.8).to_numpy(float)


def _kernstress(R, p):
    return pv.kernel_focus_stress(W2, R, focus_series=R[:, 0], probabilities=p, bandwidth=0.7, confidence=0.8).to_numpy(float)


def _report(R, p):
    return performance_report(W2, R, probabilities=p, confidence=0.8).to_numpy(float)


def _ep(R, p):
    p = np.full(len(R), 1 / len(R)) if p is None else p
    return pv.entropy_pooling(p, np.ones((1, len(R))), np.array([1.0]))


def _fvp(R, p):
    v = pv.FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p)
    return np.concatenate([np.asarray(v.p0).ravel(), np.asarray(v.get_posterior_probabilities()).ravel()])


def _ens(R, p):
    seen = []

    def build(d, **kw):
        seen.append(d)
        w = PortfolioWrapper(d)
        return w.variance_frontier(num_portfolios=2)
    df = pd.DataFrame(R, columns=["a", "b"])
    pi = pd.Series(np.asarray(p, float).ravel(), index=df.index) if isinstance(p, pd.Series) else p
    spec = make_portfolio_spec(name="x", returns=df, probabilities=pi, use_scenarios=True)
    d = spec.build_distribution() if hasattr(spec, "build_distribution") else spec.distribution_factory()
    return np.concatenate([d.probabilities, d.mu, d.cov.ravel()])


CONS = {"var": (lambda R, p: portfolio_var(W2, R, p, 0.8), False), "cvar": (lambda R, p: portfolio_cvar(W2, R, p, 0.8), False),
        "dist": (_dist, False), "distdf": (_distdf, False), "from_scenarios": (_froms, False), "moments": (_moments, False),
        "project": (_project, False), "paths": (_paths, False), "stress_nominal": (_stressnom, False),
        "stress_stressed": (_stressst, False), "ep_stress": (_epstress, False), "exp_stress": (_expstress, False),
        "kernel_stress": (_kernstress, False), "report": (_report, False), "entropy_pooling": (_ep, True), "views": (_fvp, True)}


def supply(name, m, T, form):
    fn, strict = CONS[name]
    rs = np.random.RandomState(T)
    R = rs.randint(-16, 17, size=(T, 2)) / 16.0
    p = forms(m, form)
    b = rep(p) + rep(R)
    out = res(call(fn, R, p))
    ok = b == rep(p) + rep(R)
    vals = [num(x) for x in m]
    ref = {"k": "none", "v": [], "mro": []}
    none = dict(ref)
    uni = False
    if out["k"] == "ok" and all(np.isfinite(vals)) and sum(vals) > 0:
        ref = res(call(fn, R, np.array(vals) / sum(vals)))
        uni = len(set(vals)) == 1 and len(vals) == T
        if uni:
            none = res(call(fn, R, None))
    return {"op": "supply", "entry": name, "m": [q(v) for v in vals], "n": T, "strict": strict, "same": ok, "out": out,
            "ref": ref, "none": none, "isuni": uni}


def check(ctx):
    rng = ctx.rng("prob")
    out = []
    recs = ctx.model_check("ProbMC", "ProbMC4" if ctx.thorough else "ProbMC")
    names = sorted(CONS)
    for k, r in enumerate(recs):
        def run(r=r, k=k):
            evs = [resolve(r["m"], r["n"], s, k + s, v) for s in (False, True) for v in ("resolve", "normalize")]
            T = r["n"]
            if T >= 2:
                picks = names if (ctx.thorough and len(recs) < 4000) else [names[(3 * k + j) % len(names)] for j in range(3)]
                evs += [supply(nm, r["m"], T, k + i) for i, nm in enumerate(picks)]
            return evs
        out.append(ctx.run_session(f"mc-{k}", {}, run))
    for n in [-2, 0, 1, 2, 3, 7, 64, 1000]:
        out.append(ctx.run_session(f"uni-{n}", {}, lambda: [
            {"op": "uniform", "n": n, "out": res(call(P.generate_uniform_probabilities, n))}, resolve(None, n, False, 0, "resolve")]))
    hls = [1, 2, 3, 5, 10, 60, 252, 0.5, 2.5, 0.1, 1000, 0, -1, float("nan")]
    for n in [-3, 0, 1, 2, 3, 5, 12, 40] + ([300, 2000] if ctx.thorough else []):
        def run(n=n):
            return [{"op": "exp", "n": n, "hl": q(h), "out": res(call(P.generate_exp_decay_probabilities, n, h))} for h in hls]
        out.append(ctx.run_session(f"exp-{n}", {}, run))
    for k in range(ctx.n(150, 2000)):
        n = size(rng, [1, 2, 2, 3, 4, 6, 10, 25], [110, 300])
        sc = rng.choice([1.0, 0.01, 100.0])
        x = [sc * rng.randint(-20, 20) / 8 for _ in range(n)] if rng.random() < 0.7 else [rng.gauss(0, sc) for _ in range(n)]
        vg = rng.random() < 0.3
        v = [sc * rng.randint(-20, 20) / 8 for _ in range(rng.choice([1, 3, 5]))] if vg else []
        h = rng.choice(["none", "none", sc * 0.5, sc, sc * 3, 0.0, -1.0, float("nan")])
        c = rng.choice(["none", "none", x[0], sc * rng.uniform(-2, 2)])
        if h not in ("none",) and h == h and h > 0 and not vg:
            pass

        def run():
            xa = [np.array(x), list(x), pd.Series(x, index=range(5, 5 + n))][k % 3]
            if isinstance(xa, pd.Series) and c == "none":
                xa = np.array(x)          # x[-1] on a labelled series is a label lookup
            va = np.array(v) if vg else None
            b = rep(xa) + rep(va)
            r = call(P.generate_gaussian_kernel_probabilities, xa, va, None if h == "none" else h, None if c == "none" else c)
            ev = {"op": "kernel", "x": qv(x), "vgiven": vg, "v": qv(v), "h": h if h == "none" else q(h),
                  "c": c if c == "none" else q(c), "same": b == rep(xa) + rep(va), "out": res(r)}
            # the ratio law is only judged where no weight is lost to underflow
            hh = P.silverman_bandwidth(np.array(x)) if h == "none" and n > 1 else (h if h != "none" else float("nan"))
            cc = x[-1] if c == "none" else c
            evs = []
            ds = [(t - cc) / hh if hh and hh == hh else 0 for t in (v if vg else x)]
            if not (hh == hh and hh > 0) or min(abs(d) for d in ds) < 20:
                evs.append(ev)
            if n > 1:
                evs.append({"op": "band", "x": qv(x), "out": res(call(P.silverman_bandwidth, np.array(x)))})
            return evs
        out.append(ctx.run_session(f"ker-{k}", {}, run))
    for k in range(ctx.n(80, 1500)):
        n = rng.choice([1, 2, 3, 5, 8, 20, 60])
        raw = [rng.choice([0, 0, 1, 1, 2, 50]) for _ in range(n)]
        kind = k % 4
        if kind == 0 or not sum(raw):
            raw = [1] * n
        elif kind == 1:
            raw = [int(i == k % n) for i in range(n)]
        p = np.array(raw) / sum(raw)

        def run():
            a = [p, pd.Series(p), p.tolist(), p.reshape(-1, 1)][k % 4]
            b = rep(a)
            return [{"op": "ens", "p": qv(p), "ens": res(call(P.compute_effective_number_scenarios, a)),
                     "hhi": res(call(P.compute_effective_number_scenarios_hhi, a)), "same": b == rep(a)}]
        out.append(ctx.run_session(f"ens-{k}", {}, run))
    for k in range(ctx.n(60, 800)):      # longer vectors through every consumer
        T = rng.choice([3, 5, 8, 20])
        m = [F(rng.choice([1, 1, 2, 3, 7, 0 if k % 2 else 5]), rng.choice([1, 1, 4, 3])) for _ in range(T)]
        if k % 3 == 0:
            s = sum(m) or 1
            m = [x / s for x in m]
        if k % 7 == 3:
            m[rng.randrange(T)] = rng.choice(["nan", "inf", "-1/4", "-1/100"])
        if k % 7 == 5:
            m = m[:-1] if k % 2 else m + [F(1, 3)]
        nm = [names[(2 * k + j) % len(names)] for j in range(4)]
        out.append(ctx.run_session(f"sup-{k}", {}, lambda: [resolve(m, T, bool(k % 2), k, "resolve")] + [supply(x, m, T, k + i) for i, x in enumerate(nm)]))
    ctx.validate("ProbTrace", out)
    ctx.required_clauses = {"generated-is-proper", "uniform-law", "half-life-law", "kernel-law", "kernel-order", "silverman-law",
                            "refuses-empty", "refuses-bad-parameters", "refuses-improper", "resolves", "idempotent",
                            "default-is-uniform", "entropy-effective-number", "herfindahl-effective-number",
                            "effective-number-bounds", "consumer-refuses-improper", "consumer-uses-them-faithfully",
                            "consumer-default-is-uniform", "inputs-unchanged"}
    return ctx.finish(assumptions=["masses within 1.1e-5 of total one may be used as given (the library's documented closeness test)"])
