"""Driver of the Bayesian-updating property (spec/Niw.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
from pyvallocation.moments import posterior_moments_niw, posterior_moments_niw_with_uncertainty
from pyvallocation.portfolioapi import PortfolioWrapper
from vkit import call, mro, q, qm, qv, size


def names_of(x):
    if isinstance(x, pd.DataFrame):
        return [str(i) for i in x.index] if list(x.index) == list(x.columns) else ["mixed"]
    return [str(i) for i in x.index] if isinstance(x, pd.Series) else ["none"]


def base(r):
    return {"k": "err" if r[0] != "ok" else "ok", "mro": mro(r[2]), "mu": [], "S": [], "Smu": [], "t": "nan", "nu": "nan", "x": "nan",
            "flag": False, "names": ["none"]}


def lab(n, perm=None):
    idx = [f"a{i}" for i in range(n)]
    return [idx[i] for i in perm] if perm else idx


def vec(v, idx):
    a = np.array([float(x) for x in v], dtype=float)
    return pd.Series(a, index=idx) if idx is not None else a


def mat(m, idx):
    a = np.array([[float(x) for x in r] for r in m], dtype=float)
    return pd.DataFrame(a, index=idx, columns=idx) if idx is not None else a


def snap(*xs):
    return repr([np.asarray(x).tolist() for x in xs])


def spoil(x):
    try:
        if isinstance(x, pd.DataFrame):
            x.iloc[:, :] = 77.0
        elif isinstance(x, pd.Series):
            x.iloc[:] = 77.0
        elif isinstance(x, np.ndarray):
            x[...] = 77.0
    except Exception:  # noqa: BLE001
        pass


class Session:
    def __init__(self, rng):
        self.rng, self.o, self.evs = rng, None, []

    def new(self, mu, S, t0, nu0, form, labelsok=True):
        n = len(mu)
        im = lab(n) if form in ("pp", "pn") else None
        iS = lab(n) if form in ("pp", "np") else None
        if not labelsok:
            iS = lab(n, list(range(n))[::-1])
        m, s = vec(mu, im), mat(S, iS)
        r = call(NIWPosterior, m, s, t0, nu0)
        if r[0] == "ok":
            self.o = r[1]
            self.names = lab(n) if form != "nn" else ["none"]
            if self.rng.random() < 0.5:          # caller reuses its arrays
                spoil(m), spoil(s)
        self.evs.append({"op": "new", "mu": qv([float(x) for x in mu]), "S": qm(np.array(S, dtype=float)), "t0": q(t0), "nu0": q(nu0),
                         "labelsok": labelsok, "names": lab(n) if form != "nn" else ["none"], "out": {"k": r[0], "mro": mro(r[2])}})
        return r[0] == "ok"

    def update(self, mu, S, n, form="n", labelsok=True):
        d = len(mu)
        idx = lab(d) if form == "p" else None
        if not labelsok:
            idx = lab(d, list(range(d))[::-1])
        m, s = vec(mu, idx), mat(S, idx)
        b = snap(m, s)
        r = call(self.o.update, m, s, n)
        out = base(r)
        same = b == snap(m, s)
        if r[0] == "ok":
            p = r[1]
            nm = names_of(p.mu1)
            out.update(t=q(p.T1), nu=q(p.nu1), mu=qv(p.mu1), S=qm(p.sigma1), names=nm if nm == names_of(p.sigma1) else ["mixed"])
            spoil(m), spoil(s)
        self.evs.append({"op": "update", "mu": qv([float(x) for x in mu]), "S": qm(np.array(S, dtype=float)), "n": q(n), "labelsok": labelsok,
                         "same": same, "out": out})

    def get(self, what, p=None):
        o = self.o
        if what == "is_updated":
            r = call(lambda: o.is_updated)
        elif what.startswith("radius"):
            r = call(o.cred_radius_mu if what == "radius_mu" else o.cred_radius_sigma_factor, p)
        else:
            r = call({"mu_ce": o.get_mu_ce, "sigma_ce": o.get_sigma_ce, "S_mu": o.get_S_mu}[what])
        out = base(r)
        if r[0] == "ok":
            x = r[1]
            if what == "is_updated":
                out["flag"] = bool(x)
            elif what == "mu_ce":
                out.update(mu=qv(x), names=names_of(x))
            elif what.startswith("radius"):
                out["x"] = q(x)
            else:
                out.update(S=qm(x), names=names_of(x))
            if self.rng.random() < 0.6:
                spoil(x)
        self.evs.append({"op": "get", "what": what, "p": q(p) if p is not None else "nan", "out": out})

    def reads(self, k):
        for _ in range(k):
            w = self.rng.choice(["is_updated", "mu_ce", "sigma_ce", "S_mu", "radius_mu", "radius_sigma"])
            self.get(w, self.rng.choice([0.5, 0.75, 0.95, 0.01, 0.99, 0.3, 0.0, 1.0, -0.2, 1.3, float("nan")]) if w.startswith("radius") else None)


def bundle(rng, prior, sample, form, via):
    mu, S, t0, nu0 = prior
    m, s, n = sample
    N = len(mu)
    idx = lab(N) if form else None
    a = [vec(mu, idx), mat(S, idx), vec(m, idx), mat(s, idx)]
    b = snap(*a)
    kw = dict(prior_mu=a[0], prior_sigma=a[1], t0=t0, nu0=nu0, sample_mu=a[2], sample_sigma=a[3], n_obs=n)
    fn = {"bundle": RobustBayesPosterior.from_niw, "pair": posterior_moments_niw, "triple": posterior_moments_niw_with_uncertainty}[via]
    r = call(fn, **kw)
    out = base(r)
    nm = lab(N) if form else ["none"]
    if r[0] == "ok":
        x = r[1]
        x = (x.mu, x.sigma, x.s_mu) if via == "bundle" else x
        got = {tuple(names_of(v)) for v in x}
        out.update(mu=qv(x[0]), S=qm(x[1]), Smu=qm(x[2]) if len(x) > 2 else [], names=list(got.pop()) if len(got) == 1 else ["mixed"])
    evs = [{"op": "bundle", "prior": {"mu": qv([float(v) for v in mu]), "S": qm(np.array(S, float)), "t0": q(t0), "nu0": q(nu0)},
            "sample": {"mu": qv([float(v) for v in m]), "S": qm(np.array(s, float)), "n": q(n)}, "needsmu": via != "pair", "names": nm,
            "same": b == snap(*a), "out": out}]
    if via != "bundle" or r[0] != "ok":
        return evs
    for v in a:
        spoil(v)
    o = r[1]
    for _ in range(5):
        w = rng.choice(["log", "simple", "simple", "sigma1", "radius_mu", "radius_sigma", "wrapper"])
        h = rng.choice([1.0, 4.0, 12.0, 0.5])
        ex = rng.random() < 0.5
        p = rng.choice([0.75, 0.5, 0.9, 0.0, 1.0, 2.0])
        if w == "wrapper":
            rr = call(PortfolioWrapper.from_robust_posterior, o, annualization_factor=h)
        else:
            rr = {"log": lambda: call(o.mean_uncertainty_cov_log, annualization_factor=h),
                  "simple": lambda: call(o.mean_uncertainty_cov_simple, annualization_factor=h, exact=ex),
                  "sigma1": lambda: call(lambda: o.sigma1), "radius_mu": lambda: call(o.cred_radius_mu, p),
                  "radius_sigma": lambda: call(o.cred_radius_sigma_factor, p)}[w]()
        out = base(rr)
        if rr[0] == "ok":
            if w == "wrapper":
                d = rr[1].dist
                out.update(mu=qv(d.mu), S=qm(d.cov), Smu=qm(rr[1]._uncertainty_cov),
                           names=[str(i) for i in d.asset_names] if d.asset_names is not None else ["none"])
            elif w.startswith("radius"):
                out["x"] = q(rr[1])
            else:
                out.update(S=qm(rr[1]), names=names_of(rr[1]))
                spoil(rr[1])
        evs.append({"op": "bget", "what": w, "h": q(h), "exact": ex, "p": q(p), "out": out})
    return evs


def rmat(rng, n, dy, psd0=True):
    A = [[F(rng.randint(-4, 4), 4) for _ in range(n)] for _ in range(n)]
    S = [[sum(A[i][t] * A[j][t] for t in range(n)) for j in range(n)] for i in range(n)]
    if not dy:
        S = [[x / 2000 for x in r] for r in S]
    for i in range(n):
        S[i][i] += F(1, 2) if dy else F(1, 1000)
    return S


def check(ctx):
    rng = ctx.rng("niw")
    out = []
    recs = []
    for cfg in ("NiwMC", "NiwMC1"):
        recs += ctx.model_check("NiwMC", cfg)

    def fr(v):
        return [F(str(x)) for x in v]
    if not ctx.thorough:
        recs = rng.sample(recs, min(len(recs), 500))
    for k, r in enumerate(recs):
        pr, sm = r["prior"], r["sample"]

        def run(pr=pr, sm=sm, k=k):
            s = Session(rng)
            if s.new(fr(pr["mu"]), [fr(x) for x in pr["S"]], int(F(str(pr["t"]))), int(F(str(pr["nu"]))), ["nn", "pp", "pn", "np"][k % 4]):
                if k % 3 == 0:
                    s.reads(1)
                s.update(fr(sm["mu"]), [fr(x) for x in sm["S"]], int(F(str(sm["n"]))))
                s.reads(3)
                if k % 4 == 0:
                    s.update(fr(sm["mu"]), [fr(x) for x in sm["S"]], 1)
                    s.reads(1)
            return s.evs
        out.append(ctx.run_session(f"mc-{k}", {}, run))
    for k in range(ctx.n(150, 2500)):
        n = size(rng, [1, 2, 3, 4, 6], [11, 12])
        dy = rng.random() < 0.5
        mu = [F(rng.randint(-8, 8), 8 if dy else 300) for _ in range(n)]
        mu2 = [F(rng.randint(-8, 8), 8 if dy else 300) for _ in range(n)]
        S, S2 = rmat(rng, n, dy), rmat(rng, n, dy)
        t0, nu0, no = rng.choice([1, 2, 10, 60]), rng.choice([0, 1, 2, 10, 60]), rng.choice([1, 2, 5, 60, 1000])
        form = rng.choice(["nn", "pp", "pn", "np"])

        def run():
            s = Session(rng)
            t = k % 10
            if t == 0:                       # malformed priors
                bads = [(mu, S, 0, nu0), (mu, S, -2, nu0), (mu, S, t0, -1), (mu + [F(1)], S, t0, nu0), (mu, [r + [F(0)] for r in S], t0, nu0)]
                for bd in bads:
                    s.new(*bd, "nn")
                if n > 1:
                    s.new(mu, S, t0, nu0, "pp", labelsok=False)
                s.o = None
            if not s.new(mu, S, t0, nu0, form):
                return s.evs
            if rng.random() < 0.5:
                s.reads(2)
            if rng.random() < 0.4:           # failed updates leave the object fresh
                s.update(mu2 + [F(0)], S2, no)
                s.update(mu2, S2, 0)
                s.update(mu2, S2, -3)
                s.update(mu2, [r + [F(0)] for r in S2], no)
                if n > 1 and form != "nn":
                    s.update(mu2, S2, no, labelsok=False)
                s.reads(1)
            s.update(mu2, S2, no, "p" if form != "nn" and rng.random() < 0.5 else "n")
            s.reads(4)
            if rng.random() < 0.5:
                s.update(mu2, S2, no)
                s.reads(2)
            return s.evs
        out.append(ctx.run_session(f"rnd-{k}", {}, run))
        via = ["bundle", "bundle", "pair", "triple"][k % 4]
        small = [x / 20 for x in mu], [[x / 50 for x in r] for r in S]
        out.append(ctx.run_session(f"bun-{k}", {}, lambda: bundle(rng, (*small, t0, nu0), ([x / 20 for x in mu2], [[x / 50 for x in r] for r in S2], no), k % 3 == 0, via)))
    ctx.validate("NiwTrace", out)
    ctx.required_clauses = {"bad-prior-refused", "prior-accepted", "inputs-unchanged", "updated-only-once", "bad-sample-refused",
                            "posterior-counts", "posterior-mean", "posterior-scale", "labels", "is-updated", "unavailable-before-update",
                            "undefined-refused", "bad-level-refused", "mean-estimator", "covariance-estimator", "mean-uncertainty",
                            "credibility-radius-mean", "credibility-factor-covariance", "bundle-mean", "bundle-covariance",
                            "bundle-uncertainty", "log-uncertainty-scales-with-square-of-horizon", "simple-uncertainty",
                            "simple-uncertainty-exact", "scale-matrix", "wrapper-mean-linear", "wrapper-covariance-linear",
                            "wrapper-uncertainty-quadratic"}
    return ctx.finish(assumptions=["pseudo-counts are whole numbers, as declared"])
