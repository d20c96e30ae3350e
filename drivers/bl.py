"""Driver of the Black-Litterman property (spec/Bl.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from pyvallocation.moments import posterior_moments_black_litterman
from pyvallocation.views import BlackLittermanProcessor
from vkit import call, mro, q, qm, qv, size

NAMES = ["EM", "DM", "US", "JP", "UK", "CA", "BR", "IN", "CN", "ZA", "KR", "AU", "CH", "SE"]


def snap(o):
    def one(x):
        if isinstance(x, (pd.Series, pd.DataFrame)):
            return repr((type(x).__name__, x.to_dict(), [list(a) for a in x.axes], x.values.tolist()))
        if isinstance(x, np.ndarray):
            return repr((x.shape, x.tolist()))
        return repr(x)
    return {k: one(v) for k, v in o.items()}


def fv(x):
    return float(x)


class Prior:
    """One prior in canonical form: N assets in order, rational entries."""

    def __init__(self, rng, sigma, kind, x, tau, delta, labelled):
        self.rng, self.sigma, self.kind, self.x, self.tau, self.delta, self.lab = rng, sigma, kind, x, tau, delta, labelled
        self.n = len(x)
        self.names = rng.sample(NAMES, self.n) if labelled else list(range(self.n))

    def kwargs(self):
        n, rng = self.n, self.rng
        S = np.array([[fv(v) for v in r] for r in self.sigma])
        x = np.array([fv(v) for v in self.x])
        if self.lab:
            S = pd.DataFrame(S, index=self.names, columns=self.names)
            if rng.random() < 0.7:
                x = pd.Series(x, index=self.names)
                if rng.random() < 0.7:
                    x = x.sample(frac=1.0, random_state=rng.randrange(1000))
        form = rng.random()
        if isinstance(x, np.ndarray) and form < 0.3:
            x = x.tolist() if form < 0.15 else x.reshape(-1, 1)
        kw = {"prior_cov": S, "tau": fv(self.tau)}
        kw[{"pi": "pi", "market": "market_weights", "mean": "prior_mean"}[self.kind]] = x
        if self.kind == "market" or rng.random() < 0.3:
            kw["risk_aversion"] = fv(self.delta)
        return kw

    def record(self):
        return {"sigma": qm(np.array([[fv(v) for v in r] for r in self.sigma])), "tau": q(fv(self.tau)),
                "kind": "market" if self.kind == "market" else "pi", "delta": q(fv(self.delta)), "x": qv([fv(v) for v in self.x])}

    def key(self, i, used, alt):
        forms = [self.names[i]]
        if self.lab:
            forms += [i, str(i)]
        else:
            forms += [str(i), np.int64(i)]
        if not alt:
            return forms[0]
        return self.rng.choice(forms)


def rowof(n, v):
    r = [0] * n
    if len(v) == 1:
        r[v[0]] = 1
    else:
        r[v[0]], r[v[1]] = 1, -1
    return [str(z) for z in r]


def ask(pr, views, om, ladder="none", via=None, junk=None, alt=False):
    """views: list of (idx tuple, target); om: dict(kind, conf | m, usetau)."""
    rng, n = pr.rng, pr.n
    kw = pr.kwargs()
    keys, vd = [], {}
    for (ix, t) in views:
        for _ in range(30):
            kk = tuple(pr.key(i, vd, alt) for i in ix)
            kk = kk[0] if len(ix) == 1 else kk
            if kk not in vd:
                break
            alt = True
        else:
            return None
        keys.append(kk)
        vd[kk] = [fv(t)] if rng.random() < 0.1 else fv(t)
    absall = len(views) == n and [v[0] for v in views] == [(i,) for i in range(n)]
    if absall and rng.random() < 0.6:
        arr = np.array([fv(t) for _, t in views])
        kw["mean_views"] = arr if rng.random() < 0.5 or not pr.lab else pd.Series(arr, index=pr.names).sample(frac=1.0, random_state=rng.randrange(99))
        keys = list(pr.names)
    elif views or rng.random() < 0.5:
        kw["mean_views"] = vd
    K = len(views)
    rec = {"kind": om["kind"], "conf": [], "usetau": om.get("usetau", True), "m": []}
    if om["kind"] == "idzorek":
        cs = [fv(c) for c in om["conf"]]
        rec["conf"] = qv(cs)
        kw["omega"] = "idzorek" if rng.random() < 0.8 else "Idzorek"
        if not rec["usetau"] or rng.random() < 0.3:
            kw["idzorek_use_tau"] = rec["usetau"]
        f = rng.random()
        if K and len(set(cs)) == 1 and f < 0.4:
            kw["view_confidences"] = cs[0]
        elif f < 0.7 and len(set(keys)) == K:
            d = {k: c for k, c in zip(keys, cs)}
            for k in keys:
                if d[k] == 1.0 and rng.random() < 0.5:
                    del d[k]               # a missing confidence means full confidence
            d = dict(rng.sample(sorted(d.items(), key=repr), len(d)))
            kw["view_confidences"] = d
        else:
            kw["view_confidences"] = cs if rng.random() < 0.5 else np.array(cs)
    elif om["kind"] == "vec":
        rec["m"] = qv([fv(v) for v in om["m"]])
        kw["omega"] = np.array([fv(v) for v in om["m"]]) if rng.random() < 0.7 else [fv(v) for v in om["m"]]
    elif om["kind"] == "mat":
        M = np.array([[fv(v) for v in r] for r in om["m"]])
        rec["m"] = qm(M)
        kw["omega"] = M
    elif rng.random() < 0.3:
        kw["view_confidences"] = 0.5          # ignored without Idzorek
    via = via or rng.choice(["proc", "proc", "fn"])
    if junk:
        junk(kw)
    before = snap(kw)
    if via == "fn" and "pi" in kw:
        via = "proc"
    if via == "proc":
        r = call(lambda: BlackLittermanProcessor(**kw).get_posterior())
    else:
        fk = dict(kw)
        if not junk:
            if om["kind"] == "none":
                fk["omega"] = None
            elif om["kind"] == "idzorek" and rng.random() < 0.5:
                fk.pop("omega")                # the convenience function defaults to Idzorek
        fk.setdefault("mean_views", None)
        r = call(posterior_moments_black_litterman, **fk)
    out = {"k": r[0], "mro": mro(r[2]), "mu": [], "cov": [], "names": ["none"]}
    same = before == snap(kw)
    if r[0] == "ok":
        m, c = r[1]
        nm = [str(x) for x in m.index] if isinstance(m, pd.Series) else ["none"]
        nc = [str(x) for x in c.index] if isinstance(c, pd.DataFrame) and list(c.index) == list(c.columns) else ["none"]
        out.update(mu=qv(m), cov=qm(c), names=nm if nm == nc else ["mixed"])
        try:                                    # what we were handed is ours
            (c.iloc.__setitem__((slice(None), slice(None)), 7.0) if isinstance(c, pd.DataFrame) else c.__setitem__(Ellipsis, 7.0))
        except ValueError:
            pass
        same = same and before == snap(kw)
    return {"op": "ask", "b": pr.record(), "vs": [{"p": rowof(n, v[0]), "q": q(fv(v[1]))} for v in views], "om": rec, "ladder": ladder,
            "junk": bool(junk), "same": same, "names": [str(x) for x in pr.names] if pr.lab else ["none"], "out": out}


def rsigma(rng, n, dy):
    A = [[F(rng.randint(-4, 4), 4) for _ in range(n)] for _ in range(n)]
    S = [[sum(A[i][t] * A[j][t] for t in range(n)) + (F(1, 2) if i == j else 0) for j in range(n)] for i in range(n)]
    return S if dy else [[x / 40 for x in r] for r in S]


def rviews(rng, n, k, dy):
    vs = []
    for _ in range(k):
        ix = (rng.randrange(n),) if n == 1 or rng.random() < 0.5 else tuple(rng.sample(range(n), 2))
        vs.append((ix, F(rng.randint(-8, 8), 8 if dy else 200)))
    return vs


def check(ctx):
    rng = ctx.rng("bl")
    recs = ctx.model_check("BlMC", "BlMC")
    if ctx.thorough:
        recs += ctx.model_check("BlMC", "BlMC3", timeout=1500)
    else:
        recs = rng.sample(recs, 350)
    out = []

    def fr(v):
        return [F(str(x)) for x in v]
    for k, r in enumerate(recs):
        b = r["b"]
        pr = Prior(rng, [fr(x) for x in b["sigma"]], b["kind"] if b["kind"] == "market" else ["pi", "mean"][k % 2], fr(b["x"]), F(str(b["tau"])),
                   F(str(b["delta"])), k % 2 == 0)
        vs = []
        for v in r["vs"]:
            p = [int(F(str(z))) for z in v["p"]]
            ix = (p.index(1), p.index(-1)) if -1 in p else (p.index(1),)
            vs.append((ix, F(str(v["q"]))))
        om = {"kind": "idzorek", "conf": fr(r["confs"]), "usetau": True}
        if not vs:
            om = {"kind": "none"}

        def run():
            return [e for e in [ask(pr, vs, om), ask(pr, vs, om, alt=True)] if e]
        evs = ctx.run_session(f"mc-{k}", {}, run)
        if evs["events"]:
            out.append(evs)
    for k in range(ctx.n(450, 5000)):
        n = size(rng, [1, 2, 2, 3, 4, 5], [7, 8], 0.03)
        dy = rng.random() < 0.5
        kind = rng.choice(["pi", "mean", "market"])
        S = rsigma(rng, n, dy)
        x = [F(rng.randint(1, 9), 8) for _ in range(n)] if kind == "market" else [F(rng.randint(-8, 8), 8 if dy else 200) for _ in range(n)]
        pr = Prior(rng, S, kind, x, rng.choice([F(1, 32), F(1, 20), F(1), F(1, 4), F(2)]), rng.choice([F(1), F(5, 2), F(1, 2), F(4)]), rng.random() < 0.6)
        K = rng.choice([0, 1, 1, 2, 3, 4])
        vs = [((i,), F(rng.randint(-8, 8), 8)) for i in range(n)] if rng.random() < 0.12 else rviews(rng, n, K, dy)
        K = len(vs)
        t = rng.random()
        if t < 0.3:
            om = {"kind": "none"}
        elif t < 0.65 and K:
            om = {"kind": "idzorek", "conf": [rng.choice([F(1, 4), F(1, 2), F(3, 4), F(9, 10), F(1, 10), F(1)]) for _ in range(K)], "usetau": rng.random() < 0.6}
            if rng.random() < 0.3:
                om["conf"] = [om["conf"][0]] * K
        elif t < 0.8 and K:
            om = {"kind": "vec", "m": [F(rng.randint(1, 16), 64) for _ in range(K)]}
        elif K:
            B = [[F(rng.randint(-2, 2), 16) for _ in range(K)] for _ in range(K)]
            om = {"kind": "mat", "m": [[sum(B[i][z] * B[j][z] for z in range(K)) + (F(1, 32) if i == j else 0) for j in range(K)] for i in range(K)]}
        else:
            om = {"kind": "none"}

        def run():
            return [e for e in [ask(pr, vs, om, alt=rng.random() < 0.4) for _ in range(2)] if e]
        s = ctx.run_session(f"rnd-{k}", {}, run)
        if s["events"]:
            out.append(s)
        if k % 3 == 0 and n > 1:
            if k % 2:
                v1 = rviews(rng, n, 1, dy)
                ut = rng.random() < 0.6
                s = ctx.run_session(f"conf-{k}", {}, lambda: [ask(pr, v1, {"kind": "idzorek", "conf": [c], "usetau": ut}, ladder="conf")
                                                              for c in (F(1, 1000), F(1, 8), F(1, 2), F(7, 8), F(1))])
            else:
                vv = rviews(rng, n, 4, dy)
                ut = rng.random() < 0.6
                cs = [rng.choice([F(1, 4), F(1, 2), F(3, 4)]) for _ in vv]
                s = ctx.run_session(f"more-{k}", {}, lambda: [e for e in [
                    ask(pr, vv[:j], {"kind": "idzorek", "conf": cs[:j], "usetau": ut}, ladder="views") for j in range(1, 5)] if e])
            out.append(s)
    # inconsistent or malformed specifications
    def setk(**d):
        def f(kw):
            for a, v in d.items():
                kw.pop(a, None)
                if v is not None:
                    kw[a] = v
        return f
    mkpr = lambda kind, lab: Prior(rng, rsigma(rng, 3, True), kind, [F(1, 2), F(1, 4), F(1, 4)], F(1, 4), F(2), lab)   # noqa: E731
    bads = [setk(pi=None), setk(prior_mean=[0.1, 0.2, 0.3]), setk(market_weights=[0.5, 0.3, 0.2]), setk(pi=[0.1, 0.2]), setk(pi=[0.1, 0.2, 0.3, 0.4]),
            setk(risk_aversion=0.0), setk(risk_aversion=-1.0), setk(prior_cov=np.ones((3, 2))), setk(mean_views={"NOPE": 0.1}), setk(mean_views={7: 0.1}),
            setk(mean_views={-4: 0.1}), setk(mean_views=[0.1, 0.2]), setk(mean_views={0: (">=", 0.1)}), setk(mean_views={(0, 9): 0.1}),
            setk(mean_views={(0, 1, 2): 0.1}), setk(omega="bogus"), setk(omega="idzorek", view_confidences=None), setk(omega=[0.1]),
            setk(omega=np.eye(3)), setk(omega="idzorek", view_confidences=[0.5]), setk(omega="idzorek", view_confidences=[0.5, 0.5, 0.5]),
            setk(mean_views={0: "high"})]
    for k, bd in enumerate(bads):
        for lab in (False, True):
            pr = mkpr("pi", lab)
            out.append(ctx.run_session(f"bad-{k}-{int(lab)}", {}, lambda: [ask(pr, [((0,), F(1, 2)), ((1, 2), F(1, 4))], {"kind": "none"}, junk=bd),
                                                                           ask(pr, [((0,), F(1, 2))], {"kind": "none"})]))
    lb = ["EM", "DM", "US"]
    for k, (kind, v) in enumerate([("pi", pd.Series([0.1, 0.2, 0.3], index=["EM", "DM", "XX"])), ("mean", pd.Series([0.1, 0.2, 0.3, 0.4], index=lb + ["YY"])),
                                   ("market", pd.Series([0.5, 0.5], index=lb[:2])), ("views", pd.Series([0.1, 0.2, 0.3], index=["EM", "DM", "ZZ"])),
                                   ("cov", None)]):
        pr = mkpr(kind if kind in ("pi", "mean", "market") else "pi", True)
        pr.names = lb

        def junk(kw, kind=kind, v=v):
            if kind == "cov":
                kw["prior_cov"] = pd.DataFrame(kw["prior_cov"].values, index=lb, columns=lb[::-1])
            else:
                kw[{"pi": "pi", "mean": "prior_mean", "market": "market_weights", "views": "mean_views"}[kind]] = v
        out.append(ctx.run_session(f"mis-{k}", {}, lambda: [ask(pr, [((0,), F(1, 2))], {"kind": "none"}, junk=junk)]))
    ctx.validate("BlTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "inconsistent-refused", "posterior-mean", "posterior-covariance", "labels", "covariance-symmetric",
                            "no-views-is-the-prior", "full-confidence-meets-the-view", "confidence-moves-towards-the-view",
                            "another-view-never-adds-uncertainty"}
    return ctx.finish(assumptions=["view error covariance positive definite or derived; systems that are exactly singular are not judged"])
