"""Driver of the entropy-pooling property (spec/Ep.tla)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd
from scipy.optimize import lsq_linear

from pyvallocation import views as V
from vkit import call, mro, q, qm, qv, size

HELP = {">=": V.at_least, "<=": V.at_most, ">": V.above, "<": V.below}


# ---- multipliers offered to the specification as a certificate -------------
def multipliers(post, base, conds):
    """Least-squares multipliers for ln(post/base); judged by Ep!Gap."""
    n = len(base)
    none = {"y": ["0"] * len(conds), "c0": "0", "ymag": "0"}
    post = np.asarray(post, float).ravel()
    if post.size != n or not np.all(np.isfinite(post)) or np.any(post <= 0) or np.any(base <= 0):
        return none
    g = np.log(post) - np.log(base)
    rows, lo, hi, mags = [np.ones(n)], [-np.inf], [np.inf], [1.0]
    for op, row, rhs in conds:
        row = np.asarray(row, float)
        mag = np.max(np.abs(row)) or 1.0
        rows.append(-row / mag)
        mags.append(mag)
        free = op == "eq" or abs(row @ post - rhs) <= 1e-4 * mag
        lo.append(-np.inf if op == "eq" else (0.0 if free else -1e-300))
        hi.append(np.inf if free else 1e-300)
    M = np.array(rows).T
    try:
        x = lsq_linear(M, g, bounds=(lo, hi), method="bvls", tol=1e-14, max_iter=2000).x
    except Exception:  # noqa: BLE001
        x = np.linalg.lstsq(M, g, rcond=None)[0]
    y = [xx / m for xx, m in zip(x[1:], mags[1:])]
    y = [0.0 if abs(v) < 1e-200 else (max(v, 0.0) if c[0] == "le" else v) for v, c in zip(y, conds)]
    ym = float(np.sum(np.abs(x[1:])))
    return {"y": qv(y) if y else [], "c0": q(x[0]), "ymag": q(ym)}


def cond_row(R, v, ref):
    """Row and right-hand side of a resolved view (for multipliers and targets only)."""
    x = R[:, v["i"]]
    mu, var = ref
    k, t = v["kind"], v["t"]
    y = R[:, v["j"]] if v.get("j") is not None else x
    if k == "mean":
        row, rhs = x, t
    elif k == "rel":
        row, rhs = x - y, t
    elif k in ("vol", "var"):
        row, rhs = x * x, (t * t if k == "vol" else t) + mu[v["i"]] ** 2
    elif k == "skew":
        m, s2 = mu[v["i"]], var[v["i"]]
        row, rhs = x ** 3, t * s2 ** 1.5 + 3 * m * s2 + m ** 3
    elif k == "corr":
        row, rhs = x * y, t * np.sqrt(var[v["i"]] * var[v["j"]]) + mu[v["i"]] * mu[v["j"]]
    else:
        row, rhs = (x <= v["lvl"]).astype(float), t
    if v["op"] in (">=", ">"):
        return "le", -row, -rhs
    return ("eq" if v["op"] == "==" else "le"), row, rhs


def moments(R, p):
    mu = R.T @ p
    return mu, np.maximum(((R - mu) ** 2).T @ p, 0.0)


STAGE = {"mean": 1, "rel": 1, "vol": 2, "var": 3, "skew": 4, "corr": 5, "quant": 6}
HIGHER = ("vol", "var", "skew", "corr")


class Chain:
    """One scenario set and prior; processors with growing view sets."""

    def __init__(self, rng, R, p, form, seq, scale=1.0):
        self.rng, self.R, self.p, self.form, self.seq = rng, np.array(R, float), p, form, seq
        S, N = self.R.shape
        if form == "str":
            self.labels = [f"a{i}" for i in range(N)]
            rng.shuffle(self.labels)
        elif form == "int":
            self.labels = [7 * i + 3 for i in range(N)]
        elif form == "mixed":                       # "1" is not the second asset
            self.labels = [str(N - 1 - i) for i in range(N)]
        else:
            self.labels = [str(i) for i in range(N)]
        self.names = [str(x) for x in self.labels]
        self.prior = np.full(S, 1.0 / S) if p is None else np.array(p, float) / np.sum(p)
        self.evs, self.last, self.conds = [], None, []

    def scen(self):
        if self.form in ("str", "int", "mixed"):
            return pd.DataFrame(self.R.copy(), columns=self.labels, index=pd.RangeIndex(5, 5 + len(self.R)))
        return self.R.copy()

    def key(self, i):
        lab = self.labels[i]
        return str(lab) if self.form == "int" and self.rng.random() < 0.4 else lab

    def spell(self, vs, rank=False):
        """Keyword arguments stating the views (list of resolved views)."""
        kw, used, ranks = {}, set(), None
        rng = self.rng
        full = {v["i"]: v["t"] for v in vs if v["kind"] == "mean" and v["op"] == "=="}
        if len(vs) and all(v["kind"] == "mean" and v["op"] == "==" for v in vs) and len(full) == len(vs) == self.R.shape[1] and rng.random() < 0.5:
            arr = [full[i] for i in range(len(full))]
            return {"mean_views": np.array(arr) if rng.random() < 0.5 else list(arr)}
        k = 0
        while k < len(vs):
            v = vs[k]
            name = {"rel": "mean", "quant": "quantile"}.get(v["kind"], v["kind"]) + "_views"
            kk = self.key(v["i"]) if v["kind"] not in ("rel", "corr") else (self.key(v["i"]), self.key(v["j"]))
            if v.get("half") == 1:
                val = V.between(v["t"], vs[k + 1]["t"]) if rng.random() < 0.7 else ("between", v["t"], vs[k + 1]["t"])
                k += 1
            elif v["op"] == "==":
                val = v["t"] if rng.random() < 0.7 else ("==", v["t"])
            else:
                val = HELP[v["op"]](v["t"]) if rng.random() < 0.6 else (v["op"], v["t"])
            if v["kind"] == "quant":
                val = (v["lvl"], val)
            kw.setdefault(name, {})[kk] = val
            k += 1
        return kw

    def ask(self, vs, tails=(), kw=None, junk=False, wit=None, exact=None, rank=None, cut_prior=None, names=None):
        rng = self.rng
        scen = self.scen()
        pv = None if self.p is None else np.array(self.p, float)
        if pv is not None and rng.random() < 0.4:
            pv = pd.Series(pv)
        elif pv is not None and rng.random() < 0.3:
            pv = pv.reshape(-1, 1)
        kw = dict(self.spell(vs) if kw is None else kw)
        if rank:
            kw["rank_mean"] = [self.labels[i] for i in rank]
        if tails:
            kw["cvar_views"] = {self.labels[t["i"]]: (t["c"], t["gamma"]) for t in tails}
        kw["sequential"] = self.seq
        before = repr((np.asarray(scen).tolist(), None if pv is None else np.asarray(pv).tolist(), kw))
        r = call(V.FlexibleViewsProcessor, scen, pv, **kw)
        same = before == repr((np.asarray(scen).tolist(), None if pv is None else np.asarray(pv).tolist(), kw))
        out = {"k": r[0] if r[0] == "ok" else "err", "mro": mro(r[2]), "q": [], "mean": [], "cov": [], "names": [], "scen": False}
        ev = {"op": "ask", "R": qm(self.R), "p": qv(self.p) if self.p is not None else [], "seq": self.seq, "names": self.names,
              "vs": [{"kind": v["kind"], "a": v.get("a", self.names[v["i"]] if v["i"] is not None else "?"),
                      "b": v.get("b", self.names[v["j"]] if v.get("j") is not None else "?"),
                      "op": v["op"], "t": q(v["t"]), "lvl": q(v.get("lvl", 0.0))} for v in vs],
              "tails": [{"a": self.names[t["i"]], "c": q(t["c"]), "gamma": q(t["gamma"])} for t in tails],
              "junk": junk, "same": same, "wit": qv(wit) if wit is not None else [], "exact": exact or [],
              "want_names": self.names if self.form in ("str", "int", "mixed") else ["none"], "cut": 0, "y": [], "c0": "0", "ymag": "0", "out": out}
        post = None
        if r[0] == "ok":
            o = r[1]
            post = np.array(o.get_posterior_probabilities(), float)
            out["q"] = qv(post)
            m, c = o.get_posterior()
            if isinstance(m, pd.Series):
                nm = [str(x) for x in m.index]
                out["names"] = nm if isinstance(c, pd.DataFrame) and [str(x) for x in c.index] == nm == [str(x) for x in c.columns] else ["mixed"]
            else:
                out["names"] = ["none"]
            out["mean"], out["cov"] = qv(m), qm(c)
            sc = o.get_scenarios()
            out["scen"] = bool(np.array_equal(np.asarray(sc, float), self.R)
                               and (list(sc.columns) == self.labels if isinstance(sc, pd.DataFrame) else self.form == "arr"))
            post = post.ravel()
            if post.size == len(self.R) and not junk:
                self.certify(ev, vs, list(tails), post)
        self.evs.append(ev)
        return post

    def certify(self, ev, vs, tails, post):
        R, p = self.R, self.prior
        if tails:
            base, cs = self.last, [] if self.seq else list(self.conds)
            t = tails[-1]
            x = R[:, t["i"]]
            best = None
            for k in range(2, len(x)):
                w = np.argsort(x, kind="stable")[:k]
                ind = np.zeros(len(x))
                ind[w] = 1.0
                tc = [("eq", ind, t["gamma"]), ("eq", ind * x, t["gamma"] * t["c"])]
                err = max(abs(ind @ post - t["gamma"]), abs((ind * x) @ post - t["gamma"] * t["c"]) / max(np.max(np.abs(ind * x)), 1e-300))
                if best is None or err < best[0]:
                    best = (err, k, tc)
            cs = best[2] + cs
            ev["cut"] = best[1]
        else:
            if self.seq and vs:
                m = max(STAGE[v["kind"]] for v in vs)
                early = [v for v in vs if STAGE[v["kind"]] < m]
                base = self.last if early else p
                ref = moments(R, base)
                use = [v for v in vs if STAGE[v["kind"]] == m]
            else:
                base, use = p, vs
                two = any(v["kind"] in ("mean", "rel") for v in vs) and any(v["kind"] in HIGHER for v in vs)
                ref = moments(R, self.last if two else p)
            cs = [cond_row(R, v, ref) for v in use]
        ev.update(multipliers(post, base, cs))
        self.conds, self.last = cs, post

    # ---- views that a known distribution meets ---------------------------
    def views_around(self, w, kinds, ref=None):
        """Random views met by the distribution w, given reference moments."""
        rng, R = self.rng, self.R
        mu, var = ref if ref is not None else moments(R, self.prior)
        N = R.shape[1]
        vs = []
        for kind in kinds:
            i = rng.randrange(N)
            j = rng.choice([x for x in range(N) if x != i]) if N > 1 else None
            if kind in ("rel", "corr") and j is None:
                continue
            if any(v["kind"] == kind and (v["i"], v.get("j")) in ((i, j), (j, i)) for v in vs if kind in ("rel", "corr")) or \
               any(v["kind"] == kind and v["i"] == i for v in vs if kind not in ("rel", "corr")):
                continue
            v = {"kind": kind, "i": i, "j": j if kind in ("rel", "corr") else None, "op": "==", "t": 0.0, "lvl": 0.0}
            x = R[:, i]
            if kind == "quant":
                srt = np.sort(x)
                v["lvl"] = float(srt[rng.randrange(len(srt) - 1)] if rng.random() < 0.6 else srt[len(srt) // 2] + 1e-4)
            _, row, _ = cond_row(R, v, (mu, var))
            val = float(row @ w)
            sc = float(np.max(np.abs(row))) * rng.choice([0.0, 0.01, 0.1])
            op = rng.choice(["==", "==", ">=", "<=", ">", "<", "between"])

            def target(z):
                if kind in ("mean", "rel", "quant"):
                    return z
                if kind == "vol":
                    return float(np.sqrt(z - mu[i] ** 2)) if z - mu[i] ** 2 > 1e-12 else None
                if kind == "var":
                    return float(z - mu[i] ** 2) if z - mu[i] ** 2 >= 0 else None
                if kind == "skew":
                    return float((z - 3 * mu[i] * var[i] - mu[i] ** 3) / var[i] ** 1.5) if var[i] > 1e-11 else None
                d = np.sqrt(var[i] * var[j])
                t = (z - mu[i] * mu[j]) / d if d > 0 else 2
                return float(t) if -1 <= t <= 1 else None
            if op == "==":
                ts = [("==", target(val))]
            elif op == "between":
                a, b = target(val - sc), target(val + sc)
                ts = [(">=", a), ("<=", b)]
                if a is not None and b is not None and a > b:
                    continue
            else:
                ts = [(op, target(val - sc if op in (">=", ">") else val + sc))]
            if any(t is None or (kind == "quant" and not 0 < t < 1) or (kind == "vol" and t <= 0) for _, t in ts):
                continue
            for n, (o, t) in enumerate(ts):
                vs.append(dict(v, op=o, t=t, half=1 if len(ts) == 2 and n == 0 else 0))
        return vs

    def stages(self, w, kinds):
        """Ask the processors of one chain; views are met by w."""
        order = sorted(kinds, key=lambda k: STAGE[k])
        vs = []
        if not self.seq:
            first = [k for k in order if k in ("mean", "rel")]
            rest = [k for k in order if k not in ("mean", "rel")]
            vs = self.views_around(w, first)
            ref = None
            if vs and any(k in HIGHER for k in rest):
                post = self.ask(vs, wit=w)
                if post is None:
                    return vs, None
                ref = moments(self.R, post)
            vs = vs + self.views_around(w, rest, ref)
            return vs, self.ask(vs, wit=w)
        post = self.prior
        for m in range(1, 7):
            ks = [k for k in order if STAGE[k] == m]
            more = self.views_around(w, ks, moments(self.R, post)) if ks else []
            if more:
                vs = vs + more
                post = self.ask(vs, wit=w)
                if post is None:
                    return vs, None
        return vs, post


def scenarios(rng, S, N, style):
    if style == "grid":
        R = np.array([[rng.randint(-8, 8) / 8 for _ in range(N)] for _ in range(S)])
    elif style == "daily":
        R = np.array([[rng.gauss(0.0004, 0.011) for _ in range(N)] for _ in range(S)])
    else:
        R = np.array([[rng.gauss(0.05, 0.4) for _ in range(N)] for _ in range(S)])
    return R


def prior(rng, S):
    t = rng.random()
    if t < 0.4:
        return None
    w = [rng.choice([1, 2, 3, 5]) if t < 0.7 else rng.random() + 0.1 for _ in range(S)]
    if t > 0.9:
        return [float(x) for x in w]            # masses, not normalised
    return [x / sum(w) for x in w]


def witness(rng, p, spread=1.0):
    w = np.array([pi * np.exp(spread * rng.uniform(-1, 1)) for pi in p])
    return w / w.sum()


def raw(rng, p, conds, method=None, junk=False, wit=None, mode=""):
    eq = [(r, b) for o, r, b in conds if o == "eq"]
    le = [(r, b) for o, r, b in conds if o == "le"]
    A = np.array([r for r, _ in eq] + [np.ones(len(p))])
    b = np.array([x for _, x in eq] + [1.0])
    G = np.array([r for r, _ in le]) if le else None
    h = np.array([x for _, x in le]) if le else None
    pp = np.array(p, float)
    if mode == "col":
        b, pp = b.reshape(-1, 1), pp.reshape(-1, 1)
        h = h.reshape(-1, 1) if h is not None else None
    if mode == "short":
        pp = pp[:-1]
    if mode == "single":
        pp = pp[:1]
    if mode == "scalar":
        pp = np.array([1.0])
    if mode == "zero":
        pp = pp.copy()
        pp[0] = 0.0
    if mode == "neg":
        pp = pp.copy()
        pp[0] = -0.1
    before = repr([None if x is None else x.tolist() for x in (pp, A, b, G, h)])
    r = call(V.entropy_pooling, pp, A, b, G, h, method)
    same = before == repr([None if x is None else x.tolist() for x in (pp, A, b, G, h)])
    cs = [(o, r_, b_) for o, r_, b_ in conds if o == "eq"] + [(o, r_, b_) for o, r_, b_ in conds if o == "le"]
    out = {"k": "ok" if r[0] == "ok" else "err", "mro": mro(r[2]), "q": qv(r[1]) if r[0] == "ok" else []}
    ev = {"op": "raw", "p": qv(pp if mode in ("zero", "neg") else np.array(p, float)), "junk": junk, "same": same, "wit": qv(wit) if wit is not None else [],
          "cs": [{"op": o, "row": qv(r_), "rhs": q(b_)} for o, r_, b_ in cs], "out": out, "y": ["0"] * len(cs), "c0": "0", "ymag": "0"}
    if r[0] == "ok" and not junk:
        pn = np.array(p, float) / np.sum(p)
        ev.update(multipliers(r[1], pn, cs))
    return ev


def raw_session(rng, k):
    S = size(rng, [2, 3, 5, 8, 16, 30], [80, 150])
    pr = prior(rng, S) or [1.0 / S] * S
    p = np.array(pr) / np.sum(pr)
    w = witness(rng, p, rng.choice([0.2, 1.0, 1.3]))
    conds = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        if len(conds) >= S - 1:
            break
        mag = rng.choice([1.0, 1.0, 0.01, 1e-4, 1e-6, 50.0])
        row = mag * (np.array([rng.randint(-4, 4) for _ in range(S)], float) if rng.random() < 0.5 else np.array([rng.gauss(0, 1) for _ in range(S)]))
        v = float(row @ w)
        o = rng.choice(["eq", "eq", "le", "le"])
        conds.append((o, row, v if o == "eq" else v + mag * rng.choice([0.0, 0.0, 0.05, 1.0])))
    t = k % 12
    if t == 0 and conds:        # nothing can meet it
        o, row, _ = conds[0]
        conds[0] = (o, row, float(np.min(row) - 0.2 * max(np.max(np.abs(row)), 1e-9)))
        return [raw(rng, pr, conds)]
    if t == 1:
        return [raw(rng, pr, conds, mode=m, junk=True) for m in ("short", "single", "scalar", "zero", "neg")] + [raw(rng, pr, conds, method="SLSQP", junk=True)]
    return [raw(rng, pr, conds, wit=w, mode=rng.choice(["", "col"]), method=rng.choice([None, None, "TNC", "L-BFGS-B"]))]


KINDS = ["mean", "mean", "rel", "vol", "var", "skew", "corr", "quant"]


def chain_session(rng, k):
    N = size(rng, [1, 2, 2, 3, 4], [7, 11])
    S = size(rng, [4, 6, 10, 16, 25], [70, 120])
    style = rng.choice(["grid", "daily", "wide"])
    R = scenarios(rng, S, N, style)
    c = Chain(rng, R, prior(rng, S), rng.choice(["str", "str", "int", "mixed", "arr"]), rng.random() < 0.45)
    w = witness(rng, c.prior, rng.choice([0.1, 0.5, 1.0]))
    kinds = rng.sample(KINDS, rng.choice([0, 1, 1, 2, 2, 3, 4]))
    if k % 7 == 0:
        kinds = ["mean"] * N
    vs, post = c.stages(w, kinds) if kinds else ([], c.ask([]))
    if kinds and not vs and not c.evs:
        c.ask([])
    return c.evs


def rank_session(rng, k):
    """Ranking views, alone and next to relative views on the same pair."""
    N, S = rng.choice([2, 3, 4]), rng.choice([6, 12, 20])
    c = Chain(rng, scenarios(rng, S, N, rng.choice(["grid", "daily", "wide"])), prior(rng, S), rng.choice(["str", "int", "arr"]), rng.random() < 0.3)
    w = witness(rng, c.prior, 0.8)
    m = c.R.T @ w
    order = sorted(range(N), key=lambda i: -m[i])
    order = order[: rng.choice([2, N])] if N > 2 else order
    vs, kw = [], None
    t = rng.random()
    if t < 0.45:                       # another view on a pair of the ranking
        a, b = order[0], order[1]
        flip = rng.random() < 0.4
        i, j = (b, a) if flip else (a, b)
        d = float(m[i] - m[j])
        o = rng.choice(["<=", ">="])
        vs.append({"kind": "rel", "i": i, "j": j, "op": o, "t": d + (0.05 if o == "<=" else -0.05) * abs(d), "lvl": 0.0})
    elif t < 0.7:
        vs.append({"kind": "mean", "i": order[0], "j": None, "op": "==", "t": float(m[order[0]]), "lvl": 0.0})
    kw = c.spell(vs)
    full = vs + [{"kind": "rel", "i": a, "j": b, "op": ">=", "t": 0.0, "lvl": 0.0} for a, b in zip(order, order[1:])]
    c.ask(full, kw=kw, rank=order, wit=w)
    return c.evs


def bad_session(rng, k):
    N, S = rng.choice([2, 3]), rng.choice([5, 8])
    c = Chain(rng, scenarios(rng, S, N, "wide"), prior(rng, S), rng.choice(["str", "int", "arr"]), rng.random() < 0.4)
    L = c.labels
    g = "zz"
    bads = [({"mean_views": {g: 0.1}}, "mean"), ({"mean_views": {(L[0], g): 0.1}}, "m"), ({"vol_views": {L[0]: -0.1}}, ""), ({"vol_views": {L[0]: 0.0}}, ""),
            ({"vol_views": {L[0]: ("<=", 0.0)}}, ""), ({"var_views": {L[0]: -0.01}}, ""), ({"corr_views": {(L[0], L[1]): 1.2}}, ""),
            ({"corr_views": {(L[0], L[1]): (">=", -1.01)}}, ""), ({"corr_views": {(L[0], g): 0.2}}, ""), ({"mean_views": {L[0]: ("between", 0.2, 0.1)}}, ""),
            ({"mean_views": {L[0]: float("nan")}}, ""), ({"mean_views": {L[0]: ("<=", float("inf"))}}, ""), ({"mean_views": [0.1] * (N + 1)}, ""),
            ({"vol_views": [0.1] * (N - 1)}, ""), ({"rank_mean": [L[0]]}, ""), ({"rank_mean": [L[0], g]}, ""),
            ({"quantile_views": {L[0]: (0.0, 0.0)}}, ""), ({"quantile_views": {L[0]: (0.0, 1.0)}}, ""), ({"quantile_views": {L[0]: (0.0, ("<=", 1.5))}}, ""),
            ({"quantile_views": {g: (0.0, 0.2)}}, ""), ({"quantile_views": {L[0]: 0.2}}, ""), ({"cvar_views": {g: (-0.1, 0.2)}}, ""), ({"skew_views": {g: 0.0}}, "")]
    for kw, _ in rng.sample(bads, 6):
        c.ask([], kw=kw, junk=True)
    for bp in rng.sample([[1.0 / S] * (S - 1), [0.0] + [1.0 / (S - 1)] * (S - 1), [-0.1] + [1.1 / (S - 1)] * (S - 1), [float("nan")] * S], 2):
        c.p = bp
        c.ask([], kw={}, junk=True)
    return c.evs


def infeasible_session(rng, k):
    """Views outside the range of the scenarios, alone or among good ones."""
    N, S = rng.choice([1, 2, 3]), rng.choice([5, 10])
    c = Chain(rng, scenarios(rng, S, N, rng.choice(["grid", "daily", "wide"])), prior(rng, S), rng.choice(["str", "arr"]), rng.random() < 0.4)
    i = rng.randrange(N)
    x = c.R[:, i]
    sp = float(np.max(np.abs(x))) or 1.0
    hi = float(np.max(x))
    t = rng.choice([0, 1, 2, 3])
    if t == 0:
        v = {"kind": "mean", "i": i, "j": None, "op": rng.choice(["==", ">="]), "t": hi + rng.choice([0.05, 0.5]) * sp, "lvl": 0.0}
    elif t == 1:
        v = {"kind": "vol", "i": i, "j": None, "op": rng.choice(["==", ">="]), "t": 1.2 * sp + 0.01 * sp, "lvl": 0.0}
    elif t == 2:
        v = {"kind": "quant", "i": i, "j": None, "op": rng.choice(["==", ">="]), "t": 0.3, "lvl": float(np.min(x)) - 0.1 * sp}
    else:
        v = {"kind": "rel", "i": i, "j": (i + 1) % N, "op": ">=", "t": 3 * sp + float(np.max(np.abs(c.R))), "lvl": 0.0} if N > 1 else \
            {"kind": "mean", "i": i, "j": None, "op": "<=", "t": float(np.min(x)) - 0.3 * sp, "lvl": 0.0}
    c.ask([v])
    return c.evs


def tail_session(rng, k):
    N, S = rng.choice([1, 2, 3]), rng.choice([8, 12, 20])
    R = scenarios(rng, S, N, rng.choice(["daily", "wide"]))
    c = Chain(rng, R, prior(rng, S), rng.choice(["str", "int", "arr"]), rng.random() < 0.4)
    w = witness(rng, c.prior, 0.5)
    vs, post = [], c.prior
    if rng.random() < 0.6:
        vs, post = c.stages(w, rng.sample(["mean", "vol", "quant", "rel"], rng.choice([1, 2])))
        if post is None:
            return c.evs
    if not c.evs or not vs:
        vs, post = [], c.ask([])
        if post is None:
            return c.evs
    tails = []
    for i in rng.sample(range(N), min(N, rng.choice([1, 1, 2]))):
        x = c.R[:, i]
        idx = np.argsort(x)
        kk = rng.randrange(2, max(3, S // 2))
        wk = w if rng.random() < 0.7 else post
        gamma = float(np.sum(wk[idx[:kk]]))
        tgt = float(np.sum((wk * x)[idx[:kk]]) / gamma)
        if rng.random() < 0.3:
            gamma = rng.choice([0.1, 0.25])
        if rng.random() < 0.3:
            tgt = tgt - rng.choice([0.05, 0.2]) * abs(tgt)
        tails.append({"i": i, "c": tgt, "gamma": gamma})
        if c.ask(vs, tails=list(tails)) is None:
            break
    return c.evs


def simulated_session(rng, k):
    """Prior given by moments: the scenarios are drawn, then pooled."""
    N = rng.choice([1, 2, 3])
    mu = np.array([rng.uniform(-0.1, 0.1) for _ in range(N)])
    A = np.array([[rng.uniform(-1, 1) for _ in range(N)] for _ in range(N)])
    cov = 0.04 * (A @ A.T + np.eye(N))
    lab = [f"a{i}" for i in range(N)]
    S = rng.choice([12, 24])
    perm = list(range(N))
    rng.shuffle(perm)
    m, cv, form = mu, cov, "arr"
    if rng.random() < 0.5:
        m, form = pd.Series(mu, index=lab), "str"
        cv = pd.DataFrame(cov, index=lab, columns=lab)
        cv = cv.iloc[perm, perm]
    seen = {}

    def draw(mm, cc, n, g):
        seen["mu"], seen["cov"] = np.array(mm), np.array(cc)
        return np.array(mm) + g.standard_normal((n, N)) @ np.linalg.cholesky(np.array(cc)).T
    fn = draw if rng.random() < 0.6 else None
    kw = {"prior_mean": m, "prior_cov": cv, "num_scenarios": S, "random_state": k, "distribution_fn": fn}
    evs = []
    r0 = call(V.FlexibleViewsProcessor, **kw)
    r1 = call(V.FlexibleViewsProcessor, **kw)
    if r0[0] != "ok" or r1[0] != "ok":
        return [{"op": "sim", "k": "err", "again": False, "args": False, "shape": False, "order": []}]
    R = np.asarray(r0[1].get_scenarios(), float)
    evs.append({"op": "sim", "k": "ok", "again": bool(np.array_equal(R, np.asarray(r1[1].get_scenarios(), float))), "shape": R.shape == (S, N),
                "args": fn is None or bool(np.allclose(seen["mu"], mu, atol=1e-15) and np.allclose(seen["cov"], cov, atol=2e-6))})
    # a labelled, reordered covariance describes the same prior
    kw2 = dict(kw, prior_cov=cov if form == "arr" else pd.DataFrame(cov, index=lab, columns=lab))
    r2 = call(V.FlexibleViewsProcessor, **kw2)
    evs[-1]["order"] = [qv(R), qv(np.asarray(r2[1].get_scenarios(), float)) if r2[0] == "ok" else []]
    evs[-1]["perm"] = form == "str"
    return evs


def check(ctx):
    rng = ctx.rng("ep")
    out = []
    recs = ctx.model_check("EpMC", "EpMC") + ctx.model_check("EpMC", "EpMC2")
    if ctx.thorough:
        recs += ctx.model_check("EpMC", "EpMC3", timeout=900)
    recs = recs if ctx.thorough else rng.sample(recs, min(len(recs), 260))
    fl = lambda v: [float(F(str(x))) for x in v]     # noqa: E731
    for k, r in enumerate(recs):
        def run(r=r, k=k):
            evs = []
            for st in r["log"]:
                e = [int(x) for x in st["e"]]
                # an asset whose return is low exactly on the event, and a decoy
                R = [[(-0.1 if on else 0.1) if k % 2 else float(on), 0.05 * j] for j, on in enumerate(e)]
                c = Chain(rng, R, fl(st["from"]), ["str", "arr", "int"][k % 3], bool(k % 5 == 0))
                c.ask([{"kind": "quant" if k % 2 else "mean", "i": 0, "j": None, "op": st["op"], "t": float(F(str(st["t"]))), "lvl": 0.0}],
                      exact=[str(x) for x in st["to"]])
                evs += c.evs
            return evs
        out.append(ctx.run_session(f"mc-{k}", {}, run))
    for name, fn, nq, nt in (("raw", raw_session, 150, 2500), ("chain", chain_session, 260, 5000), ("rank", rank_session, 40, 800),
                             ("bad", bad_session, 20, 200), ("inf", infeasible_session, 40, 600), ("tail", tail_session, 80, 900),
                             ("sim", simulated_session, 12, 120)):
        for k in range(ctx.n(nq, nt)):
            out.append(ctx.run_session(f"{name}-{k}", {}, lambda fn=fn, k=k: fn(rng, k)))
    ctx.validate("EpTrace", out)
    ctx.required_clauses = {"inputs-unchanged", "bad-input-refused", "raw-probability-vector", "raw-views-met", "raw-least-relative-entropy",
                            "raw-no-farther-than-witness", "probability-vector", "views-met", "least-relative-entropy", "no-farther-than-witness",
                            "bad-view-refused", "chain", "tail-view-met", "tail-least-relative-entropy", "no-views-is-the-prior",
                            "posterior-mean", "posterior-covariance", "labels", "scenarios", "closed-form", "refusal-is-an-error",
                            "simulated-again", "simulated-from-the-prior"}
    return ctx.finish(assumptions=["strict operators are taken as weak ones", "views are keyed by asset name",
                                   "volatility, variance, skew and correlation views hold the lower moments at their reference values, as documented"])
