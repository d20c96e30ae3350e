"""Driver of the chart property (spec/Charts.tla): what is on the axes after a drawing call."""
import dataclasses
from fractions import Fraction as F
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from pyvallocation import plotting as P  # noqa: E402
from pyvallocation.portfolioapi import PortfolioFrontier  # noqa: E402
from drivers.frontier import abstract, table  # noqa: E402
from vkit import call, mro, q, qm, qv  # noqa: E402


def fmt(key, value):
    return "" if value == "hide" else f"<{key}:{value}>"


def tokens(meta, keys):
    return [fmt(k, meta[k]) for k in keys if meta and k in meta and meta[k] is not None and fmt(k, meta[k])]


def show(f, keys=(), par=None):
    a = abstract(f)
    a.pop("table")
    m = len(a["ret"])
    metas = f.metadata or [None] * m
    a["meta"] = [repr(x) for x in metas]
    a["toks"] = [tokens(x, keys) for x in metas]
    vals = [(x or {}).get(par) for x in metas]
    a["par"] = [q(float(v)) if isinstance(v, (int, float)) else "nan" for v in vals]
    return a


def pct(axis):
    try:
        return "%" in axis.get_major_formatter()(0.1234, 0)
    except Exception:  # noqa: BLE001
        return False


def panel(ax, names, overs):
    lines = []
    for ln in ax.lines:
        s = str(ln.get_label())
        hit = [[n, o] for n in names for o in overs if s.startswith(n) and o in s[len(n):]]
        hit.sort(key=lambda p: (-len(p[0]), -len(p[1])))
        lines.append({"x": qv(ln.get_xdata()), "y": qv(ln.get_ydata()), "dash": ln.get_linestyle() == "--", "label": s, "over": hit[0] if hit else ["", ""]})
    pts = []
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), float).reshape(-1, 2)
        pts.append({"x": qv(off[:, 0]), "y": qv(off[:, 1]), "tokens": re.findall(r"<[^<>]*>", str(c.get_label()))})
    recs = [{"index": int(r["index"]), "frontier": str(r["frontier"]), "risk": q(r["risk"]), "ret": q(r["return"]), "w": qv(r["weights"]),
             "names": [str(i) for i in r["weights"].index], "measure": str(r["risk_measure"]), "meta": repr(r["metadata"])}
            for r in getattr(ax, "_frontier_highlights", [])]
    return {"lines": lines, "points": pts, "records": recs, "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "legend": ax.get_legend() is not None,
            "pct": [pct(ax.xaxis), pct(ax.yaxis)], "title": ax.get_title()}


def bars(ax, kind):
    """One list of {name, v} per container; names are the labels drawn at the bars."""
    ax.figure.canvas.draw()
    axis = ax.yaxis if kind == "barh" else ax.xaxis
    at = dict(zip([round(float(t), 6) for t in axis.get_ticklocs()], [t.get_text() for t in axis.get_ticklabels()]))
    out = []
    for c in ax.containers:
        g = []
        for p in c.patches:
            # the tick a bar belongs to is the nearest one
            mid = p.get_y() + p.get_height() / 2 if kind == "barh" else p.get_x() + p.get_width() / 2
            near = min(at, key=lambda t: abs(t - mid), default=None)
            g.append({"name": at.get(near, ""), "v": q(p.get_width() if kind == "barh" else p.get_height())})
        out.append(g)
    return out


EMPTY = {"k": "err", "mro": [], "panels": [], "groups": [], "pct": False, "legend": [], "x": [], "y": [], "c": [], "x2": [], "y2": [], "z": [], "trail": [], "over": [],
         "mean": [], "cloud": [], "share": [], "mesh": [], "mean2": [], "mesh2": []}


def answer(r, read):
    o = dict(EMPTY)
    if r[0] != "ok":
        o["mro"] = mro(r[2])
    else:
        try:
            o.update(read(r[1]))
            o["k"] = "ok"
        except Exception as e:  # noqa: BLE001
            o.update(k="odd", mro=mro(e))
    plt.close("all")
    return o


def mk(rng, ret, risk, alts, measure, n=None, meta=True):
    m = len(ret)
    n = n or rng.choice([1, 2, 3, 4])
    W = np.array([[rng.randint(0, 8) / 8 for _ in range(m)] for _ in range(n)])
    W[0] = np.arange(m) / 16 + 1       # columns pairwise different
    md = None
    if meta and rng.random() < 0.6:
        md = [{k: v for k, v in (("lambda", rng.randint(0, 9) / 4), ("tag", rng.choice(["a", "b", "hide"])), ("none", None), ("k", j)) if rng.random() < 0.8} for j in range(m)]
    return PortfolioFrontier(weights=W, returns=np.array(ret, float), risks=np.array(risk, float), risk_measure=measure,
                             asset_names=rng.sample(["x", "y", "z", "w"], n) if rng.random() < 0.8 else None, metadata=md,
                             alternate_risks={k: np.array(v, float) for k, v in alts.items()})


def rand(rng, measure=None, meta=True):
    m = rng.choice([1, 2, 3, 4, 6, 9])
    g = (lambda: [rng.randint(0, 6) / 4 for _ in range(m)]) if rng.random() < 0.7 else (lambda: [abs(rng.gauss(0.1, 0.05)) for _ in range(m)])
    risk = g()
    if rng.random() < 0.05:
        risk = [0.0] * m
    return mk(rng, g(), risk, {a: g() for a in rng.sample(["Alt", "CVaR (95%)"], rng.choice([0, 1, 1, 2]))}, measure or rng.choice(["Volatility", "CVaR"]), meta=meta)


KEYS = [(), ("lambda",), ("tag", "lambda"), ("none", "k"), ("missing", "tag")]
LABS = [None, "one", "two", "same", ""]


def request(rng, fs):
    marks = rng.choice([[], ["min_risk"], ["min_risk", "max_return"], ["tangency"], ["max_return", "tangency"], ["tangency", "min_risk", "max_return"], ["best"]])
    lab = rng.choice(["", "", "", "Alt", "CVaR (95%)", "CVaR", fs[0].risk_measure if fs else ""])
    return {"label": lab, "marks": marks, "rf": "none" if rng.random() < 0.15 else rng.choice([0.0, 0.25, 0.1, 1.5, -0.5]), "over": rng.choice([[], [], ["Alt"], ["Nope", "Alt"], ["Alt", "CVaR (95%)"]]),
            "dots": rng.random() < 0.5, "ylabel": rng.choice(["Expected Return", "Gain"]), "legend": rng.random() < 0.6, "pct": rng.random() < 0.5}


def options(r, keys, rng):
    kw = {"highlight": rng.choice([tuple, list, iter])(r["marks"]), "show_points": r["dots"], "legend": r["legend"]}
    if r["rf"] != "none":
        kw["risk_free_rate"] = r["rf"]
    if r["label"]:
        kw["risk_label"] = r["label"]
    if r["over"]:
        kw["overlay_risk_labels"] = r["over"]
    if r["ylabel"] != "Expected Return":
        kw["return_label"] = r["ylabel"]
    if r["pct"]:
        kw["percent_axes"] = True
    if keys:
        kw["highlight_metadata_keys"] = keys
        kw["metadata_value_formatter"] = fmt
    if rng.random() < 0.3:
        kw["marker_kwargs"] = {"min_risk": {"s": 99}}
        kw["line_kwargs"] = {"linewidth": 2}
        kw["scatter_kwargs"] = {"alpha": 0.5}
    return kw


def supply(fs, rng, labels):
    """The forms in which several frontiers can be supplied: (argument, labels argument, the labels that count)."""
    t = rng.random()
    if len(fs) == 1 and t < 0.3 and labels is None:
        return fs[0], None, []
    named = [x for x in labels or [] if x]
    if t < 0.4 and labels is not None and len(named) == len(labels) and len(set(named)) == len(named):
        return dict(zip(labels, fs)), None, labels
    return rng.choice([list, tuple])(fs), labels, [x or "" for x in labels] if labels is not None else []


def enc(r):
    return dict(r, rf=r["rf"] if r["rf"] == "none" else q(r["rf"]))


def own_labels(fs, rng):
    return [rng.choice(LABS) for _ in fs] if rng.random() < 0.6 else None


def shown_names(fs, r, ls):
    return [ls[k] if ls and ls[k] else (r["label"] or f.risk_measure) for k, f in enumerate(fs)]


def chart(fs, r, rng, keys=()):
    labels = own_labels(fs, rng)
    wrong = False
    arg, lab, counted = supply(fs, rng, labels)
    if rng.random() < 0.06:
        wrong = True
        if rng.random() < 0.5 or not fs:
            arg, lab = list(fs) + [rng.choice([None, 3, "x", {}])], None
        else:
            arg, lab = list(fs), ["a"] * (len(fs) + rng.choice([-1, 1]))
    before = [table(f) for f in fs]
    kw = options(r, keys, rng)
    given = None
    if rng.random() < 0.3:
        given = kw["ax"] = plt.subplots()[1]
    if lab is not None:
        kw["labels"] = lab
    res = call(P.plot_frontiers, arg, **kw)
    names = shown_names(fs, r, counted)

    def read(ax):
        if given is not None and ax is not given:
            raise ValueError("drawn on another axis")
        return {"panels": [panel(ax, names, r["over"])]}
    o = answer(res, read)
    return {"op": "chart", "fs": [show(f, keys) for f in fs], "r": enc(r), "labels": counted, "wrong": wrong, "same": before == [table(f) for f in fs], "out": o}


def grid(fs, r, rng, keys=()):
    labels = own_labels(fs, rng)
    arg, lab, counted = supply(fs, rng, labels)
    by = rng.choice([None, None, lambda l, f: l or "none", lambda l, f: len(f.returns), lambda l, f: "all"])
    ks = [str(f.risk_measure) if by is None else str(by(counted[k] if counted and counted[k] else None, f)) for k, f in enumerate(fs)]
    policy = rng.choice(["auto", "auto", "each", "all", "none"])
    wrong = False
    before = [table(f) for f in fs]
    kw = options(r, keys, rng)
    if policy != "auto" or rng.random() < 0.3:
        kw["legend_policy"] = policy
    if rng.random() < 0.04:
        wrong, kw["legend_policy"] = True, "sometimes"
    if by is not None:
        kw["by"] = by
    if rng.random() < 0.4:
        kw["cols"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        kw.update(sharex=True, sharey=rng.random() < 0.5)
    if lab is not None:
        kw["labels"] = lab
    # an iterator can be read once only: a grid reads it per panel
    kw["highlight"] = tuple(r["marks"])
    res = call(P.plot_frontiers_grid, arg, **kw)
    names = shown_names(fs, r, counted)
    o = answer(res, lambda v: {"panels": [panel(a, names, r["over"]) for a in v[1] if a.axison]})
    rr = enc(r)
    if policy == "none":
        rr["legend"] = False
    return {"op": "grid", "fs": [show(f, keys) for f in fs], "r": rr, "labels": counted, "keys": ks, "each": policy in ("each", "all"), "wrong": wrong,
            "same": before == [table(f) for f in fs], "out": o}


def weights(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    frame = rng.random() < 0.4
    kind = rng.choice(["barh", "barh", "bar"])
    names = rng.sample([f"N{i}" for i in range(12)], n)
    cols = [f"c{i}" for i in range(rng.choice([1, 2, 3]))] if frame else ["w"]
    W = [[rng.choice([0, 0.25, 0.5, -0.25, 0.125, rng.gauss(0, 1)]) for _ in range(n)] for _ in cols]
    x = pd.DataFrame(dict(zip(cols, W)), index=names) if frame else pd.Series(W[0], index=names)
    kw = {"kind": kind} if kind != "barh" or rng.random() < 0.5 else {}
    top, wrong, leg, pc = 1000, False, True, True
    if not frame and rng.random() < 0.5:
        top = kw["top_n"] = rng.choice([1, 2, n, n + 3])
    if rng.random() < 0.5:
        pc = kw["percent_axes"] = rng.random() < 0.5
    if frame and rng.random() < 0.5:
        leg = kw["legend"] = rng.random() < 0.5
    if frame and rng.random() < 0.4:
        kw["stacked"] = True
    arg = x
    if rng.random() < 0.08:
        wrong, arg = True, rng.choice([x.to_numpy(), list(W[0]), dict(zip(names, W[0]))])
    keep = x.copy()
    res = call(P.plot_weights, arg, **kw)

    def read(ax):
        lg = ax.get_legend()
        g = bars(ax, kind)
        if ax.get_figure() is None:
            raise ValueError("no figure")
        return {"groups": g, "pct": pct(ax.xaxis if kind == "barh" else ax.yaxis), "legend": [t.get_text() for t in lg.get_texts()] if lg is not None else []}
    o = answer(res, read)
    return {"op": "weights", "wrong": wrong, "frame": frame, "names": names, "cols": cols, "W": [qv(v) for v in W], "top": top, "legend": leg, "pct": pc,
            "same": bool(x.equals(keep)) and list(x.index) == names, "out": o}


def par_frontier(rng):
    m = rng.choice([1, 2, 3, 5, 8])
    g = (lambda: [rng.randint(0, 6) / 4 for _ in range(m)])
    f = mk(rng, g(), g(), {"Alt": g()} if rng.random() < 0.7 else {}, "Volatility", meta=False)
    t = rng.random()
    md = [{"lambda": rng.randint(0, 12) / 4, "eps": rng.choice([3, 1, 2, 0])} for _ in range(m)]
    if t < 0.12:
        md[rng.randrange(m)].pop("lambda")
    return dataclasses.replace(f, metadata=md if t < 0.8 else None)


def param(rng):
    f = par_frontier(rng)
    kind = rng.choice(["path", "path", "impact", "surface"])
    par = rng.choice(["lambda", "lambda", "eps"])
    lab = rng.choice(["", "", "Alt", "Volatility", "Nope"])
    kw = {} if par == "lambda" and rng.random() < 0.5 else {"param": par}
    if lab:
        kw["risk_label"] = lab
    over, dots = "", True
    if kind == "path":
        if rng.random() < 0.5:
            over = kw["overlay_risk_label"] = rng.choice(["Alt", "Volatility", "Nope"])
        if rng.random() < 0.5:
            dots = kw["show_points"] = rng.random() < 0.5
    if kind != "surface" and rng.random() < 0.4:
        kw["percent_axes"] = True
    before = table(f)
    if kind == "impact" and rng.random() < 0.4:
        axs = plt.subplots(1, 2)[1]
        kw["ax"] = rng.choice([axs, tuple(axs)])
    res = call({"path": P.plot_robust_path, "impact": P.plot_param_impact, "surface": P.plot_robust_surface}[kind], f, **kw)

    def read(v):
        if kind == "path":
            c = v.collections[0]
            off = np.asarray(c.get_offsets(), float).reshape(-1, 2)
            ln = [{"x": qv(x.get_xdata()), "y": qv(x.get_ydata()), "d": x.get_linestyle()} for x in v.lines]
            return {"x": qv(off[:, 0]), "y": qv(off[:, 1]), "c": qv(c.get_array()), "trail": [x for x in ln if x["d"] == "-"], "over": [x for x in ln if x["d"] == "--"]}
        if kind == "impact":
            a, b = [x.lines[0] for x in v[1]]
            if "ax" in kw and (list(v[1]) != list(kw["ax"])):
                raise ValueError("drawn on other axes")
            return {"x": qv(a.get_xdata()), "y": qv(a.get_ydata()), "x2": qv(b.get_xdata()), "y2": qv(b.get_ydata())}
        c = v.collections[0]
        x, y, z = c._offsets3d
        return {"x": qv(x), "y": qv(y), "z": qv(z), "c": qv(c.get_array())}
    o = answer(res, read)
    return {"op": "param", "kind": kind, "fs": [show(f, par=par)], "label": lab, "dots": dots, "over": over, "same": before == table(f), "out": o}


SEL = {"min_risk": ["min_risk", "minimum_risk", "MIN_RISK"], "max_return": ["max_return", "maximum_return"], "tangency": ["tangency", "max_sharpe", "sharpe"],
       "at_risk": ["risk_target", "max_return_subject_to_risk"], "at_return": ["return_target", "min_risk_subject_to_return"],
       "at_percentile": ["risk_percentile", "risk_pct", "percentile"], "closest_risk": ["risk_match", "risk_nearest"], "column": ["index", "column"]}
ARG = {"tangency": "risk_free_rate", "at_risk": "max_risk", "at_return": "min_return", "at_percentile": "percentile", "closest_risk": "target_risk", "column": "index"}


def report(rng, kind=None, label=None):
    f = rand(rng)
    m = len(f.returns)
    kind = kind or rng.choice(list(SEL) + ["given"])
    lab = label if label is not None else rng.choice(["", "", "Alt", f.risk_measure, "Nope"])
    if label is not None and label and label not in f.alternate_risks:
        f.alternate_risks[label] = np.array([rng.randint(0, 6) / 4 for _ in range(m)])
    r = {"label": lab, "marks": [], "rf": "none", "over": rng.choice([[], ["Alt"]]), "dots": True, "ylabel": "Expected Return", "legend": True, "pct": True}
    kw, x, at, W, wrong = {}, 0.0, 0, [], False
    if lab:
        kw["risk_label"] = lab
    if r["over"]:
        kw["overlay_risk_labels"] = r["over"]
    if rng.random() < 0.4:
        r["dots"] = kw["show_points"] = rng.random() < 0.5
    if rng.random() < 0.4:
        r["pct"] = kw["percent_axes"] = rng.random() < 0.5
    if kind == "given":
        W = [[rng.randint(0, 8) / 8 for _ in range(f.weights.shape[0])]]
        kw["weights"] = pd.Series(W[0], index=f.asset_names or [str(i) for i in range(f.weights.shape[0])])
    else:
        kw["selection"] = rng.choice(SEL[kind])
        if kind in ARG:
            axis = np.asarray(f.alternate_risks.get(lab, f.risks), float)
            base = float(rng.choice(list(f.returns if kind in ("at_return", "tangency") else axis)))
            x = base + rng.choice([0, 0, 0.25, -0.25])
            if kind == "at_percentile":
                x = rng.choice([0, 1, 0.5, 0.3, 40, 100])
            if kind == "column":
                at = rng.randint(1, m + (rng.random() < 0.1))
            if kind != "tangency" or rng.random() < 0.7:
                kw["selection_kwargs"] = {ARG[kind]: at - 1 if kind == "column" else x}
            else:
                x = 0.0
            if kind != "tangency" and rng.random() < 0.05:
                wrong = True
                kw["selection_kwargs"] = {}
    if rng.random() < 0.04:
        wrong, kw["selection"] = True, "bogus"
        kw.pop("weights", None)
    before = table(f)
    skw = dict(kw.get("selection_kwargs", {}))
    res = call(P.plot_frontier_report, f, **kw)
    names = shown_names([f], r, [])
    o = answer(res, lambda v: {"panels": [panel(v[1][0], names, r["over"])], "groups": bars(v[1][1], "barh")})
    ql = lab if kind not in ("max_return", "tangency") else ""
    return {"op": "report", "fs": [show(f)], "r": r, "q": {"kind": kind, "label": ql, "x": q(float(x))}, "at": at, "W": [qv(w) for w in W], "wrong": wrong,
            "same": before == table(f) and skw == kw.get("selection_kwargs", {}), "out": o}


def spd(rng, n, lo=0.02):
    A = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    V = np.linalg.qr(A)[0]
    lam = np.cumsum([lo * (0.5 + rng.random()) + 0.01 for _ in range(n)])[::-1]
    S = V @ np.diag(lam) @ V.T
    return 0.5 * (S + S.T)


def assume(rng):
    n = rng.choice([1, 2, 3, 3, 4, 6])
    mu = np.array([rng.choice([0, 0.1, -0.2, rng.gauss(0, 0.3)]) for _ in range(n)])
    S = spd(rng, n)
    U = spd(rng, n, 0.002) if rng.random() < 0.6 else None
    kw, wrong, k, ku = {}, False, 1.0, 1.0
    X = np.zeros((0, n))
    if rng.random() < 0.6:
        X = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(rng.choice([1, 4, 9]))])
        kw["scenarios"] = X
        if rng.random() < 0.15:
            kw["max_points"] = len(X)
    if rng.random() < 0.5:
        k = kw["n_std"] = rng.choice([0.5, 2.0, 3.0])
    if U is not None:
        kw["uncertainty_cov"] = U
        if rng.random() < 0.5:
            ku = kw["uncertainty_std"] = rng.choice([0.5, 2.0, 3.0])
    S0, mu0 = S, mu
    t = rng.random()
    if t < 0.03:
        wrong, S0 = True, S[:, :-1] if n > 1 else np.ones((2, 1))
    elif t < 0.06:
        wrong, mu0 = True, np.append(mu, 0.0)
    elif t < 0.09:
        wrong = True
        kw["scenarios"] = np.ones((3, n + 1))
    elif t < 0.12:
        wrong = True
        kw["scenarios"] = np.ones(n)
    keep = [repr(a.tolist()) for a in (S0, mu0, X)]
    res = call(P.plot_assumptions_3d, mu0, S0, **kw)
    lam, V = np.linalg.eigh(S)
    order = np.argsort(lam)[::-1]
    lam, V = lam[order], V[:, order].T

    def cov3(M):
        if n >= 3:
            return V[:3] @ M @ V[:3].T
        out = np.zeros((3, 3))
        out[:n, :n] = M
        return out

    def mesh(ax, M, sign_of):
        faces = np.asarray(ax.collections[0]._faces, float).reshape(-1, 3)
        pts = faces[:: max(1, len(faces) // 23)]
        means = [c for c in ax.collections[1:] if len(np.asarray(c._offsets3d[0])) == 1]
        mean = np.array([float(np.asarray(d)[0]) for d in means[-1]._offsets3d])
        C = np.linalg.pinv(cov3(M)) if n < 3 else np.linalg.inv(cov3(M))
        D = np.diag(sign_of(mean))
        return mean, [{"e": qv(p), "y": qv(D @ C @ D @ (p - mean))} for p in pts]

    def signs(cloud):
        """The signs of the drawn axes against V, a witness for the inverse only."""
        def of(mean):
            if n < 3:
                return [1, 1, 1]
            xs = [mu] + list(X)
            ps = [mean] + cloud
            out = []
            for i in range(3):
                j = max(range(len(xs)), key=lambda j: abs(V[i] @ xs[j]))
                out.append(1 if (V[i] @ xs[j]) * ps[j][i] >= 0 else -1)
            return out
        return of

    def read(v):
        axs = v[1]
        a = axs[0]
        cl = [c for c in a.collections[1:]]
        cloud = []
        if len(X):
            cloud = [np.array(p, float) for p in zip(*[np.asarray(d, float) for d in cl[0]._offsets3d])]
        of = signs(cloud)
        mean, me = mesh(a, S, of)
        share = [q(float(re.search(r"(-?[\d.]+)%", s()).group(1))) for s in (a.get_xlabel, a.get_ylabel, a.get_zlabel)]
        o = {"mean": qv(mean), "cloud": [qv(c) for c in cloud], "share": share, "mesh": me}
        if len(axs) != (1 if U is None else 2):
            raise ValueError("panels")
        if U is not None:
            m2, me2 = mesh(axs[1], U, of)
            o.update(mean2=qv(m2), mesh2=me2)
        return o
    o = answer(res, read)
    return {"op": "assume", "mu": qv(mu), "S": qm(S), "X": [qv(x) for x in X], "U": qm(U) if U is not None else [], "k": q(k), "ku": q(ku), "V": qm(V), "lam": qv(lam),
            "wrong": wrong, "same": keep == [repr(a.tolist()) for a in (S0, mu0, X)], "out": o}


def fl(v):
    return [float(F(str(x))) for x in v]


def check(ctx):
    rng = ctx.rng("charts")
    out = []
    recs = ctx.model_check("ChartMC", "ChartMC")
    if ctx.thorough:
        recs += ctx.model_check("ChartMC", "ChartMC3", workers=4, timeout=900)
    ctx.notes["model_requests"] = len(recs)
    rng.shuffle(recs)
    for k, rec in enumerate(recs[: ctx.n(400, 4000)]):
        def one(rec=rec):
            fs = [mk(rng, fl(t["ret"]), fl(t["risk"]), {a["name"]: fl(a["v"]) for a in t["alts"]}, t["measure"]) for t in rec["fs"]]
            p = rec["req"]
            r = {"label": p["label"], "marks": p["marks"], "rf": "none" if p["rf"] == "none" else float(F(str(p["rf"]))), "over": p["over"], "dots": p["dots"],
                 "ylabel": "Expected Return", "legend": bool(k % 2), "pct": False}
            return [chart(fs, r, rng) if k % 3 else grid(fs, r, rng)]
        out.append(ctx.run_session(f"mc-{k}", {}, one, timeout=60))
    for k in range(ctx.n(220, 3000)):
        def one():
            fs = [rand(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            if fs and rng.random() < 0.15:
                fs.append(fs[0])
            r = request(rng, fs)
            return [rng.choice([chart, grid])(fs, r, rng, rng.choice(KEYS))]
        out.append(ctx.run_session(f"many-{k}", {}, one, timeout=60))
    for k in range(ctx.n(120, 1500)):
        out.append(ctx.run_session(f"weights-{k}", {}, lambda: [weights(rng)], timeout=60))
    for k in range(ctx.n(120, 1500)):
        out.append(ctx.run_session(f"param-{k}", {}, lambda: [param(rng)], timeout=60))
    for kind in list(SEL):
        for lab in ("", "Alt"):
            out.append(ctx.run_session(f"report-{kind}-{lab}", {}, lambda kind=kind, lab=lab: [report(rng, kind, lab)], timeout=60))
    for k in range(ctx.n(100, 1500)):
        out.append(ctx.run_session(f"report-{k}", {}, lambda: [report(rng)], timeout=60))
    for k in range(ctx.n(50, 500)):
        out.append(ctx.run_session(f"assume-{k}", {}, lambda: [assume(rng)], timeout=60))
    ctx.validate("ChartTrace", out)
    ctx.required_clauses = {"every-frontier-drawn", "lines-at-the-stored-figures", "marks-on-the-right-portfolio", "mark-drawn-where-documented", "metadata-shown", "one-panel-per-group", "undrawable-refused", "bars-are-the-weights",
                            "impact-pairs", "surface-points", "path-coloured-by-parameter", "selection-marked-where-it-is", "projection-faithful", "covariance-ellipsoid", "uncertainty-ellipsoid", "explained-variance"}
    return ctx.finish(assumptions=["figures are read back from the drawn matplotlib objects (Agg), not from pixels", "colours, sizes and layout are not judged",
                                   "percentages on the axes of the assumptions chart are whole numbers: compared within half a point"])
