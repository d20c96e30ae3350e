"""Driver of the stress-test property (spec/Book.tla, StressMC, StressTrace)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vkit import call, mro, q, qm, qv, size
from pyvallocation import stress as st
from pyvallocation.views import at_least, at_most  # noqa: F401


def fl(m):
    return np.array([[float(x) for x in r] for r in m], dtype=float)


def vec(v):
    return np.array([float(x) for x in v], dtype=float)


NOFIG = {"ret": "nan", "sd": "nan", "var": "nan", "cvar": "nan", "ens": "nan"}


def pick(df, pre, suf):
    c = [x for x in df.columns if str(x).startswith(pre) and str(x).endswith(suf)]
    return c[0] if len(c) == 1 else None


def table(r, conf, strs):
    k, df, exc = r
    blank = {"rows": [], "index": [], "lab": "0", "stressed": False, "mro": []}
    if k == "err":
        return {"k": "err", **blank, "mro": mro(exc)}
    if not isinstance(df, pd.DataFrame):
        return {"k": "odd", **blank}
    rows = []
    has = any(str(c).endswith(strs) for c in df.columns)
    for i in range(len(df)):
        row = {}
        for side, suf in (("nom", "_nom"), ("str", strs)):
            cs = [pick(df, a, suf) for a in ("return", "stdev", "VaR", "CVaR", "ENS")]
            if any(c is None for c in cs):
                row[side] = NOFIG
                if side == "nom":
                    return {"k": "odd", **blank}
            else:
                row[side] = dict(zip(("ret", "sd", "var", "cvar", "ens"), qv([float(df[c].iloc[i]) for c in cs])))
        row["kl"] = q(float(df["KL_q_p"].iloc[i])) if "KL_q_p" in df.columns else "nan"
        rows.append(row)
    labs = {"".join(ch for ch in str(c) if ch.isdigit()) for c in df.columns if "VaR" in str(c)}
    return {"k": "ok", "rows": rows, "index": [str(x) for x in df.index], "lab": labs.pop() if len(labs) == 1 else "nan",
            "stressed": has, "mro": []}


def form_weights(W, wl, names, kind):
    """W: list of portfolios, each ordered as wl.  Returns the argument, the labels it carries, the names expected."""
    A = fl(W).T
    if kind == "frame":
        return pd.DataFrame(A, index=wl, columns=names), list(wl), list(names)
    if kind == "series":
        return pd.Series(A[:, 0], index=wl, name=names[0]), list(wl), [names[0]]
    if kind == "mapping":
        return {a: float(x) for a, x in zip(wl, A[:, 0])}, list(wl), []
    if kind == "vector":
        return A[:, 0].copy(), [], []
    if kind == "list":
        return A[:, 0].tolist(), [], []
    return A, [], []


def masses(p, form):
    if p is None:
        return None
    v = vec(p)
    return [v, v.tolist(), pd.Series(v), v.reshape(-1, 1)][form % 4]


def snap(*xs):
    out = []
    for x in xs:
        if isinstance(x, (pd.Series, pd.DataFrame)):
            out.append((repr(x.to_numpy().tolist()), repr(list(x.index)), repr(list(getattr(x, "columns", [])))))
        else:
            out.append(repr(x) if not isinstance(x, np.ndarray) else repr(x.tolist()))
    return out


def lin(m):
    """The library's own linear map for descriptor m (or None)."""
    if m is None:
        return None
    return st.linear_map(mean_shift=None if m.get("c") is None else vec(m["c"]),
                         scale=None if m.get("s") is None else float(m["s"]),
                         matrix=None if m.get("B") is None else fl(m["B"]))


def map_log(m):
    if m is None:
        return {"k": "none", "B": [], "s": [], "c": []}
    return {"k": m.get("k", "linear"), "B": [] if m.get("B") is None else qm(fl(m["B"])),
            "s": [] if m.get("s") is None else [q(float(m["s"]))], "c": [] if m.get("c") is None else qv(vec(m["c"]))}


def run_table(R, cols, W, wl, names, kind, p, Q, m, conf, demean, form, key="k", junk=False, free=False, fn=None, raw_map=None,
              named=None):
    """One call of a stress helper; Q: recipe of the stressed distribution."""
    Rf = fl(R)
    ra = pd.DataFrame(Rf, columns=cols) if cols else Rf.copy()
    if not cols and form % 3 == 0:
        ra = Rf.tolist()
    wa, labs, nm = form_weights(W, wl, names, kind)
    pa = masses(p, form)
    kw = {"confidence": float(conf), "demean": demean}
    if form % 5 == 0 and conf == F("0.95"):
        kw.pop("confidence")
    if pa is not None:
        kw["probabilities"] = pa
    ql = {"k": "none", "v": [], "hl": "1", "focus": [], "h": [], "c": "0"}
    args = []
    if Q is None:
        f = st.stress_test
    elif Q[0] == "decay":
        f = st.exp_decay_stress
        kw["half_life"] = Q[1]
        ql.update(k="decay", hl=q(float(Q[1])))
    elif Q[0] == "kernel":
        f = st.kernel_focus_stress
        foc = vec(Q[1])
        kw["focus_series"] = pd.Series(foc) if form % 2 else foc
        if Q[2] is not None:
            kw["bandwidth"] = float(Q[2])
        if Q[3] is not None:
            kw["target"] = float(Q[3])
        ql.update(k="kernel", focus=qv(foc), h=[] if Q[2] is None else [q(float(Q[2]))],
                  c=q(float(foc[-1] if Q[3] is None else Q[3])) if len(foc) else "0")
        args.append(foc)
    elif Q[0] == "posterior":
        f = st.entropy_pooling_stress
        kw["posterior_probabilities"] = masses(Q[1], form // 3)
        ql.update(k="given", v=qv(vec(Q[1])))
        args.append(kw["posterior_probabilities"])
    else:
        f = st.stress_test
        kw["stressed_probabilities"] = masses(Q[1], form // 3)
        ql.update(k="given", v=qv(vec(Q[1])))
        args.append(kw["stressed_probabilities"])
    if m is not None or raw_map is not None:
        kw["transform"] = raw_map if raw_map is not None else lin(m)
    b = snap(wa, ra, pa, *args)
    out = table(call(f, wa, ra, **kw), conf, "_stress")
    return {"op": "table", "R": qm(Rf), "cols": list(cols or []), "W": [qv(vec(w)) for w in (W if kind in ("frame", "matrix") else W[:1])],
            "wl": labs, "rows": len(W[0]), "names": nm, "p": {"k": "none", "v": []} if p is None else {"k": "given", "v": qv(vec(p))},
            "q": ql, "map": map_log(m) if raw_map is None else {"k": "odd", "B": [], "s": [], "c": []},
            "conf": q(float(conf)), "demean": bool(demean), "same": b == snap(wa, ra, pa, *args), "junk": bool(junk),
            "free": bool(free), "key": key, "out": out}


class Recorder:
    """A repricing callable that remembers what it was given and what it returned."""

    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, dy):
        v = self.fn(dy)
        self.calls.append((np.array(dy, dtype=float), np.array(v, dtype=float)))
        return v


def run_inv(inv, cols, inst, W, wl, names, kind, views, h, n, seed, conf, demean, form):
    """stress_invariants; the repriced sets are those the recorder returned."""
    X = fl(inv)
    ra = pd.DataFrame(X, columns=cols) if cols else X.copy()
    recs = []
    if inst:                        # name -> (driver index list, factor)
        spec, order = {}, []
        for nme, (ds, fac) in inst.items():
            def fn(dy, fac=fac):
                dy = np.asarray(dy)
                return fac * (dy if dy.ndim == 1 else dy.sum(axis=1))
            r = Recorder(fn)
            recs.append(r)
            spec[nme] = ([cols[d] for d in ds], r)
            order.append(nme)
        out_cols = order
        rp = spec
    else:
        r = Recorder(lambda dy: 2.0 * np.asarray(dy))
        recs, rp, out_cols = [r], r, list(cols or [])
    wa, labs, nm = form_weights(W, wl, names, kind)
    kw = {"horizon": h, "n_simulations": n, "seed": seed, "confidence": float(conf), "demean": demean}
    if views:
        kw["stress_views"] = {k: {"eq": v, "ge": at_least(v), "le": at_most(v)}[rel] for k, (rel, v) in views.items()}
    b = snap(wa, ra)
    out = table(call(st.stress_invariants, ra, wa, rp, **kw), conf, "_stressed" if views else "_stress")
    same = b == snap(wa, ra)
    ncalls = [len(r.calls) for r in recs]
    again = form % 4 != 0 or repr(table(call(st.stress_invariants, ra, wa, rp, **kw), conf, "_stressed" if views else "_stress")) == repr(out)
    for r, k in zip(recs, ncalls):
        del r.calls[k:]

    def got(i):
        if any(len(r.calls) <= i for r in recs):
            return None
        return np.column_stack([r.calls[i][1] for r in recs]) if inst else recs[0].calls[i][1]
    nom, stv = got(0), got(1) if views else None
    if nom is None:                 # never repriced: judge the refusal only
        nom = np.zeros((1, len(inst) if inst else X.shape[1]))
    if stv is None:
        stv = nom
    draw = (lambda i: recs[0].calls[i][0]) if not inst else (lambda i: np.zeros((0, 0)))
    return {"op": "inv", "R": qm(nom), "S": qm(stv), "cols": out_cols, "W": [qv(vec(w)) for w in (W if kind in ("frame", "matrix") else W[:1])],
            "wl": labs, "rows": len(W[0]), "conf": q(float(conf)), "demean": bool(demean), "stressed": bool(views), "same": same,
            "again": bool(again), "n": n,
            "inv": qm(X) if not inst and out["k"] == "ok" else [], "h": h,
            "nomdraw": qm(draw(0)) if not inst and out["k"] == "ok" else [],
            "strdraw": qm(draw(1)) if not inst and views and out["k"] == "ok" else [], "out": out}


def run_views(inv, cols, j, rel, v, h, n, seed):
    X = fl(inv)
    r = Recorder(lambda dy: np.asarray(dy))
    out = table(call(st.stress_invariants, pd.DataFrame(X, columns=cols), np.full(len(cols), 1.0 / len(cols)), r,
                     stress_views={cols[j]: {"eq": v, "ge": at_least(v), "le": at_most(v)}[rel]}, horizon=h, n_simulations=n, seed=seed),
                F("0.95"), "_stressed")
    ok = len(r.calls) == 2
    return {"op": "views", "hist": qv(X[:, j]), "range": q(float(X[:, j].max() - X[:, j].min())), "rel": rel, "view": q(float(v)), "h": h, "n": n,
            "nommean": q(float(r.calls[0][0][:, j].mean())) if ok else "nan", "strmean": q(float(r.calls[1][0][:, j].mean())) if ok else "nan",
            "out": {"k": out["k"] if ok else "odd"}}


def run_map(R, m, junk=False, args=None):
    Rf = fl(R)
    ra = Rf.copy()
    B = None if m.get("B") is None else fl(m["B"])
    c = None if m.get("c") is None else np.asarray(m["c"], dtype=float)
    b = snap(ra, B, c)

    def go():
        return st.linear_map(mean_shift=c, scale=None if m.get("s") is None else float(m["s"]), matrix=B)(ra)
    k, v, exc = call(go)
    out = {"k": "ok", "M": qm(np.asarray(v)), "mro": []} if k == "ok" else {"k": "err", "M": [], "mro": mro(exc)}
    if k == "ok" and v is ra:
        v = v.copy()
    ml = {"k": "linear", "B": [], "s": [], "c": []} if junk else map_log(m)
    sc = float(max(1, np.abs(Rf).max())) * float(max(1, 0 if B is None else np.abs(B).sum())) * float(max(1, abs(m.get("s") or 1))) + \
        float(0 if c is None or c.size == 0 else np.abs(c).max())
    return {"op": "map", "R": qm(Rf), "map": ml, "junk": junk, "same": b == snap(ra, B, c), "sc": q(sc), "out": out}


def gen_rows(rng, T, N, dy):
    if dy:
        return [[F(rng.randint(-16, 16), 16) for _ in range(N)] for _ in range(T)]
    sc = rng.choice([0.01, 0.03, 0.2])
    Rm = [[F(str(round(rng.gauss(0.001, sc), rng.choice([3, 4, 9])))) for _ in range(N)] for _ in range(T)]
    if N >= 2 and rng.random() < 0.3:                # a hedgeable pair
        f = rng.choice([1, 2, F(1, 2)])
        for r in Rm:
            r[1] = r[0] * f
    return Rm


def gen_masses(rng, T, dy, like=None):
    if dy:
        cuts = sorted(rng.randint(0, 64) for _ in range(T - 1))
        p = [F(b - a, 64) for a, b in zip([0] + cuts, cuts + [64])]
    else:
        raw = [rng.choice([0, 1, 1, 2, 5, 7]) for _ in range(T)]
        raw[rng.randrange(T)] += 1
        p = [F(x, sum(raw)) for x in raw]
    if like is not None and rng.random() < 0.8:       # stay inside the support of the nominal distribution
        p = [x if y > 0 else F(0) for x, y in zip(p, like)]
        s = sum(p)
        p = [x / s for x in p] if s else list(like)
    if rng.random() < 0.2:
        p = [x * 3 for x in p]
    return p


def check(ctx):
    rng = ctx.rng("stress")
    out = []
    recs = ctx.model_check("StressMC", "StressMC3" if ctx.thorough else "StressMC")
    pool = ["u", "v", "w", "x", "y", "a", "b", "c", "d", "e", "f", "g"]
    for k in range(0, len(recs), 4):
        part = recs[k:k + 4]

        def run(part=part, k=k):
            evs = []
            for i, r in enumerate(part):
                R = [[F(str(x)) for x in row] for row in r["Rm"]]
                w, n0, p = ([F(str(x)) for x in r[f]] for f in ("w", "nom", "p"))
                kind = ["frame", "series", "vector", "mapping", "matrix"][(i + k) % 5]
                labs = ["u", "v"]
                wl = labs if (i + k) % 2 else labs[::-1]
                ww = w if wl == labs or kind in ("vector", "matrix") else w[::-1]
                W = [ww, [F(1, 4), F(3, 4)]] if kind in ("frame", "matrix") else [ww]
                evs.append(run_table(R, labs if (i + k) % 3 else None if kind in ("vector", "matrix") else labs, W, wl, ["a", "b"][: len(W)], kind,
                                     n0, ("test", p), None, F(3, 4), False, i + k, key=f"{k}-{i}"))
            return evs
        out.append(ctx.run_session(f"mc-{k // 4}", {}, run))
    for k in range(ctx.n(330, 3300)):
        dy = rng.random() < 0.5
        T, N, M = size(rng, [1, 2, 3, 4, 6, 8, 12, 20], [60, 110], 0.03), size(rng, [1, 2, 3, 4], [11], 0.03), size(rng, [1, 1, 2, 3], [11], 0.03)
        R = gen_rows(rng, T, N, dy)
        cols = pool[:N] if rng.random() < 0.7 else None
        wl = rng.sample(pool[:N], N)
        W = [[F(rng.randint(-8, 16), 8) if dy else F(str(round(rng.uniform(-0.5, 1), 3))) for _ in range(N)] for _ in range(M)]
        if N >= 2 and rng.random() < 0.3:              # dollar-neutral hedges
            f = R[0][1] / R[0][0] if R[0][0] else F(1)
            i, j = (wl.index(pool[0]), wl.index(pool[1])) if cols else (0, 1)
            W[0] = [F(0)] * N
            W[0][i], W[0][j] = f, F(-1)
        kind = "frame" if M > 1 and rng.random() < 0.7 else "matrix" if M > 1 else rng.choice(["series", "mapping", "vector", "list", "frame", "matrix"])
        names = rng.sample(["gold", "core", "alt", "z"] + [f"m{i}" for i in range(8)], M)
        conf = F(rng.randint(1, 63), 64) if dy else rng.choice([F("0.95"), F("0.9"), F("0.99"), F("0.5"), F("0.75"), F("0.05"), F("0.975")])
        demean = rng.random() < 0.3
        p = None if rng.random() < 0.35 else gen_masses(rng, T, dy)
        f0 = rng.randrange(1000)

        def run():
            evs = []
            nomk = "same"
            for _ in range(rng.choice([2, 3, 4])):
                Q, m, free = None, None, False
                c = rng.random()
                if c < 0.15:
                    pass
                elif c < 0.3:
                    Q = ("decay", rng.choice([1, 2, 3, 5, 60, 0.5, 7.25]))
                elif c < 0.5 and T >= 3:
                    foc = [F(str(round(rng.gauss(0, 1), 2))) for _ in range(T)]
                    foc[0] += 1
                    spread = max(foc) - min(foc)
                    if spread < F(1, 2):
                        foc[0] += 2
                    Q = ("kernel", foc, None if rng.random() < 0.4 else F(rng.choice(["0.5", "1", "2.5"])),
                         None if rng.random() < 0.5 else rng.choice(foc + [F(0), F(1, 2)]))
                elif c < 0.6:
                    Q = ("posterior", gen_masses(rng, T, dy, p))
                elif c < 0.75:
                    Q = ("test", gen_masses(rng, T, dy, p))
                elif c < 0.8 and p is not None:
                    Q, free = ("test", p), True
                if (Q is None or Q[0] == "test") and rng.random() < 0.6 and not free:
                    m = {}
                    if rng.random() < 0.5:
                        m["c"] = [F(rng.randint(-8, 8), 16) for _ in range(N)]
                    if rng.random() < 0.5:
                        m["s"] = rng.choice([F(3, 2), F(2), F(1, 2), F(-1), F(0), F(1)])
                    if rng.random() < 0.4:
                        m["B"] = [[F(rng.randint(-4, 4), 4) for _ in range(N)] for _ in range(N)]
                    free = Q is None and all(m.get(z) is None for z in ("c", "B")) and m.get("s", 1) == 1
                evs.append(run_table(R, cols, W, wl, names, kind, p, Q, m, conf, demean, f0 + len(evs), key=nomk, free=free))
            return evs
        out.append(ctx.run_session(f"rnd-{k}", {}, run))
    # --- misfits ----------------------------------------------------------
    R = [[F(1, 4), F(-1, 2), F(0)], [F(-1, 4), F(1, 8), F(1, 2)], [F(1, 8), F(1, 8), F(-1, 4)]]
    cols = ["u", "v", "w"]
    W = [[F(1, 2), F(1, 4), F(1, 4)]]
    nan, inf = float("nan"), float("inf")
    third = [F(1, 4), F(1, 4), F(1, 2)]
    bads = []
    for kind in ("series", "frame", "mapping"):
        bads += [dict(wl=["u", "v", "q"], kind=kind), dict(W=[[F(1, 2)] * 2], wl=["u", "v"], kind=kind),
                 dict(W=[[F(1, 4)] * 4], wl=["u", "v", "w", "x"], kind=kind)]
    for kind in ("vector", "matrix", "list"):
        bads += [dict(W=[[F(1, 2)] * 2], kind=kind), dict(W=[[F(1, 4)] * 4], kind=kind), dict(W=[[F(1, 2)] * 2], kind=kind, cols=None)]
    for pp in ([F(1)], [F(1, 2)] * 2, [F(1, 4)] * 4, [F(-1, 4), F(1, 2), F(3, 4)], [0, 0, 0], [nan, 0.5, 0.5], [inf, 0, 0]):
        bads += [dict(p=pp), dict(Q=("test", pp)), dict(Q=("posterior", pp)), dict(p=pp, Q=("test", third)),
                 dict(p=pp, Q=("decay", 2))]
    bads += [dict(Q=("decay", x)) for x in (0, -1, nan)] + [dict(Q=("kernel", f, h, 0)) for f, h in
                                                            (([1, 2], 1), ([1, 2, 3, 4], 1), ([1, 2, 3], 0), ([1, 2, 3], -1), ([1, nan, 2], 1))]
    bads += [dict(conf=x) for x in (0.0, 1.0, -0.5, 1.5, 95.0, nan)]
    bads += [dict(m=dict(c=[F(1), F(2)])), dict(m=dict(c=[F(1)])), dict(m=dict(B=[[1, 0, 0], [0, 1, 0]])), dict(m=dict(B=[[1, 0], [0, 1]])),
             dict(m=dict(c=[F(1)]), Q=("test", third))]
    bads += [dict(raw=lambda X: X[:2]), dict(raw=lambda X: X[:, :2]), dict(raw=lambda X: X * nan), dict(raw=lambda X: X.sum(axis=1)),
             dict(raw=lambda X: X + np.array([0.0, inf, 0.0])), dict(raw=lambda X: X[:2], Q=("test", third))]
    for k, b in enumerate(bads):
        for cc in ((cols, None) if "kind" not in b else (b.get("cols", cols),)):
            out.append(ctx.run_session(f"bad-{k}-{int(cc is None)}", {}, lambda: [run_table(
                R, cc, b.get("W", W), b.get("wl", ["w", "u", "v"]), ["a"], b.get("kind", "series" if cc else "vector"), b.get("p"), b.get("Q"),
                b.get("m"), b.get("conf", F(3, 4)), False, k, raw_map=b.get("raw"))]))
    # --- linear maps ------------------------------------------------------
    for k in range(ctx.n(60, 400)):
        T, N = rng.choice([1, 2, 5]), rng.choice([1, 2, 3])
        X = gen_rows(rng, T, N, rng.random() < 0.5)
        No = rng.choice([N, N, 1, 4])
        m = {}
        if rng.random() < 0.6:
            m["B"] = [[F(rng.randint(-8, 8), 4) for _ in range(N)] for _ in range(No)]
        else:
            No = N
        if rng.random() < 0.6:
            m["s"] = rng.choice([F(3, 2), F(-2), F(0), F(1, 8), F("1.1")])
        if rng.random() < 0.6:
            m["c"] = [F(rng.randint(-8, 8), 16) for _ in range(No)]
        bad = rng.random() < 0.2
        if bad:
            m["c"] = rng.choice([[F(1)] * (No + 1), [F(1)] * (No + 2), []]) if rng.random() < 0.7 else [[F(1)] * No]
            if m["c"] and isinstance(m["c"][0], list):
                m["c"] = [[float(x) for x in m["c"][0]]]
            else:
                m["c"] = [float(x) for x in m["c"]]
        out.append(ctx.run_session(f"map-{k}", {}, lambda: [run_map(X, m, junk=bad)]))
    # --- stress at the level of the risk drivers ---------------------------
    for k in range(ctx.n(110, 600)):
        K = rng.choice([1, 2, 3])
        T = rng.choice([6, 8, 10])
        inv = [[F(rng.randint(-16, 16), 32) for _ in range(K)] for _ in range(T)]
        drv = ["s", "y", "v"][:K]
        labelled = rng.random() < 0.8
        inst = None
        if labelled and rng.random() < 0.6:
            inst = {nm: (rng.sample(range(K), rng.choice([1, 1, min(2, K)])), rng.choice([1.0, -7.0, 0.5])) for nm in rng.sample(["Stock", "Bond", "Call"], rng.choice([1, 2, 3]))}
        cs = list(inst) if inst else drv
        N = len(cs)
        wl = rng.sample(cs, N)
        M = rng.choice([1, 1, 2])
        kind = "frame" if M > 1 and labelled else "matrix" if M > 1 else rng.choice(["series", "series", "mapping", "vector"] if labelled else ["vector", "list"])
        W = [[F(rng.randint(-4, 8), 8) for _ in range(N)] for _ in range(M)]
        if rng.random() < 0.15:                      # an empty portfolio, or two equal ones
            W[rng.randrange(M)] = [F(0)] * N
        elif rng.random() < 0.1:
            W = [list(W[0]) for _ in range(M)]
        views = None
        if labelled and rng.random() < 0.75:
            j = rng.randrange(K)
            col = [float(r[j]) for r in inv]
            mid, hi, lo = sum(col) / T, max(col), min(col)
            rel = rng.choice(["eq", "ge", "le"])
            views = {drv[j]: (rel, mid + 0.4 * (hi - mid) if rel != "le" else mid + 0.4 * (lo - mid))}
        n = rng.choice([5, 20, 40])
        conf = rng.choice([F("0.95"), F("0.9"), F("0.75")])
        dm = rng.random() < 0.3
        sd = rng.randrange(10 ** 6)
        h = rng.choice([1, 1, 2])
        c = rng.random()
        if labelled and c < 0.1:
            wl = wl[:-1] + ["nope"]
        elif labelled and c < 0.15:
            W, wl = [w + [F(1, 2)] for w in W], wl + ["nope"]
        elif kind in ("vector", "list", "matrix") and c < 0.2:
            W = [w + [F(1, 2)] for w in W]
        out.append(ctx.run_session(f"inv-{k}", {}, lambda: [run_inv(
            inv, drv if labelled else None, inst, W, wl, ["a", "b"][:M], kind, views, h, n, sd, conf, dm, k)]))
    for k in range(ctx.n(24, 200)):
        K, T = rng.choice([1, 2]), rng.choice([6, 10])
        inv = [[F(rng.randint(-16, 16), 32) for _ in range(K)] for _ in range(T)]
        j = rng.randrange(K)
        inv[0][j], inv[1][j] = F(1, 2), F(-1, 2)
        col = [float(r[j]) for r in inv]
        mid = sum(col) / T
        rel = rng.choice(["eq", "ge", "le"])
        v = mid + 0.6 * ((max(col) if rel != "le" else min(col)) - mid)
        h, sd = rng.choice([1, 2, 3]), rng.randrange(10 ** 6)
        out.append(ctx.run_session(f"views-{k}", {}, lambda: [run_views(inv, ["s", "y"][:K], j, rel, v, h, 3000, sd)]))
    ctx.validate("StressTrace", out)
    figs = ("return", "volatility", "var", "cvar", "effective-scenarios")
    ctx.required_clauses = {f"{a}-{b}" for a in ("nominal", "stressed", "invariant-nominal", "invariant-stressed") for b in figs} | {
        "misfits-rejected", "inputs-unchanged", "one-row-per-portfolio", "rows-carry-the-portfolio-names", "confidence-named",
        "stressed-columns-iff-stressed", "relative-entropy", "unchanged-shows-no-change", "same-nominal-figures", "linear-map",
        "driver-moves-are-sums-of-history", "stressed-moves-are-sums-of-history", "nominal-moves-follow-history", "stressed-moves-follow-the-view", "simulated-as-many-as-asked", "same-seed-same-answer"}
    return ctx.finish(assumptions=["relative entropy is judged where the stressed distribution stays inside the support of the nominal one",
                                   "averages of simulated driver moves are judged within six standard deviations"])
