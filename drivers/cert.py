"""Witnesses for spec/Optim.tla: tangent points and multipliers.

Nothing here decides anything: the specification verifies every witness, and
a poor one only weakens the bound.  The row order is that of Halfspaces /
Hyperplanes in spec/Feasible.tla."""
import numpy as np
from cvxopt import matrix, solvers
from scipy.optimize import linprog

from feasible import num
from vkit import q, qm, qv

OPT = {"show_progress": False, "abstol": 1e-13, "reltol": 1e-12, "feastol": 1e-12, "maxiters": 200}


def halfspaces(d):
    n, rows = d["n"], []

    def lower(i, lo):
        if lo != "none":
            a = np.zeros(n)
            a[i] = -1
            rows.append((a, -num(lo)))

    def box(i, lo, hi):
        lower(i, lo)
        if hi != "none":
            a = np.zeros(n)
            a[i] = 1
            rows.append((a, num(hi)))
    if d["long"]:
        for i in range(n):
            lower(i, "0")
    b = d["bounds"]
    if b["kind"] == "pair":
        for i in range(n):
            box(i, *b["e"][0])
    elif b["kind"] == "list":
        for i in range(n):
            box(i, *b["e"][i])
    elif b["kind"] == "map":
        for e in b["e"]:
            box(e[0] - 1, *e[1:])
    for i, j, k in d["rel"]:
        a = np.zeros(n)
        a[i - 1] += 1
        a[j - 1] -= 1
        rows.append((a, num(k)))
    for ms, lo, hi in d["groups"]:
        a = np.zeros(n)
        a[[m - 1 for m in ms]] = 1
        rows += [(a, num(hi)), (-a, -num(lo))]
    for r, k in d["gh"]:
        rows.append((np.array([num(x) for x in r]), num(k)))
    return rows


def hyperplanes(d):
    rows = []
    if d["total"] != "none":
        rows.append((np.ones(d["n"]), num(d["total"])))
    for r, k in d["ab"]:
        rows.append((np.array([num(x) for x in r]), num(k)))
    return rows


def mats(rows, n):
    if not rows:
        return np.zeros((0, n)), np.zeros(0)
    return np.array([r[0] for r in rows], float), np.array([r[1] for r in rows], float)


def lp(c, A, b, E, e, bounds):
    r = linprog(c, A_ub=A if len(b) else None, b_ub=b if len(b) else None, A_eq=E if len(e) else None,
                b_eq=e if len(e) else None, bounds=bounds, method="highs",
                options={"primal_feasibility_tolerance": 1e-10, "dual_feasibility_tolerance": 1e-10})
    return r


def independent(E, e):
    """Rows of E x = e with redundant ones dropped (cvxopt needs full row rank)."""
    keep = []
    for i in range(len(e)):
        if np.linalg.matrix_rank(E[keep + [i]]) == len(keep) + 1:
            keep.append(i)
    return E[keep], e[keep]


def root(S):
    w, V = np.linalg.eigh((S + S.T) / 2)
    return (V * np.sqrt(np.clip(w, 0, None))) @ V.T


class Problem:
    """d: declaration; obj: list of terms (dicts of floats/arrays)."""

    def __init__(self, d, obj, cap=None, rad=10, extra=()):
        self.d, self.obj, self.cap, self.rad, self.n = d, obj, cap, rad, d["n"]
        self.extra = list(extra)
        self.H, self.h = mats(halfspaces(d) + self.extra, self.n)
        self.E, self.e = mats(hyperplanes(d), self.n)

    # -- encoding
    def enc(self, encd):
        return {"d": encd, "obj": [enc_term(t) for t in self.obj], "rad": self.rad,
                "cap": [] if self.cap is None else [{"S": qm(self.cap[0]), "c": q(self.cap[1])}]}

    def bounded(self):
        """Is the region bounded?  (LP over the recession cone.)"""
        n = self.n
        if not len(self.h):          # nothing but equalities: no frontier is promised
            return False
        for i in range(n):
            for s in (1, -1):
                c = np.zeros(n)
                c[i] = s
                r = lp(c, self.H, np.zeros(len(self.h)), self.E, np.zeros(len(self.e)), [(-1, 1)] * n)
                if r.status != 0 or r.fun < -1e-9:
                    return False
        return True

    def room(self):
        n, m = self.n, len(self.h)
        A = np.hstack([self.H, np.ones((m, 1))])
        E = np.hstack([self.E, np.zeros((len(self.e), 1))])
        r = lp(np.r_[np.zeros(n), -1.0], A, self.h, E, self.e, [(None, None)] * n + [(None, 1)])
        if r.status != 0 or r.x[-1] < 0.002:
            return []
        if self.cap is not None and np.sqrt(r.x[:n] @ self.cap[0] @ r.x[:n]) > self.cap[1] - .003:
            u = self.least_norm()
            if u is None:
                return []
            for lam in (0.02, 0.05, 0.1, 0.2, 0.4, 0.7):
                z = (1 - lam) * u + lam * r.x[:n]
                if np.sqrt(z @ self.cap[0] @ z) < self.cap[1] - .003 and (m == 0 or (self.h - self.H @ z).min() > .0025):
                    return [float(x) for x in z]
            return []
        return [float(x) for x in r.x[:n]]

    def least_norm(self):
        p = Problem.__new__(Problem)
        p.__dict__.update(self.__dict__)
        p.obj, p.cap = [{"t": "norm", "k": 1.0, "S": self.cap[0]}], None
        return p.reference()

    def farkas(self):
        """Multipliers proving that no portfolio meets the rows, or []."""
        m, p, n = len(self.h), len(self.e), self.n
        # maximise -(h.l + e.(a-b)) - rad t ;  sum of multipliers <= 1
        c = np.r_[self.h, self.e, -self.e, self.rad]
        M = np.hstack([self.H.T, self.E.T, -self.E.T])
        A = np.vstack([np.hstack([M, -np.ones((n, 1))]), np.hstack([-M, -np.ones((n, 1))]),
                       np.r_[np.ones(m + 2 * p), 0][None, :]])
        r = lp(c, A, np.r_[np.zeros(2 * n), 1], np.zeros((0, len(c))), np.zeros(0), [(0, None)] * len(c))
        if r.status != 0 or r.fun > -1e-6:
            return []
        lam = np.clip(r.x[:m], 0, None)
        return [{"lam": qv(lam), "nu": qv(r.x[m:m + p] - r.x[m + p:m + 2 * p])}]

    # -- reference solution (only a tangent point)
    def reference(self):
        n = self.n
        kinds = {t["t"] for t in self.obj}
        E, e = independent(self.E, self.e)
        try:
            if kinds <= {"quad", "qcost", "lin"} and self.cap is None:
                P, c = np.zeros((n, n)), np.zeros(n)
                for t in self.obj:
                    if t["t"] == "quad":
                        P += t["M"] + t["M"].T
                    elif t["t"] == "qcost":
                        P += 2 * np.diag(t["l"])
                        c -= 2 * t["l"] * t["w0"]
                    else:
                        c += t["a"]
                sol = solvers.coneqp(matrix(P), matrix(c), matrix(self.H) if len(self.h) else None,
                                     matrix(self.h) if len(self.h) else None, None, matrix(E) if len(e) else None,
                                     matrix(e) if len(e) else None, options=OPT)
                return np.asarray(sol["x"]).ravel()
        except (ValueError, ArithmeticError, ZeroDivisionError):
            return None
        for tol in (1e-11, 1e-10, 1e-9, 1e-8):
            try:
                u = self._cone(E, e, dict(OPT, abstol=tol, reltol=tol, feastol=tol))
            except (ValueError, ArithmeticError, ZeroDivisionError):
                continue
            if u is not None and np.all(np.isfinite(u)):
                return u
        return None

    def _cone(self, E, e, opt):
        """conelp over (w, epigraph variables)."""
        n = self.n
        cost, nv = np.zeros(n), n
        lin, soc = [(self.H, self.h)] if len(self.h) else [], []
        blocks = []
        for t in self.obj:
            if t["t"] == "lin":
                cost = cost + t["a"]
            elif t["t"] == "norm":
                blocks.append(("norm", t["k"], root(t["S"])))
            elif t["t"] == "pcost":
                blocks.append(("pc", t["c"], t["w0"]))
            elif t["t"] == "gap":
                blocks.append(("gap", t))
        extra = sum({"norm": 1, "pc": n, "gap": 1 + n + 1}[b[0]] for b in blocks)
        N = n + extra
        c = np.r_[cost, np.zeros(extra)]
        lin = [(np.hstack([A, np.zeros((A.shape[0], extra))]), b) for A, b in lin]
        k = n
        for b in blocks:
            if b[0] == "norm":
                c[k] = b[1]
                soc.append((k, b[2]))
                k += 1
            elif b[0] == "pc":
                c[k:k + n] = b[1]
                for s in (1, -1):
                    A = np.zeros((n, N))
                    A[:, :n] = s * np.eye(n)
                    A[:, k:k + n] = -np.eye(n)
                    lin.append((A, s * b[2]))
                k += n
            else:
                t = b[1]
                c[k], c[k + 1 + n] = 1, -1
                S, lam = t["S"], t["lam"]
                soc.append((k, root(S / n + lam * np.diag(np.diag(S)))))
                A = np.zeros((n, N))
                A[:, k + 1:k + 1 + n] = -np.eye(n)      # g_i >= sqrt(n b_i) gamma
                A[:, k + 1 + n] = np.sqrt(n * t["b"])
                lin.append((A, np.zeros(n)))
                for i in range(n):                       # 4 g_i^2 + (x-z)^2 <= (x+z)^2
                    soc.append(("rot", i, S[i], k + 1 + i))
                k += n + 2
        if self.cap is not None:
            soc.append(("cap", root(self.cap[0]), self.cap[1]))
        Gs, hv, dims = [], [], {"l": 0, "q": [], "s": []}
        for A, b in lin:
            Gs.append(A)
            hv.append(b)
            dims["l"] += len(b)
        for s in soc:
            if s[0] == "rot":
                _, i, Si, g = s
                M = np.zeros((3, N))
                M[0, :n] = -Si
                M[0, i] -= 1
                M[1, g] = -2
                M[2, :n] = Si
                M[2, i] -= 1
                Gs.append(M)
                hv.append(np.zeros(3))
                dims["q"].append(3)
            else:
                M = np.zeros((n + 1, N))
                b = np.zeros(n + 1)
                if s[0] == "cap":
                    b[0] = s[2]
                else:
                    M[0, s[0]] = -1
                M[1:, :n] = -s[1]
                Gs.append(M)
                hv.append(b)
                dims["q"].append(n + 1)
        sol = solvers.conelp(matrix(c), matrix(np.vstack(Gs)), matrix(np.hstack(hv)), dims,
                             matrix(np.hstack([E, np.zeros((len(e), extra))])) if len(e) else None,
                             matrix(e) if len(e) else None, options=opt)
        return None if sol["status"] != "optimal" else np.asarray(sol["x"]).ravel()[:n]

    # -- the witness: best affine bound at tangent point u
    def witness(self, near=None):
        n = self.n
        need_u = any(t["t"] in ("quad", "qcost", "norm", "gap") for t in self.obj) or self.cap is not None
        cands = []
        if need_u:
            u = self.reference()
            if u is not None and np.all(np.isfinite(u)):
                cands += [u] + self._polish(u)
            if near is not None:
                cands.append(np.asarray(near, float))
        else:
            cands.append(np.zeros(n))
        best = None
        for u in cands:
            b = self._bound(u)
            if b is not None and (best is None or b[0] > best[0]):
                best = b
        return best

    def _polish(self, u):
        """Newton steps on the face that u seems to lie on (smooth norm objectives)."""
        if {t["t"] for t in self.obj} - {"lin", "norm", "pcost"} or (
                self.cap is not None and np.sqrt(max(u @ self.cap[0] @ u, 0)) > self.cap[1] - 1e-4):
            return []
        n, out = self.n, []
        for tol in (1e-4, 1e-6):
            rows, rhs = [self.E], [self.e]
            act = np.abs(self.H @ u - self.h) < tol if len(self.h) else []
            if len(self.h):
                rows.append(self.H[act])
                rhs.append(self.h[act])
            a0 = np.zeros(n)
            for t in self.obj:
                if t["t"] == "lin":
                    a0 = a0 + t["a"]
                elif t["t"] == "pcost":
                    at = np.abs(u - t["w0"]) < tol
                    a0 = a0 + np.where(at, 0, np.sign(u - t["w0"]) * t["c"])
                    rows.append(np.eye(n)[at])
                    rhs.append(t["w0"][at])
            F, f = np.vstack(rows), np.hstack(rhs)
            if len(f):
                U, sv, Vt = np.linalg.svd(F)
                r = int((sv > 1e-10).sum())
                Z = Vt[r:].T
                x = u + np.linalg.lstsq(F, f - F @ u, rcond=None)[0]
            else:
                Z, x = np.eye(n), u.copy()
            for _ in range(20):
                if Z.shape[1] == 0:
                    break
                g, Hs = a0.copy(), np.zeros((n, n))
                for t in self.obj:
                    if t["t"] == "norm":
                        nu = np.sqrt(max(x @ t["S"] @ x, 1e-300))
                        v = t["S"] @ x / nu
                        g = g + t["k"] * v
                        Hs += t["k"] * (t["S"] / nu - np.outer(v, v) / nu)
                step = np.linalg.lstsq(Z.T @ Hs @ Z, -Z.T @ g, rcond=1e-13)[0]
                if not np.all(np.isfinite(step)) or np.abs(step).max() > 1:
                    break
                x = x + Z @ step
            if np.all(np.isfinite(x)):
                out.append(x)
        return out

    def _bound(self, u):
        n, m, p = self.n, len(self.h), len(self.e)
        # columns: lam(m) nu(p) then per-term blocks then eta, t
        cols, obj, ub = [], [], []
        const, a0 = 0.0, np.zeros(n)

        def add(C, o, b):
            cols.append(np.asarray(C, float).reshape(n, -1))
            obj.extend(np.asarray(o, float).ravel().tolist())
            ub.extend(b)
        add(self.H.T, self.h, [(0, None)] * m)
        add(self.E.T, self.e, [(None, None)] * p)
        rowsA, rowsb, rowsE, rowse = [], [], [], []
        slots = []
        for t in self.obj:
            start = len(ub)
            if t["t"] == "lin":
                a0 = a0 + t["a"]
            elif t["t"] == "quad":
                g = t["M"] @ u
                a0 = a0 + 2 * g
                const -= u @ g
            elif t["t"] == "qcost":
                a0 = a0 + 2 * t["l"] * (u - t["w0"])
                const += float(np.sum(t["l"] * (t["w0"] ** 2 - u ** 2)))
            elif t["t"] == "cvar":
                T = len(t["p"])
                add(-t["R"].T, np.zeros(T), [(0, float(x) / t["al"]) for x in t["p"]])
                rowsE.append((start, np.ones(T)))
                rowse.append(1.0)
            elif t["t"] == "pcost":
                add(np.eye(n), t["w0"], [(-float(x), float(x)) for x in t["c"]])
            elif t["t"] == "norm":
                nu = np.sqrt(max(u @ t["S"] @ u, 0))
                if nu > 0:
                    a0 = a0 + t["k"] * (t["S"] @ u) / nu
            elif t["t"] == "gap":
                S = t["S"]
                M = S / n + t["lam"] * np.diag(np.diag(S))
                nu = np.sqrt(max(u @ M @ u, 0))
                if nu > 0:
                    a0 = a0 + (M @ u) / nu
                x, z = np.maximum(u, 1e-9), np.maximum(S @ u, 1e-12)
                k = np.sqrt(z / x)
                t["_k"] = k
                F = np.array([-(k[i] * np.eye(n)[i] + S[i] / k[i]) / (2 * np.sqrt(n * t["b"][i])) for i in range(n)]).T
                add(F, np.zeros(n), [(0, 1)] * n)
                rowsA.append((start, np.ones(n)))
                rowsb.append(1.0)
            slots.append((start, len(ub)))
        eta = len(ub)
        if self.cap is not None:
            nu = np.sqrt(max(u @ self.cap[0] @ u, 0))
            add((self.cap[0] @ u) / nu if nu > 0 else np.zeros(n), [self.cap[1]], [(0, None)])
        N = len(ub) + 1
        M = np.hstack(cols)
        A = np.vstack([np.hstack([M, -np.ones((n, 1))]), np.hstack([-M, -np.ones((n, 1))])])
        b = np.r_[-a0, a0]
        for (s, v), k in zip(rowsA, rowsb):
            r = np.zeros(N)
            r[s:s + len(v)] = v
            A, b = np.vstack([A, r]), np.r_[b, k]
        E, e = np.zeros((len(rowsE), N)), np.array(rowse)
        for i, (s, v) in enumerate(rowsE):
            E[i, s:s + len(v)] = v
        r = lp(np.r_[obj, self.rad], A, b, E, e, ub + [(0, None)])
        if r.status != 0:
            return None
        x = r.x
        ts = []
        for t, (s, f) in zip(self.obj, slots):
            w = {"u": qv(u)}
            if t["t"] == "cvar":
                y = np.clip(x[s:f], 0, t["p"] / t["al"])
                w = {"q": qv(y)}
            elif t["t"] == "pcost":
                w = {"s": qv(np.clip(x[s:f], -t["c"], t["c"]))}
            elif t["t"] == "gap":
                w.update(th=qv(np.clip(x[s:f], 0, 1)), k=qv(t["_k"]))
            ts.append(w)
        wit = {"ts": ts, "lam": qv(np.clip(x[:m], 0, None)), "nu": qv(x[m:m + p]),
               "eta": q(max(float(x[eta]), 0.0)) if self.cap is not None else "0", "cu": qv(u)}
        return const - r.fun, wit


def enc_term(t):
    o = {"t": t["t"]}
    for k, v in t.items():
        if k in ("t", "_k"):
            continue
        a = np.asarray(v)
        o[k] = qm(a) if a.ndim == 2 else qv(a) if a.ndim == 1 else q(float(v))
    return o


def value(obj, w):
    """Objective in floating point, for diagnostics only."""
    s = 0.0
    n = len(w)
    for t in obj:
        k = t["t"]
        if k == "lin":
            s += t["a"] @ w
        elif k == "quad":
            s += w @ t["M"] @ w
        elif k == "qcost":
            s += float(np.sum(t["l"] * (w - t["w0"]) ** 2))
        elif k == "pcost":
            s += float(np.sum(t["c"] * np.abs(w - t["w0"])))
        elif k == "norm":
            s += t["k"] * np.sqrt(max(w @ t["S"] @ w, 0))
        elif k == "cvar":
            x = t["R"] @ w
            o = np.argsort(x)
            left, acc = t["al"], 0.0
            for i in o:
                m = min(left, t["p"][i])
                acc += m * x[i]
                left -= m
            s -= acc / t["al"]
        elif k == "gap":
            S = t["S"]
            M = S / n + t["lam"] * np.diag(np.diag(S))
            s += np.sqrt(max(w @ M @ w, 0)) - np.sqrt(max(np.min(w * (S @ w) / (n * t["b"])), 0))
    return s
