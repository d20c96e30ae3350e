"""Shared machinery of the checks: TLC runner, log encoding, verdict collection.

A check is: (1) TLC explores the model exhaustively within small constants and
emits behaviours; (2) a driver replays them (and seeded random ones) against
the real library and records every result exactly; (3) TLC validates the
recorded sessions against the specification.  All judgement is in the TLA+
modules; Python only marshals values.
"""
from __future__ import annotations

import concurrent.futures as cf
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(RuntimeError):
    """The check itself failed: exit 2, never a verdict."""


# --------------------------------------------------------------------------
# encoding of values for the log
# --------------------------------------------------------------------------
def q(x) -> str:
    """Exact rational encoding of a number (see spec/Rat.tla)."""
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
    else:
        try:
            f = float(x)
        except Exception:
            return "nan"
        if math.isnan(f):
            return "nan"
        if math.isinf(f):
            return "inf" if f > 0 else "-inf"
        n, d = f.as_integer_ratio()
    if d == 1:
        return str(n)
    return f"{n}/{d}"


def qv(v):
    """Encode a vector (any iterable of numbers)."""
    import numpy as np

    return [q(x) for x in np.asarray(v, dtype=float).ravel().tolist()]


def qm(m):
    """Encode a matrix row by row; a non-2D object becomes an empty matrix."""
    import numpy as np

    a = np.asarray(m, dtype=float)
    if a.ndim != 2:
        return []
    return [[q(x) for x in row] for row in a.tolist()]


def size(rng, small, big, p=0.04):
    """A size, now and then a big one: faults may wait for many assets, scenarios or columns."""
    return rng.choice(big) if rng.random() < p else rng.choice(small)


def labels_of(x):
    """Labels of a pandas object as strings, [] when unlabelled."""
    import pandas as pd

    if isinstance(x, pd.Series):
        return [str(i) for i in x.index]
    if isinstance(x, pd.DataFrame):
        return [str(i) for i in x.index]
    return []


def cols_of(x):
    import pandas as pd

    return [str(i) for i in x.columns] if isinstance(x, pd.DataFrame) else []


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class Ctx:
    """One run of one check."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.trace_states = 0
        self.mc_runs = []
        self.sessions = 0
        self.events = 0
        self.clause_ok = {}
        self.bad = []          # (session, event index, [clauses])
        self.notes = {}
        self.samples = []
        self.required_clauses = set()
        self.build = build_overrides(self.tmp)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=""):
        import random

        return random.Random(f"{self.seed}/{self.prop}/{salt}")

    # ---- model checking ------------------------------------------------
    def model_check(self, module, cfg=None, emits=True, workers=1, env=None, timeout=600, coverage=True):
        """Run TLC exhaustively on spec/<module>.tla; return emitted records.

        A violated invariant of the *model* is a machinery error (the model is
        committed and does not depend on /repo)."""
        cfg = cfg or module
        out = os.path.join(self.tmp, f"{cfg}.emit")
        md = tempfile.mkdtemp(dir=self.tmp)
        e = dict(env or {}, VEMIT=out)
        args = ["-config", os.path.join(SPEC, cfg + ".cfg"), "-workers", str(workers)]
        if coverage:
            args += ["-coverage", "1"]
        rc, txt = run_tlc(self.build, module, args, md, e, timeout)
        shutil.rmtree(md, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
        if rc != 0 or not m or int(m.group(3)) != 0:
            raise MachineryError(f"TLC on model {cfg} failed (rc={rc}):\n{txt[-4000:]}")
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        # vacuity: every action of the model must have been taken
        acts = {}
        for am in re.finditer(r"^<(\w+) line (\d+), col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", txt, re.M):
            key = f"{am.group(1)}@{am.group(2)}"
            acts[key] = int(am.group(5))
        dead = [k for k, v in acts.items() if v == 0 and not k.startswith("Init@")]
        if dead:
            raise MachineryError(f"model {cfg}: actions never taken: {dead}")
        self.mc_runs.append({"config": cfg, "states": int(m.group(2)), "transitions": int(m.group(1)),
                             "actions": acts})
        if not emits:
            return []
        seen, recs = set(), []
        if os.path.exists(out):
            with open(out) as fh:
                for line in fh:
                    line = line.strip()
                    if not line or line in seen:
                        continue
                    seen.add(line)
            for line in sorted(seen):
                recs.append(_jl(line))
            os.unlink(out)
        if not recs:
            raise MachineryError(f"model {cfg} emitted no behaviour")
        return recs

    # ---- running sessions against the implementation ---------------------
    def run_session(self, sid, init, fn, timeout=60):
        """fn() -> list of events.  Any escape from fn is itself an event."""
        def onalarm(*_):
            raise TimeoutError("session timeout")

        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(timeout)
        try:
            events = fn()
        except TimeoutError as exc:
            events = [{"op": "escape", "what": "timeout", "msg": str(exc)[:200]}]
        except MachineryError:
            raise
        except BaseException as exc:  # noqa: BLE001
            if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                raise
            import traceback

            tb = traceback.extract_tb(exc.__traceback__)[-1]
            events = [{"op": "escape", "what": type(exc).__name__,
                       "msg": (str(exc)[:200] + f" @{os.path.basename(tb.filename)}:{tb.lineno}")}]
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return {"id": sid, "init": init, "events": events}

    # ---- trace validation --------------------------------------------------
    def validate(self, module, sessions, shards=None, timeout=700):
        """Validate recorded sessions with spec/<module>.tla; collect verdicts."""
        if not sessions:
            raise MachineryError(f"{module}: no session recorded")
        ids = [s["id"] for s in sessions]
        if len(set(ids)) != len(ids):
            raise MachineryError(f"{module}: duplicate session ids")
        judged, esc = [], []
        for s in sessions:
            if any(e.get("op") == "escape" for e in s["events"]):
                esc.append(s)
            else:
                judged.append(s)
        for s in esc:
            k = next(i for i, e in enumerate(s["events"]) if e.get("op") == "escape")
            self.bad.append((s, k, ["escape:" + s["events"][k]["what"]]))
        self.sessions += len(sessions)
        self.events += sum(len(s["events"]) for s in sessions)
        nsh = shards or max(1, min(8, len(judged) // 40))
        parts = [judged[i::nsh] for i in range(nsh)]
        with cf.ThreadPoolExecutor(nsh) as ex:
            for res in ex.map(lambda p: self._validate_part(module, p, timeout), [p for p in parts if p]):
                for s, k, bad in res:
                    self.bad.append((s, k, bad))
        for s in sessions[: 2]:
            if len(self.samples) < 6:
                self.samples.append(_trim(s))

    def _validate_part(self, module, part, timeout):
        res, remaining = [], list(part)
        crashes = 0
        while remaining:
            d = tempfile.mkdtemp(dir=self.tmp)
            log, out, cfg = (os.path.join(d, f) for f in ("log", "out", "t.cfg"))
            with open(log, "w") as fh:
                for s in remaining:
                    fh.write(json.dumps({"id": s["id"], "init": s["init"], "events": s["events"]}) + "\n")
            with open(cfg, "w") as fh:
                fh.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                         "Start <- TStart\nJudge <- TJudge\nAdvance <- TAdvance\n")
            rc, txt = run_tlc(self.build, module, ["-config", cfg, "-workers", "1"], os.path.join(d, "md"),
                              {"VTRACE": log, "VOUT": out}, timeout)
            lines = []
            if os.path.exists(out):
                with open(out) as fh:
                    lines = [_jl(x) for x in fh if x.strip()]
            byid = {}
            for ln in lines:
                # on an evaluation error TLC replays the trace and reports again
                got = byid.setdefault(ln["id"], [])
                if all(g["e"] != ln["e"] for g in got):
                    got.append(ln)
            m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
            if m:
                self.trace_states += int(m.group(2))
            nxt = []
            finished = rc == 0 and "Model checking completed. No error" in txt
            crash = None
            for s in remaining:
                got = byid.get(s["id"], [])
                bad = [g for g in got if g["bad"]]
                for g in got:
                    for c in g["ok"]:
                        self.clause_ok[c] = self.clause_ok.get(c, 0) + 1
                if bad:
                    res.append((s, bad[0]["e"] - 1, sorted(bad[0]["bad"])))
                elif len(got) == len(s["events"]):
                    pass
                elif finished:
                    raise MachineryError(f"{module}: session {s['id']} judged {len(got)}/{len(s['events'])} events")
                elif crash is None:
                    crash = (s, len(got))
                else:
                    nxt.append(s)
            if crash is not None:
                if not re.search(r"Attempted to|evaluat|The exception was|was not in the domain|not enumerable|"
                                 r"out of bounds|illegal", txt) or "OutOfMemory" in txt:
                    raise MachineryError(f"{module}: TLC failed rc={rc}\n{txt[-3000:]}")
                crashes += 1
                if os.environ.get("VDEBUG"):
                    sys.stderr.write(txt[-3000:])
                # the specification cannot even interpret what the code returned
                res.append((crash[0], crash[1], ["uninterpretable-result"]))
                if crashes > 3:
                    break
            shutil.rmtree(d, ignore_errors=True)
            remaining = nxt
        return res

    # ---- verdict -----------------------------------------------------------
    def finish(self, level="model_checking", assumptions=(), extra=None):
        known = load_known(self.prop)
        violations, known_hits = [], {}
        for s, k, clauses in self.bad:
            key = None
            for kid in known:
                if kid == s["id"] or kid == s.get("known"):
                    key = kid
            if key is not None and set(clauses) <= set(known[key]["clauses"]):
                known_hits[key] = known[key]
            else:
                violations.append((s, k, clauses))
        missing = sorted(c for c in self.required_clauses if self.clause_ok.get(c, 0) == 0)
        if missing and not violations:
            raise MachineryError(f"vacuous: clauses never exercised: {missing}")
        cov = {
            "states": self.states + self.trace_states,
            "transitions": self.transitions + self.events,
            "model_states": self.states,
            "model_transitions": self.transitions,
            "models": self.mc_runs,
            "traces_validated_against_impl": self.sessions,
            "trace_events": self.events,
            "clauses_exercised": dict(sorted(self.clause_ok.items())),
            "samples": self.samples or ["none"],
        }
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for kid, k in sorted(known_hits.items()):
            print(f"KNOWN-FINDING: property={self.prop} {kid}: {k['what']}")
        rc = 0
        if violations:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            for n, (s, k, clauses) in enumerate(violations[: int(os.environ.get("VSHOW", "5"))]):
                path = os.path.join(rdir, f"{self.prop}-{n}.json")
                with open(path, "w") as fh:
                    json.dump({"property": self.prop, "session": s["id"], "event": k, "clauses": clauses,
                               "init": s["init"], "events": s["events"][: k + 1]}, fh, indent=1)
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  session {s['id']} event {k} rejected by {clauses}")
            if len(violations) > 5:
                print(f"  ... {len(violations)} rejected sessions in total")
            rc = 1
        print(f"{self.prop} {self.tier}: models {self.states} states / {self.transitions} transitions, "
              f"{self.sessions} sessions ({self.events} events) validated, {len(violations)} violations, "
              f"{ev['wall_s']} s")
        return rc

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def _trim(o, depth=0):
    if isinstance(o, dict):
        return {k: _trim(v, depth + 1) for k, v in list(o.items())[:14]}
    if isinstance(o, list):
        return [_trim(v, depth + 1) for v in o[:8]]
    return o if not isinstance(o, str) else o[:60]


def build_overrides(tmp):
    """Compile the TLC module override into the run's own scratch directory."""
    out = os.path.join(tmp, "java")
    os.makedirs(out)
    src = os.path.join(VERIF, "java", "vrat")
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA_CP, "-d", out] + [os.path.join(src, f) for f in sorted(os.listdir(src))],
                       capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr[-2000:])
    return out


def run_tlc(build, module, args, metadir, env, timeout):
    e = dict(os.environ)
    e.update(env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    tmpd = tempfile.mkdtemp(dir=os.path.dirname(metadir) if os.path.isdir(os.path.dirname(metadir)) else None)
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", f"-Djava.io.tmpdir={tmpd}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vrat.RatOverrides",
           "-cp", f"{build}:{TLA_CP}", "tlc2.TLC", "-metadir", metadir, "-noGenerateSpecTE"] + args + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timeout on {module}") from exc
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def load_known(prop):
    """known_findings.txt: `finding: property=<id> case=<session id> clauses=a,b <what fails>`."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) clauses=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = {"clauses": m.group(3).split(","), "what": m.group(4).strip()}
    return out


def call(fn, *a, **k):
    """Call the implementation; ("ok", value) or ("err", exception class name, exception).

    The exception classes a user can rely on are logged by name."""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn(*a, **k), None
        except (TimeoutError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as exc:  # noqa: BLE001
            return "err", None, exc


def mro(exc):
    """Names of the exception's classes (so the spec can say 'is a ValueError')."""
    return [c.__name__ for c in type(exc).__mro__] if exc is not None else []


def _jl(line):
    x = json.loads(line)
    return json.loads(x) if isinstance(x, str) else x
