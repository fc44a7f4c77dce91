"""Shared machinery of the checks: TLC runs, trace files, verdicts, evidence.

A check is a python module `checks/<pid>.py` with a function `run(ck)`.  It uses
  ck.tlc(...)          exhaustive TLC run of a specification; returns the printed
                       behaviours (model -> code direction)
  ck.validate(...)     TLC run of a trace specification over recorded executions
                       (code -> model direction); every rejected trace becomes a
                       violation that names the failing clause
  ck.violation(...)    records one violation (compared with the known findings)
"""
from __future__ import annotations

import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
DEFAULT_DEN = 60000


# --------------------------------------------------------------------------
# projection of numbers:  float  ->  the specification's rationals <<num, den>>
NAN = [0, 0]
PINF = [1, 0]
NINF = [-1, 0]
BAD = [0, -1]  # "not representable": never equal to a value of the specification


def proj(x, den=DEFAULT_DEN, tol=1e-9):
    """Project a scalar of the implementation to a rational of the specification."""
    if isinstance(x, bool):
        return [int(x), 1]
    x = float(x)
    if math.isnan(x):
        return list(NAN)
    if math.isinf(x):
        return list(PINF if x > 0 else NINF)
    if abs(x) > 1e9:
        return list(BAD)
    f = Fraction(x).limit_denominator(den)
    if abs(float(f) - x) > tol * max(1.0, abs(x)):
        return list(BAD)
    return [f.numerator, f.denominator]


def proj_list(xs, den=DEFAULT_DEN, tol=1e-9):
    return [proj(x, den, tol) for x in xs]


def unproj(nd) -> float:
    n, d = nd
    if d == 0:
        return float("nan") if n == 0 else (math.inf if n > 0 else -math.inf)
    return n / d


def close(x, nd, tol=1e-9) -> bool:
    """Does the implementation's float x equal the specification's value nd ?"""
    x = float(x)
    e = unproj(nd)
    if math.isnan(e) or math.isnan(x):
        return math.isnan(e) and math.isnan(x)
    if math.isinf(e) or math.isinf(x):
        return e == x
    return abs(x - e) <= tol * max(1.0, abs(e))


# --------------------------------------------------------------------------
class MachineryError(Exception):
    """The machinery (not the code under test) failed."""


class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.states = self.distinct = self.depth = 0
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        if m:
            self.states, self.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            self.depth = int(m[-1])
        self.printed = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                s = json.loads(line)
                tag, _, body = s[2:].partition(" ")
                self.printed.append((tag, json.loads(body)))

    def get(self, tag):
        return [b for t, b in self.printed if t == tag]

    def coverage(self):
        """action -> (distinct, generated) of a -coverage run"""
        cov = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            a, d, g = m.group(1), int(m.group(2)), int(m.group(3))
            o = cov.get(a, (0, 0))
            cov[a] = (max(o[0], d), max(o[1], g))
        return cov


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{self.seed}/{pid}")
        self.t0 = time.time()
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.stats = dict(
            states=0, transitions=0, behaviours_replayed=0, traces_validated_against_impl=0,
            events_validated=0, steps_replayed=0, comparisons=0,
        )
        self.samples = []
        self.actions = {}
        self.modules = []
        self.assumptions = []
        self.viols = []
        self.known_hits = []
        self.notes = {}
        self._n = 0

    # ------------------------------------------------------------------ TLC
    def _run_tlc(self, module, cfg_text, env, workers, timeout, extra, constants=None):
        self._n += 1
        wd = self.tmp / f"tlc{self._n}"
        wd.mkdir()
        for f in SPECS.glob("*.tla"):
            shutil.copy(f, wd / f.name)
        # constants are arbitrary TLA+ expressions: defined in a generated root module
        root = f"RUN_{module}"
        defs = "\n".join(f"CONST_{k} == {tla(v)}" for k, v in (constants or {}).items())
        (wd / f"{root}.tla").write_text(f"---- MODULE {root} ----\nEXTENDS {module}\n{defs}\n====\n")
        cfg_text += "".join(f"CONSTANT {k} <- CONST_{k}\n" for k in (constants or {}))
        (wd / f"{root}.cfg").write_text(cfg_text)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", f"-Djava.io.tmpdir={self.tmp}", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-cp", f"{TLA_JAR}:{TLA_CM}",
               "tlc2.TLC", "-workers", str(workers), "-metadir", str(wd / "meta"),
               "-coverage", "1",
               "-config", f"{root}.cfg", *extra, f"{root}.tla"]
        cache = None
        if os.environ.get("VERIF_TLC_CACHE") and not env:  # tools/mutate.py only: the design run does not depend on the code
            import hashlib
            h = hashlib.sha256(repr([sorted((f.name, f.read_text()) for f in SPECS.glob("*.tla")), defs, cfg_text, module, extra]).encode()).hexdigest()
            cache = Path(os.environ["VERIF_TLC_CACHE"]) / h
        if cache and cache.exists():
            p = subprocess.CompletedProcess(cmd, 0, cache.read_text(), "")
        else:
            try:
                p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired as ex:
                raise MachineryError(f"TLC timed out on {module}") from ex
            if cache and p.returncode == 0:
                cache.write_text(p.stdout)
        r = TLCResult(p.stdout, p.returncode)
        if p.returncode != 0:
            out = p.stdout.split("The coverage statistics")[0]
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-4000:]
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n{tail}\n{p.stderr[-2000:]}")
        shutil.rmtree(wd, ignore_errors=True)
        return r

    def tlc(self, module, constants=None, invariants=(), properties=(), constraint="Emit",
            spec=None, postcondition=None, env=None, workers=8, timeout=600, extra=(), action_constraint=None,
            never=()):
        """Exhaustive model check.  Every action of the specification must be taken
        (vacuity), except those listed in `never`."""
        lines = [f"SPECIFICATION {spec}" if spec else "INIT Init\nNEXT Next", "CHECK_DEADLOCK FALSE"]
        for i in invariants:
            lines.append(f"INVARIANT {i}")
        for i in properties:
            lines.append(f"PROPERTY {i}")
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            lines.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        r = self._run_tlc(module, "\n".join(lines) + "\n", env, workers, timeout, list(extra), constants)
        self.stats["states"] += r.distinct
        self.stats["transitions"] += r.states
        for a, (d, g) in r.coverage().items():
            self.actions[f"{module}.{a}"] = self.actions.get(f"{module}.{a}", 0) + g
            if g == 0 and a not in never:
                raise MachineryError(f"action {module}.{a} is never taken: the check is vacuous")
        self.modules.append(module)
        return r

    def validate(self, module, traces, timeout=600, clause_prefix="", workers=8, constants=None, case_of=None):
        """Validate recorded executions against a trace specification.

        traces: list of dicts {"id":.., "cfg":.., "ev":[..]}.  The trace specification
        prints one verdict "@@V {id, n, fail}" per trace (total: fail = "" when accepted)."""
        if not traces:
            return []
        self._n += 1
        path = self.tmp / f"traces{self._n}.ndjson"
        with open(path, "w") as f:
            for i, t in enumerate(traces):
                f.write(json.dumps({"id": i, "cfg": t["cfg"], "ev": t["ev"]}) + "\n")
        lines = ["INIT TraceInit", "NEXT TraceNext", "CHECK_DEADLOCK FALSE", "CONSTRAINT Verdict"]
        r = self._run_tlc(module, "\n".join(lines) + "\n", {"TRACE_FILE": path}, workers, timeout, [], constants)
        verdicts = {v["id"]: v for v in r.get("V")}
        if len(verdicts) != len(traces):
            raise MachineryError(f"{module}: {len(verdicts)} verdicts for {len(traces)} traces")
        self.stats["states"] += r.distinct
        self.stats["transitions"] += r.states
        bad = []
        for i, t in enumerate(traces):
            v = verdicts[i]
            self.stats["events_validated"] += v["n"]
            if v["fail"]:
                bad.append((t, v))
                case = case_of(t, v) if case_of else dict(trace=t["cfg"], at=v["n"])
                ev = t["ev"][v["n"] - 1] if 0 < v["n"] <= len(t["ev"]) else None
                self.violation(clause_prefix + v["fail"], case,
                               dict(event=v["n"], observed=ev, history=t["ev"][: v["n"]],
                                    expected=v.get("exp"), config=t["cfg"]))
            elif v["n"] != len(t["ev"]):
                raise MachineryError(f"{module}: trace {i} accepted after {v['n']} of {len(t['ev'])} events")
        self.stats["traces_validated_against_impl"] += len(traces)
        if module not in self.modules:
            self.modules.append(module)
        return bad

    def selftest_binding(self, module, traces, corrupt, constants=None, n=8):
        """Demonstrate the binding: corrupted copies of recorded traces must be rejected."""
        bad = []
        for t in traces:
            c = corrupt(json.loads(json.dumps(t)))
            if c is not None:
                bad.append(c)
            if len(bad) >= n:
                break
        if not bad:
            return
        self._n += 1
        path = self.tmp / f"corrupt{self._n}.ndjson"
        with open(path, "w") as f:
            for i, t in enumerate(bad):
                f.write(json.dumps({"id": i, "cfg": t["cfg"], "ev": t["ev"]}) + "\n")
        lines = ["INIT TraceInit", "NEXT TraceNext", "CHECK_DEADLOCK FALSE", "CONSTRAINT Verdict"]
        r = self._run_tlc(module, "\n".join(lines) + "\n", {"TRACE_FILE": path}, 4, 300, [], constants)
        acc = [v for v in r.get("V") if not v["fail"]]
        if len(r.get("V")) != len(bad) or acc:
            raise MachineryError(f"{module}: corrupted traces were accepted: {acc[:1]} ({len(r.get(chr(86)))} verdicts for {len(bad)})")
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + len(bad)

    # ------------------------------------------------- running the real code
    def pmap(self, fn, items, nproc=None, chunk=None):
        """Run `module:function` (a driver of the real code) on every item, in parallel.

        Returns one ("ok", result) or ("exc", message) per item: an exception raised while
        driving the implementation is an observation, not a failure of the machinery."""
        items = list(items)
        if not items:
            return []
        nproc = nproc or min(8, os.cpu_count() or 4, len(items))
        if nproc <= 1:
            return [_call((fn, it)) for it in items]
        import concurrent.futures as cf
        import multiprocessing as mp

        chunk = chunk or max(1, math.ceil(len(items) / (nproc * 4)))
        with cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context("spawn")) as ex:
            return list(ex.map(_call, [(fn, it) for it in items], chunksize=chunk))

    # ------------------------------------------------------------- verdicts
    def violation(self, clause, case, detail):
        v = dict(property=self.pid, clause=clause, case=case, detail=detail)
        k = match_known(v)
        if k is not None:
            self.known_hits.append((k, v))
        else:
            self.viols.append(v)

    def replayed(self, behaviours, steps, comparisons=None):
        self.stats["behaviours_replayed"] += behaviours
        self.stats["steps_replayed"] += steps
        self.stats["comparisons"] += comparisons if comparisons is not None else steps

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        cov = dict(
            states=self.stats["states"],
            transitions=self.stats["transitions"],
            traces_validated_against_impl=self.stats["traces_validated_against_impl"]
            + self.stats["behaviours_replayed"],
            spec_behaviours_replayed_into_code=self.stats["behaviours_replayed"],
            recorded_traces_checked_by_tlc=self.stats["traces_validated_against_impl"],
            events_validated=self.stats["events_validated"],
            steps_replayed=self.stats["steps_replayed"],
            output_comparisons=self.stats["comparisons"],
            spec_actions_taken=self.actions,
            spec_modules=sorted(set(self.modules)),
            samples=self.samples or ["(none)"],
            **self.notes,
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viols))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        shutil.rmtree(self.tmp, ignore_errors=True)
        seen = set()
        for k, v in self.known_hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f"{self.pid}: {json.dumps({k: v for k, v in self.stats.items()})} wall={ev['wall_s']}s")
        if self.viols:
            d = VERIF / "replays"
            d.mkdir(exist_ok=True)
            clauses = {}
            for v in self.viols:
                clauses.setdefault(v["clause"], []).append(v)
            for i, (c, vs) in enumerate(sorted(clauses.items())):
                if i >= 8:
                    break
                p = d / f"{self.pid}-{i}.json"
                p.write_text(json.dumps(dict(vs[0], same_clause=len(vs)), indent=1, default=str) + "\n")
                print(f"  clause {c}: {len(vs)} failing case(s); first: {json.dumps(vs[0], default=str)[:1500]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        return 0


# --------------------------------------------------------------------------
def tla(v):
    """python value -> TLA+ expression (a str starting with "=" is taken verbatim)"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v[1:] if v.startswith("=") else json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    raise TypeError(v)


def _call(arg):
    import importlib

    fn, item = arg
    mod, _, name = fn.partition(":")
    if str(VERIF / "checks") not in sys.path:
        sys.path.insert(0, str(VERIF / "checks"))
    f = getattr(importlib.import_module(mod), name)
    try:
        return ("ok", f(item))
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{Path(t.filename).name}:{t.name}" for t in tb[-4:]]
        return ("exc", f"{type(e).__name__}: {str(e)[:300]} at {where}")


_KNOWN = None


def match_known(v):
    """known_findings.jsonl: {"status","property","clause" (regex),"case":{k:v subset},"what"}"""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        p = VERIF / "known_findings.jsonl"
        if p.exists():
            for line in p.read_text().splitlines():
                if line.strip():
                    k = json.loads(line)
                    if k.get("status") == "known":
                        _KNOWN.append(k)
    for k in _KNOWN:
        if k["property"] != v["property"]:
            continue
        if not re.fullmatch(k["clause"], v["clause"]):
            continue
        case = v["case"] if isinstance(v["case"], dict) else {}
        if all(case.get(a) == b for a, b in k.get("case", {}).items()):
            return k
    return None


def main(pid):
    import importlib

    sys.path.insert(0, str(VERIF / "checks"))
    ck = Check(pid)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ck)
        rc = ck.finish()
    except Exception:
        traceback.print_exc()
        print(f"MACHINERY-ERROR property={pid}", file=sys.stderr)
        rc = 3
        if ck.viols:  # what was found before the machinery failed stands
            try:
                rc = ck.finish()
            except Exception:
                traceback.print_exc()
        shutil.rmtree(ck.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
