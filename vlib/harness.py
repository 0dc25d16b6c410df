"""Runner shared by all checks: generation, shrinking, accounting, evidence and replay.

A check module (checks/<id>.py) registers facets with @facet(...). A facet is a predicate over one
JSON-serialisable case; it returns normally when the property holds for the case, and raises otherwise.
Cases come from a hypothesis strategy; explicit cases (edge cases and former failures) run first.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

from . import deps
deps.enable_hypothesis()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FACETS = []


class HarnessError(Exception):
    """A fault of the check itself; never reported as a violation."""


class Violation(AssertionError):
    """The oracle disagrees with the code. A facet may attach a reduced case as .case."""


class Facet:
    def __init__(self, name, fn, strategy, quick, thorough, nontrivial, labels, examples, budget, shrink):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.n = {"quick": quick, "thorough": thorough}
        self.nontrivial, self.labels, self.examples = nontrivial, labels, examples
        self.budget = budget
        self.shrink = shrink


def facet(name, strategy, quick=200, thorough=5000, nontrivial=None, labels=None, examples=(), budget=None, shrink=True):
    """shrink=False: the facet reduces a failing case by itself (Violation.case)."""
    def deco(fn):
        FACETS.append(Facet(name, fn, strategy, quick, thorough, nontrivial or (lambda case: True),
                            labels or (lambda case: ()), list(examples),
                            budget or {"quick": 60, "thorough": 900}, shrink))
        return fn
    return deco


def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


class Account:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_facet = {}

    def add(self, facet_, case):
        self.evaluations += 1
        per = self.per_facet.setdefault(facet_.name, {"evaluations": 0, "distinct_nontrivial": 0})
        per["evaluations"] += 1
        for label in facet_.labels(case):
            key = f"{facet_.name}:{label}"
            self.labels[key] = self.labels.get(key, 0) + 1
        if facet_.nontrivial(case):
            text = json.dumps(case, sort_keys=True)
            key = facet_.name + hashlib.sha1(text.encode()).hexdigest()
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                per["distinct_nontrivial"] += 1
                if per["distinct_nontrivial"] in (3, 40):
                    self.samples.append({"facet": facet_.name, "case": text[:600]})

    def export(self):
        return {"evaluations": self.evaluations, "skipped": self.skipped,
                "nontrivial": sorted(self.nontrivial), "labels": self.labels,
                "samples": self.samples, "per_facet": self.per_facet}

    def merge(self, other):
        self.evaluations += other["evaluations"]
        self.skipped += other["skipped"]
        self.nontrivial.update(other["nontrivial"])
        for k, v in other["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples.extend(other["samples"][:4])
        for k, v in other["per_facet"].items():
            per = self.per_facet.setdefault(k, {"evaluations": 0, "distinct_nontrivial": 0})
            per["evaluations"] += v["evaluations"]
        for name, per in self.per_facet.items():
            per["distinct_nontrivial"] = sum(1 for k in self.nontrivial if k[:-40] == name)


def _execute(facet_, case):
    """Run one case with the package's chatter silenced. The case is handed over as fresh plain data."""
    case = json.loads(json.dumps(case))
    sink = io.StringIO()
    random.seed(0)
    import numpy
    numpy.random.seed(0)
    argv, cwd = list(sys.argv), os.getcwd()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with numpy.errstate(all="ignore"):
                facet_.fn(case)
    except SystemExit as exc:
        raise Violation(f"the program ended itself with status {exc.code}: {sink.getvalue()[-500:]}") from exc
    finally:
        sys.argv = argv
        os.chdir(cwd)


CONTROL = (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest, HarnessError, KeyboardInterrupt)


class Failed(Exception):
    def __init__(self, facet_, case, error):
        self.facet, self.case, self.error = facet_, case, error


def _describe(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-6))[-4000:]


def run_explicit(facet_, cases, account):
    for case in cases:
        case = json.loads(json.dumps(case))
        try:
            _execute(facet_, case)
        except CONTROL:
            raise
        except Exception as exc:
            raise Failed(facet_, case, _describe(exc))
        account.add(facet_, case)


def run_generated(facet_, tier, seed, account, scale=1.0):
    n = max(1, int(facet_.n[tier] * scale))
    deadline = time.monotonic() + facet_.budget[tier]
    state = {"failure": None}

    def body(case):
        if state["failure"] is None and time.monotonic() > deadline:
            account.skipped += 1
            return
        try:
            _execute(facet_, case)
        except CONTROL:
            raise
        except Exception as exc:
            state["failure"] = (json.loads(json.dumps(getattr(exc, "case", case))), _describe(exc))
            raise
        if state["failure"] is None:
            account.add(facet_, case)

    strategy = facet_.strategy() if callable(facet_.strategy) else facet_.strategy
    test = hypothesis.given(strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=(Phase.generate, Phase.shrink) if facet_.shrink else (Phase.generate,))(test)
    digest = hashlib.sha1(f"{seed}:{facet_.name}".encode()).hexdigest()
    test = hypothesis.seed(int(digest[:12], 16))(test)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            test()
    except HarnessError:
        raise
    except BaseException as exc:
        if state["failure"] is None:
            raise HarnessError(f"{facet_.name}: {type(exc).__name__}: {exc}\n{_describe(exc)}")
        raise Failed(facet_, *state["failure"])


def load(property_id):
    FACETS.clear()
    module = importlib.import_module("checks." + property_id.lower())
    return module


def regressions(property_id):
    folder = os.path.join(HERE, "regress", property_id)
    result = {}
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as f:
                    entry = json.load(f)
                result.setdefault(entry["facet"], []).append(entry["case"])
    return result


def report_violation(property_id, failed):
    folder = os.path.join(HERE, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{property_id}-{failed.facet.name}.json")
    with open(path, "w") as f:
        json.dump({"property": property_id, "facet": failed.facet.name, "case": failed.case,
                   "error": failed.error,
                   "replay_cmd": f"python3 {HERE}/run.py {property_id} --replay {path}"}, f, indent=1)
        f.write("\n")
    print(f"facet {failed.facet.name} fails for\n  {json.dumps(failed.case)[:1500]}\n{failed.error[-1800:]}")
    print(f"VIOLATION property={property_id} replay={path}", flush=True)


def known_findings(property_id):
    path = os.path.join(HERE, "known-findings.txt")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % property_id):
                    found.append(line.split(" ", 2)[2])
    return found


def write_evidence(property_id, module, tier, seed, account, wall, violations, extra=None):
    coverage = {
        "evaluations": account.evaluations,
        "distinct_nontrivial": len(account.nontrivial),
        "rule": module.RULE,
        "samples": account.samples[:12],
        "facets": account.per_facet,
        "classes": dict(sorted(account.labels.items())),
        "cases_not_run_because_of_the_time_budget": account.skipped,
    }
    coverage.update(extra or {})
    doc = {"property": property_id, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": coverage, "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
           "wall_s": round(wall, 2), "violations": violations}
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, property_id + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def _shards(property_id, seed, count, only, tier):
    procs = []
    for i in range(count):
        out = os.path.join(os.environ["VERIF_SCRATCH"], f"shard{i}.json")
        cmd = [sys.executable, os.path.join(HERE, "run.py"), property_id, "--tier", tier,
               "--shard", str(i), "--shards", str(count), "--out", out]
        if only:
            cmd += ["--facet", only]
        procs.append((out, subprocess.Popen(cmd, env=dict(os.environ, VERIF_SEED=str(seed)),
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    results = []
    for out, p in procs:
        text, _ = p.communicate()
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise HarnessError(f"shard failed ({p.returncode}):\n{text[-3000:]}")
        with open(out) as f:
            results.append(json.load(f))
    return results


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--facet")
    parser.add_argument("--shard", type=int)
    parser.add_argument("--shards", type=int)
    parser.add_argument("--out")
    args = parser.parse_args(argv)
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    args.shards = args.shards or int(os.environ.get("VERIF_SHARDS", "6" if tier == "quick" else "8"))
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40

    try:
        module = load(args.property)
        import starwinds_magnetogram
        where = os.path.realpath(os.path.dirname(starwinds_magnetogram.__file__))
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError(f"package imported from {where}, not from {REPO}")
        facets = [f for f in FACETS if args.facet in (None, f.name)]
        names = [f.name for f in FACETS]
        if len(set(names)) != len(names):
            raise HarnessError("duplicate facet names")

        if args.replay:
            with open(args.replay) as f:
                entry = json.load(f)
            facet_ = next(f for f in FACETS if f.name == entry["facet"])
            try:
                _execute(facet_, entry["case"])
            except CONTROL:
                raise
            except Exception as exc:
                print(_describe(exc))
                print(f"VIOLATION property={args.property} replay={args.replay}")
                return 1
            print("the case passes")
            return 0

        account = Account()
        failure = None
        saved = regressions(args.property)
        for key in saved:
            if key not in names:
                raise HarnessError(f"regression for unknown facet {key}")

        if args.shard is None:
            try:
                for f in facets:
                    run_explicit(f, f.examples + saved.get(f.name, []), account)
            except Failed as failed:
                failure = failed
            if failure is None:
                for result in _shards(args.property, seed, args.shards, args.facet, tier):
                    account.merge(result["account"])
                    if result["failure"] and failure is None:
                        facet_ = next(f for f in FACETS if f.name == result["failure"]["facet"])
                        failure = Failed(facet_, result["failure"]["case"], result["failure"]["error"])
        else:
            # A thorough run is divided over the shards; in a quick run every shard makes all of the quick cases.
            try:
                for f in facets:
                    run_generated(f, tier, f"{seed}/{args.shard}", account, 1.0 / args.shards if tier == "thorough" else 1.0)
            except Failed as failed:
                failure = failed

        if args.shard is not None:
            with open(args.out, "w") as f:
                json.dump({"account": account.export(),
                           "failure": failure and {"facet": failure.facet.name, "case": failure.case,
                                                   "error": failure.error}}, f)
            return 1 if failure else 0

        wall = time.monotonic() - start
        write_evidence(args.property, module, tier, seed, account, wall, 1 if failure else 0)
        for text in known_findings(args.property):
            print(f"KNOWN-FINDING: property={args.property} {text}")
        if failure:
            report_violation(args.property, failure)
            return 1
        print(f"{args.property} {tier}: {account.evaluations} cases, {len(account.nontrivial)} distinct "
              f"non-trivial, {account.skipped} not run, {wall:.1f} s")
        return 0
    except HarnessError as exc:
        print(f"HARNESS ERROR in {args.property}: {exc}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
