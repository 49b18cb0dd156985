"""Monitoring harness core: cases, verdicts, counters, evidence, replay.

A *case* is one seeded workload execution of the real code in /repo.  Its random
choices come only from (VERIF_SEED, property, family, index), so a violation is
replayed by re-running exactly that case (``check.sh --replay <file>``).

Verdicts: a case either satisfies every oracle, raises ``Violation`` (an oracle
observed behaviour that breaks the property), or cannot be evaluated
(``Inconclusive``: resource trouble of the sandbox) which makes the whole check
end with exit status 2 - neither "held" nor "violated".
"""
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")


class Violation(Exception):
    """An oracle saw behaviour that breaks the property."""

    def __init__(self, kind, message, data=None):
        super(Violation, self).__init__("%s: %s" % (kind, message))
        self.kind = kind
        self.message = message
        self.data = data


class Inconclusive(Exception):
    """The case could not be decided (sandbox resources, harness)."""


class StepBudget(BaseException):
    """The code under test executed more steps than the case allows."""


class Case(object):
    """One execution: private random stream, scratch directory, counters."""

    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index = prop, family, index
        self.seed, self.tier = seed, tier
        self.thorough = tier == "thorough"
        key = "%s|%s|%s|%s" % (seed, prop, family, index)
        self.rng = random.Random(hashlib.sha256(key.encode()).hexdigest())
        self.counters = Counter()
        self.note = None
        self.sig = set()
        self.scratch = None

    # --- scratch -----------------------------------------------------------
    def path(self, name):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="vmon_")
        return os.path.join(self.scratch, name)

    def subdir(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    def cleanup(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    # --- observations ------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def shape(self, *sig):
        """Record the shape of the case (distinct non-trivial accounting)."""
        self.sig.add(repr(sig))

    def np_rng(self):
        import numpy

        return numpy.random.RandomState(self.rng.randrange(2 ** 31))

    # --- oracles -----------------------------------------------------------
    def check(self, cond, kind, message="", data=None):
        self.counters["oracle_evaluations"] += 1
        if not cond:
            raise Violation(kind, message() if callable(message) else message, data)

    def call(self, what, fn, *args, **kwargs):
        """Call the code under test on input it must accept."""
        self.counters["call:" + what] += 1
        try:
            return fn(*args, **kwargs)
        except (MemoryError, StepBudget):
            raise
        except OSError as e:
            if e.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM
                raise Inconclusive("sandbox resource: %r" % (e,))
            raise Violation("exception:" + what, _exc(e), traceback.format_exc())
        except SystemExit as e:
            raise Violation("exit:" + what, "SystemExit(%r)" % (e.code,))
        except Violation:
            raise
        except Exception as e:
            raise Violation("exception:" + what, _exc(e), traceback.format_exc())

    def refused(self, what, types, fn, *args, **kwargs):
        """Call on input that must be refused with one of ``types``."""
        self.counters["refusal:" + what] += 1
        try:
            out = fn(*args, **kwargs)
        except types:
            self.counters["refused"] += 1
            return
        except Exception as e:
            raise Violation("wrong-refusal:" + what, _exc(e), traceback.format_exc())
        raise Violation("not-refused:" + what, "accepted, returned %.200r" % (out,))


def _exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "toughio" in fr.filename:
            where = " at %s:%s" % (fr.filename.split("toughio", 1)[-1], fr.lineno)
            break
    return "%s: %s%s" % (type(e).__name__, str(e)[:300], where)


def large(fn):
    """The same case on a mesh, listing or deck of a thousand entries or more (see genmesh.build, listing.render)."""
    def run(case):
        case.rng.big = True
        fn(case)
        case.count("large")

    run.__doc__ = fn.__doc__
    return run


# ---------------------------------------------------------------------------
# Deterministic step budget (non-termination monitor)
# ---------------------------------------------------------------------------
class steps(object):
    """Count lines executed in the code under test; stop past ``budget``.

    Uses PEP 669 monitoring, so the verdict on non-termination is a count of
    executed source lines, not a wall clock.
    """

    TOOL = 4

    def __init__(self, budget):
        self.budget = budget
        self.n = 0

    def __enter__(self):
        mon = sys.monitoring
        root = os.path.join(REPO, "toughio")

        def on_line(code, lineno):
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            self.n += 1
            if self.n > self.budget:
                mon.set_events(self.TOOL, 0)
                raise StepBudget("%d lines executed, last %s:%d" % (
                    self.n, code.co_filename, lineno))

        mon.use_tool_id(self.TOOL, "vmon")
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


# ---------------------------------------------------------------------------
# Worker
# ---------------------------------------------------------------------------
def setup_process():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.NOTSET)
    lim = 6 * 1024 ** 3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def load(prop):
    mod = importlib.import_module("vmon.props.%s" % prop.lower())
    return mod


def _alarm(signum, frame):
    raise StepBudget("case exceeded its CPU-time watchdog")


def run_case(mod, prop, family, index, seed, tier):
    """Run one case, return a plain dict."""
    fn, _, _ = mod.FAMILIES[family]
    case = Case(prop, family, index, seed, tier)
    res = {"family": family, "index": index, "violation": None, "inconclusive": None}
    cwd = os.getcwd()
    # CPU-time watchdog (not wall clock: an overloaded machine cannot trip it)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, float(getattr(mod, "CASE_CPU_LIMIT", 90)))
    quiet = logging.getLogger()
    handlers = list(quiet.handlers)
    try:
        try:
            fn(case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        res["violation"] = {"kind": e.kind, "message": e.message, "data": e.data}
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except StepBudget as e:
        if "watchdog" in str(e):
            res["violation"] = {
                "kind": "no-termination", "message": str(e),
                "data": traceback.format_exc()[-1500:]}
        else:
            res["violation"] = {"kind": "no-termination", "message": str(e), "data": None}
    except MemoryError:
        res["violation"] = {"kind": "memory", "message": "address-space limit reached",
                            "data": traceback.format_exc()[-1500:]}
    except OSError as e:
        if e.errno in (28, 24, 12):
            res["inconclusive"] = repr(e)
        else:
            res["violation"] = {"kind": "unexpected", "message": _exc(e),
                                "data": traceback.format_exc()[-3000:]}
    except Exception as e:
        # an oracle met a result so malformed that it could not even be compared
        res["violation"] = {"kind": "malformed-result", "message": _exc(e),
                            "data": traceback.format_exc()[-3000:]}
    finally:
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
        quiet.handlers[:] = handlers
        case.cleanup()
    res["counters"] = dict(case.counters)
    res["sig"] = sorted(case.sig)
    res["note"] = case.note
    return res


def _work(args):
    prop, seed, tier, jobs = args
    mod = load(prop)
    out = []
    for fam, i in jobs:
        out.append(run_case(mod, prop, fam, i, seed, tier))
        if out[-1]["violation"] and os.environ.get("VMON_FIRST"):  # development only (tools/mutate.py)
            break
    return out


def _chunks(jobs, n):
    out = [[] for _ in range(n)]
    for i, j in enumerate(jobs):
        out[i % n].append(j)
    return [c for c in out if c]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [d for d in data.get("findings", []) if d["property"] == prop]


def size(mod, nq, nt, tier):
    """Number of cases of a family; families of a few heavy cases are as they are listed."""
    scale = getattr(mod, "SCALE", 1) if nq >= 30 else 1
    return nq * scale if tier != "thorough" else max(nt, 3 * nq * scale) if scale > 1 else nt


def run_property(prop, seed, tier, only=None):
    t0 = time.time()
    setup_process()
    import toughio  # noqa: F401  (fail early, and before forking)
    import toughio._cli  # noqa: F401

    assert os.path.realpath(toughio.__file__).startswith(os.path.realpath(REPO) + os.sep), toughio.__file__
    mod = load(prop)
    if hasattr(mod, "warmup"):
        mod.warmup()
    jobs = []
    for fam, (fn, nq, nt) in mod.FAMILIES.items():
        jobs += [(fam, i) for i in range(size(mod, nq, nt, tier))]
    if only is not None:
        jobs = [tuple(only)]
    nproc = int(os.environ.get("VMON_PROCS", min(8, os.cpu_count() or 1)))
    results = []
    if len(jobs) == 1 or nproc == 1:
        random.Random(0).shuffle(jobs)
        results = _work((prop, seed, tier, jobs))
    else:
        random.Random(0).shuffle(jobs)
        chunks = _chunks(jobs, nproc * (24 if tier == "thorough" else 6))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(nproc) as pool:
            for out in pool.imap_unordered(_work, [(prop, seed, tier, c) for c in chunks]):
                results += out
    results.sort(key=lambda r: (list(mod.FAMILIES).index(r["family"]), r["index"]))
    return mod, results, time.time() - t0


def main(prop, tier, seed, replay=None):
    only = None
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        prop, seed, tier = rep["property"], rep["seed"], rep["tier"]
        only = (rep["family"], rep["index"])
    mod, results, wall = run_property(prop, seed, tier, only)

    counters = Counter()
    fam_counts = Counter()
    sigs = set()
    samples, violations, inconclusive = [], [], []
    seen_fam = set()
    for r in results:
        counters.update(r["counters"])
        fam_counts[r["family"]] += 1
        sigs.update("%s:%s" % (r["family"], s) for s in r["sig"])
        if r["note"] is not None and r["family"] not in seen_fam:
            seen_fam.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "case": r["note"]})
        if r["violation"]:
            violations.append(r)
        if r["inconclusive"]:
            inconclusive.append(r)

    known = known_findings(prop)
    reported, new = Counter(), []
    for r in violations:
        v = r["violation"]
        for k in known:
            if k["family"] == r["family"] and k["kind"] == v["kind"] and k.get("match", "") in v["message"]:
                reported[k["what"]] += 1
                break
        else:
            new.append(r)

    reach = []
    if only is None:
        for name, least in getattr(mod, "REACH", {}).items():
            if counters[name] < least:
                reach.append("%s observed %d < %d" % (name, counters[name], least))

    if not samples and results:
        samples = [{"family": r["family"], "index": r["index"]} for r in results[:3]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "families": dict(fam_counts),
            "observed": dict(sorted(counters.items())),
            "known_findings_seen": dict(reported),
            "inconclusive": len(inconclusive),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")

    for k, n in reported.items():
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k, n))
    rdir = os.path.join(VERIF, "replay")
    by_kind = Counter()
    for r in new:
        v = r["violation"]
        by_kind[v["kind"]] += 1
        if by_kind[v["kind"]] > 3 or sum(by_kind.values()) > 30:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, r["family"], seed, r["index"]))
        if only is None:
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "family": r["family"],
                           "index": r["index"], "violation": v}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s/%d] %s: %s" % (r["family"], r["index"], v["kind"], str(v["message"])[:1500]))
        if only is not None and v["data"]:
            print(v["data"])
    if new:
        print("%s: %d violating cases of %d, kinds: %s" % (prop, len(new), len(results), dict(by_kind)))
        return 1
    if inconclusive:
        print("%s: INCONCLUSIVE (%d cases), e.g. %s" % (prop, len(inconclusive), inconclusive[0]["inconclusive"]))
        return 2
    if reach:
        print("%s: INCONCLUSIVE, monitors not reached: %s" % (prop, "; ".join(reach)))
        return 2
    print("%s: held on %d cases (%d shapes, %d oracle evaluations) in %.1fs" % (
        prop, len(results), len(sigs), counters["oracle_evaluations"], wall))
    return 0
