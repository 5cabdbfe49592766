"""Runner shared by all checks: strata of Hypothesis-generated cases, evidence, shrinking, replay.

A property module (checks/pNN.py) defines

    RULE      text: how cases are made and what makes one non-trivial
    strata(tier) -> list of Stratum

Every Stratum is a Hypothesis campaign of its own (seeded from VERIF_SEED and its name), run in a process
of its own, so that a run is a pure function of the code under test and the seed.
A case is JSON; `check(case)` raises on a violation and otherwise returns a label, a set of labels, or a false value when the case
was trivial.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property does not hold for this case."""


class _ShrinkBudget(KeyboardInterrupt):
    """Enough shrinking: leaves Hypothesis with the smallest failing case seen so far."""


SHRINK_CALLS = 120


class Stratum:
    def __init__(self, name, strategy, check, n=(20, 200), cost=1.0):
        self.name, self.strategy, self.check, self.n, self.cost = name, strategy, check, n, cost


def stable_seed(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def _dump(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    if hasattr(o, "tolist"):
        return o.tolist()
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def jsonable(case):
    return json.loads(_dump(case))


HARNESS_ERRORS = (MemoryError, OSError)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
    kind = "" if isinstance(exc, Violation) else "unexpected %s: " % type(exc).__name__
    return "%s%s [%s]" % (kind, str(exc)[:1500], where)


def run_stratum(pid, stratum, seed, tier):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    n = stratum.n[0 if tier == "quick" else 1]
    stats = {"name": stratum.name, "evaluations": 0, "nontrivial": [], "labels": collections.Counter(),
             "samples": [], "violation": None, "error": None}
    seen = set()
    failing = []          # (size, message, case)
    after = [0]
    t0 = time.time()

    def body(case):
        case = jsonable(case)
        if failing:
            after[0] += 1
            if after[0] > SHRINK_CALLS:
                raise _ShrinkBudget()
        else:
            stats["evaluations"] += 1
        try:
            label = stratum.check(case)
        except hypothesis.errors.HypothesisException:
            raise
        except HARNESS_ERRORS:
            raise
        except (Exception, RecursionError) as e:
            text = _dump(case)
            failing.append((len(text), describe(e), case))
            raise
        if label and not failing:
            labels = [label] if isinstance(label, str) else (list(label) if not isinstance(label, bool) else [])
            stats["labels"].update(labels)
            key = hashlib.sha1((stratum.name + _dump(case)).encode()).hexdigest()[:16]
            if key not in seen:
                seen.add(key)
                if len(stats["samples"]) < 2:
                    stats["samples"].append(case)

    try:
        strat = stratum.strategy() if callable(stratum.strategy) else stratum.strategy
        test = given(strat)(body)
        test = settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                        verbosity=hypothesis.Verbosity.quiet)(test)
        test = hypothesis.seed(stable_seed(seed, pid, stratum.name))(test)
        try:
            test()
        except HARNESS_ERRORS:
            raise
        except BaseException as e:
            if not failing:
                stats["error"] = describe(e) if isinstance(e, Exception) else repr(e)
    except BaseException as e:
        stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if failing:
        size, msg, case = min(failing, key=lambda f: f[0])
        stats["violation"] = {"message": msg, "case": case}
    stats["nontrivial"] = sorted(seen)
    stats["wall"] = time.time() - t0
    return stats


_STRATA = []


def _task(args):
    i, pid, seed, tier = args
    return run_stratum(pid, _STRATA[i], seed, tier)


def run_property(pid, module, tier, seed, jobs=8, only=None, limit=None):
    """Returns the exit code."""
    global _STRATA
    t0 = time.time()
    _STRATA = module.strata(tier)
    names = [s.name for s in _STRATA]
    assert len(set(names)) == len(names), [n for n, c in collections.Counter(names).items() if c > 1]
    idx = [i for i, s in enumerate(_STRATA) if only is None or only in s.name]
    idx.sort(key=lambda i: (-_STRATA[i].cost * max(1, _STRATA[i].n[0 if tier == "quick" else 1]) ** 0.5, i))
    results, violations, errors = [], [], []
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_task, [(i, pid, seed, tier) for i in idx], chunksize=1)
        for _ in idx:
            try:
                r = it.next(timeout=None if limit is None else max(1.0, limit - (time.time() - t0)))
            except mp.TimeoutError:
                errors.append("time limit of %ds reached after %d of %d strata: inconclusive" % (limit, len(results), len(idx)))
                break
            results.append(r)
            if r["violation"]:
                violations.append(r)
                if not os.environ.get("VERIF_ALL"):
                    break
            if r["error"]:
                errors.append("%s: %s" % (r["name"], r["error"]))
        pool.terminate()
    results.sort(key=lambda r: r["name"])
    wall = time.time() - t0
    labels = collections.Counter()
    distinct = set()
    for r in results:
        labels.update(r["labels"])
        distinct.update(r["nontrivial"])
    samples = []
    step = max(1, len(results) // 8)
    for r in results[::step]:
        samples += [{"stratum": r["name"], "case": c} for c in r["samples"][:1]]
    known = [k for k in known_findings() if k["property"] == pid]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples[:10],
            "strata_run": len(results),
            "strata_total": len(idx),
            "labels": dict(sorted(labels.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=_plain)
            f.write("\n")
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d: %d strata, %d cases, %d distinct non-trivial, %.1fs" % (
        pid, tier, seed, len(results), evidence["coverage"]["evaluations"], len(distinct), wall))
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            print("   %7.2fs %6d  %s" % (r["wall"], r["evaluations"], r["name"]))
    if violations:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for r in violations:
            v = r["violation"]
            path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(r["name"].encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump({"property": pid, "stratum": r["name"], "tier": tier, "seed": seed, "case": v["case"],
                           "message": v["message"]}, f, indent=1, default=_plain)
                f.write("\n")
            print("  stratum %s\n  case %s\n  %s" % (r["name"], _dump(v["case"])[:1000], v["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR", e, file=sys.stderr)
        return 2
    return 0


def replay(pid, module, path):
    rec = json.load(open(path))
    for tier in (rec.get("tier", "quick"), "thorough"):
        for s in module.strata(tier):
            if s.name == rec["stratum"]:
                try:
                    s.check(rec["case"])
                except HARNESS_ERRORS:
                    raise
                except Exception as e:
                    print("  " + describe(e))
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    return 1
                print("replay passes: %s %s" % (pid, rec["stratum"]))
                return 0
    print("no stratum named %s" % rec["stratum"], file=sys.stderr)
    return 2


def is_known(pid, key):
    """Whether the committed file lists this specific deviation (the caller has compared the actual behaviour with it)."""
    return any(k["property"] == pid and k["key"] == key for k in known_findings())


_known = []


def known_findings():
    """Lines 'finding: property=<id> key=<key> <what>' of known_findings.txt; 'fixed:' lines are a record only and suppress nothing."""
    if _known:
        return _known[0]
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property="):
                pid, _, what = l[len("finding: property="):].strip().partition(" ")
                key, _, what = what.partition(" ")
                assert key.startswith("key="), l
                out.append({"property": pid, "key": key[4:], "what": what})
    _known.append(out)
    return out
