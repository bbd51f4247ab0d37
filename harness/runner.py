"""Runs the facets of one property over generated cases, sharded over processes, and reports."""
import argparse
import hashlib
import importlib
import io
import json
import logging
import math
import os
import pickle
import shutil
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replay")

N_SHARDS = {"quick": 8, "thorough": 8}
# Wall-clock after which generation stops (what was explored counts, nothing else is claimed).
WALL = {"quick": 150, "thorough": 2400}
MAX_SAMPLES = 4
# How long a found failure is shrunk (seconds); the smallest failing case so far is reported.
SHRINK = {"quick": 45, "thorough": 300}


class StopShrinking(BaseException):
    pass


def case_repr(case):
    return repr(case)


def case_eval(text):
    return eval(text, {"__builtins__": {}}, {"nan": math.nan, "inf": math.inf})


def case_key(facet, case):
    return hashlib.blake2b(f"{facet}:{case_repr(case)}".encode(), digest_size=10).digest()


def load_property(prop):
    return importlib.import_module(f"harness.props.{prop.lower()}")


def quiet_environment():
    warnings.filterwarnings("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"
    logging.disable(logging.NOTSET)
    logging.getLogger().setLevel(logging.CRITICAL)


def run_facet(facet, n_examples, seed, stop_at, out, give_up, shrink_s, found, skip_first=False):
    """Run one facet in this process. `out` collects counters; returns failure dict or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given

    from harness.core import Context, describe_exception, interpret_exception, scratch_dir

    # Hypothesis begins with the simplest case, the same in every process: one of them runs it.
    state = {"failure": None, "error": None, "stopped": False, "skip": skip_first}
    stats = out.setdefault(
        facet.name,
        {"evaluations": 0, "keys": set(), "nontrivial_keys": set(), "labels": {}, "samples": [], "wall": 0.0},
    )
    began = time.time()

    def one(case):
        if state["skip"]:
            state["skip"] = False
            return
        if state["failure"] is None and time.time() > stop_at:
            state["stopped"] = True
            return  # out of time: not counted, nothing claimed
        if state["failure"] is not None and time.time() > state["failed_at"] + shrink_s:
            raise StopShrinking
        ctx = Context()

        def on_alarm(signum, frame):
            give_up({
                "facet": facet.name,
                "case": case_repr(case),
                "message": f"did not finish within {facet.hang_s} s",
                "traceback": "".join(traceback.format_stack(frame))[-6000:],
            })

        try:
            signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, facet.hang_s)
            try:
                with scratch_dir():
                    facet.check(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except hypothesis.errors.HypothesisException:
            raise
        except BaseException as exc:  # noqa: B902
            if isinstance(exc, (SystemExit, GeneratorExit)):
                raise
            kind = interpret_exception(exc) if isinstance(exc, Exception) else "violation"
            record = {
                "facet": facet.name,
                "case": case_repr(case),
                "message": describe_exception(exc),
                "traceback": "".join(traceback.format_exception(exc))[-6000:],
            }
            if kind == "violation":
                previous = state["failure"]
                if previous is None or len(record["case"]) <= len(previous["case"]):
                    state["failure"] = record
                if previous is None:
                    state["failed_at"] = time.time()
                    found(record)
            else:
                state["error"] = record
            if isinstance(exc, Exception):
                raise
            raise RuntimeError(f"{type(exc).__name__} escaped the check") from exc
        stats["evaluations"] += 1
        key = case_key(facet.name, case)
        new = key not in stats["keys"]
        stats["keys"].add(key)
        if new:
            for lab in ctx.labels:
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if ctx.is_nontrivial and key not in stats["nontrivial_keys"]:
            stats["nontrivial_keys"].add(key)
            if len(stats["samples"]) < MAX_SAMPLES and len(stats["nontrivial_keys"]) % 7 == 1:
                stats["samples"].append({"facet": facet.name, "case": case_repr(case)[:1500], "labels": sorted(ctx.labels)})

    test = given(facet.strategy())(lambda case: one(case))
    test = settings(
        max_examples=max(1, n_examples) + skip_first,
        deadline=None,
        database=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        derandomize=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    saved = sys.stdout, sys.stderr
    try:
        sys.stdout = sys.stderr = io.StringIO()
        test()
    except BaseException as exc:  # noqa: B902
        if state["failure"] is None and state["error"] is None:
            state["error"] = {
                "facet": facet.name,
                "case": None,
                "message": describe_exception(exc) if isinstance(exc, Exception) else repr(exc),
                "traceback": "".join(traceback.format_exception(exc))[-6000:],
            }
    finally:
        sys.stdout, sys.stderr = saved
    stats["wall"] += time.time() - began
    return state["failure"], state["error"]


def worker(prop, facets, tier, seed, shard, n_shards, stop_at, root, result_path, only):
    from harness import core

    core.set_scratch_root(os.path.join(root, f"shard{shard}"))
    os.makedirs(core.scratch_root(), exist_ok=True)
    os.chdir(core.scratch_root())
    devnull = os.open(os.devnull, os.O_WRONLY)
    log = os.open(os.path.join(root, f"shard{shard}.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.close(devnull)
    quiet_environment()
    out, failure, error = {}, None, None
    # each facet gets the share of the wall its weight asks for; unused time flows to later facets
    begin = time.time()
    facets = [f for f in facets if not only or f.name in only]
    total_weight = sum(f.weight for f in facets)
    for i, facet in enumerate(facets):
        n = getattr(facet, tier)
        shards = min(n_shards, facet.shards or n_shards)
        if shard >= shards:
            continue
        per = n // shards + (1 if shard < n % shards else 0)
        if per == 0:
            continue
        rest = sum(f.weight for f in facets[i:])
        limit = time.time() + (stop_at - time.time()) * facet.weight / rest

        def found(record):
            # kept even if this process is ended while it shrinks the failure
            with open(result_path + ".tmp", "wb") as fh:
                pickle.dump({"out": out, "failure": record, "error": None}, fh)
            os.rename(result_path + ".tmp", result_path)

        def give_up(hang):
            found(hang)
            os._exit(0)

        f, e = run_facet(facet, per, (seed * 1009 + shard) * 31 + i, limit, out, give_up, SHRINK[tier], found, skip_first=shard > 0)
        failure = failure or f
        error = error or e
        if failure:
            break
    with open(result_path, "wb") as fh:
        pickle.dump({"out": out, "failure": failure, "error": error}, fh)


def run_replay(prop, path):
    from harness.core import Context, interpret_exception, describe_exception, scratch_dir

    module = load_property(prop)
    with open(path) as fh:
        record = json.load(fh)
    facet = next(f for f in module.FACETS if f.name == record["facet"])
    quiet_environment()
    case = case_eval(record["case"])
    try:
        with scratch_dir():
            facet.check(case, Context())
    except Exception as exc:
        print(f"{interpret_exception(exc)}: {describe_exception(exc)}")
        traceback.print_exc()
        return 1 if interpret_exception(exc) == "violation" else 2
    print("replay passed: the property holds on this case")
    return 0


def known_findings():
    """Entries of known_findings.txt: `known: {json with id, property, what, ...}` and
    `fixed: property=<id> <commit> <what failed>` (the latter suppress nothing and are not read)."""
    path = os.path.join(HERE, "known_findings.txt")
    entries = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                if line.startswith("known: "):
                    entries.append({"status": "known", **json.loads(line[len("known: "):])})
    return entries


def self_test():
    """setup_cmd: everything the checks import is here."""
    import hypothesis

    for name in sorted(os.listdir(os.path.join(HERE, "harness", "props"))):
        if name.startswith("c") and name.endswith(".py"):
            load_property(name[:-3])
    print(f"hypothesis {hypothesis.__version__}, python {sys.version.split()[0]}: ready")
    return 0


def manifest_level(prop):
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as fh:
            return next(c["level"] for c in json.load(fh)["checks"] if c["property"] == prop)
    except (OSError, StopIteration):
        return "exploration"


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?", default="")
    parser.add_argument("--self-test", action="store_true")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--facet", action="append")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--labels", action="store_true")
    args = parser.parse_args(argv)
    prop = args.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    began = time.time()

    sys.pycache_prefix = None
    sys.dont_write_bytecode = True
    from harness import core

    if args.replay:
        args.replay = os.path.abspath(args.replay)
    root = core.scratch_root()
    os.chdir(root)
    # Never read a stale /repo/**/__pycache__: compile from the sources of the working tree.
    sys.pycache_prefix = os.path.join(root, "pyc")
    try:
        quiet_environment()
        if args.self_test:
            return self_test()
        try:
            if args.replay:
                return run_replay(prop, args.replay)
            module = load_property(prop)
        except Exception as exc:
            traceback.print_exc()
            frames = traceback.extract_tb(exc.__traceback__)
            print(f"ERROR property={prop} could not load: {exc!r}")
            return 2
        facets = module.FACETS
        if args.scale != 1.0:
            for f in facets:
                f.quick = max(1, int(f.quick * args.scale))
                f.thorough = max(1, int(f.thorough * args.scale))
        n_shards = N_SHARDS[args.tier]
        stop_at = time.time() + getattr(module, "WALL", WALL)[args.tier]
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for shard in range(n_shards):
            result_path = os.path.join(root, f"result{shard}.pkl")
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    worker(prop, facets, args.tier, seed, shard, n_shards, stop_at, root, result_path, args.facet)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (shard, result_path)
        # Hard stop well after generation ends: a worker that hangs is inconclusive (exit 2).
        hard = stop_at + getattr(module, "GRACE", {"quick": 240, "thorough": 600})[args.tier]
        results, crashed = [], []
        pending = dict(pids)
        early = False
        while pending:
            done = [p for p in pending if os.waitpid(p, os.WNOHANG)[0]]
            for p in done:
                shard, path = pending.pop(p)
                _killpg(p)
                if os.path.exists(path):
                    with open(path, "rb") as fh:
                        r = pickle.load(fh)
                    results.append(r)
                else:
                    crashed.append((shard, _tail(os.path.join(root, f"shard{shard}.log"))))
            if pending and time.time() > hard:
                for p, (shard, _) in pending.items():
                    _killpg(p)
                    os.waitpid(p, 0)
                    if os.path.exists(os.path.join(root, f"result{shard}.pkl")):
                        with open(os.path.join(root, f"result{shard}.pkl"), "rb") as fh:
                            results.append(pickle.load(fh))
                        continue
                    crashed.append((shard, "worker exceeded the hard time limit (hang)\n" + _tail(os.path.join(root, f"shard{shard}.log"))))
                pending = {}
            if pending and not early and any(r["failure"] for r in results):
                early = True  # give the others a little time to finish, the verdict is known
                hard = min(hard, time.time() + 20)
            time.sleep(0.02)
        if early:
            crashed = []
        return report(prop, args, seed, module, facets, results, crashed, began)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _tail(path, n=3000):
    try:
        with open(path, errors="replace") as fh:
            return fh.read()[-n:]
    except OSError:
        return ""


def report(prop, args, seed, module, facets, results, crashed, began):
    merged = {}
    for r in results:
        for name, s in r["out"].items():
            m = merged.setdefault(
                name, {"evaluations": 0, "keys": set(), "nontrivial_keys": set(), "labels": {}, "samples": [], "wall": 0.0}
            )
            m["evaluations"] += s["evaluations"]
            m["labels"] = {k: m["labels"].get(k, 0) + s["labels"].get(k, 0) for k in {*m["labels"], *s["labels"]}}
            m["keys"] |= s["keys"]
            m["nontrivial_keys"] |= s["nontrivial_keys"]
            m["wall"] = max(m["wall"], s["wall"])
            if len(m["samples"]) < MAX_SAMPLES:
                m["samples"] += s["samples"][: MAX_SAMPLES - len(m["samples"])]
    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["error"] for r in results if r["error"]]
    failures.sort(key=lambda f: (len(f["case"]), f["case"]))

    evaluations = sum(m["evaluations"] for m in merged.values())
    nontrivial = sum(len(m["nontrivial_keys"]) for m in merged.values())
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": nontrivial,
        "rule": " || ".join(f"[{f.name}] {f.rule}" for f in facets),
        "samples": [s for m in merged.values() for s in m["samples"][:2]],
        "facets": {
            name: {
                "evaluations": m["evaluations"],
                "distinct": len(m["keys"]),
                "distinct_nontrivial": len(m["nontrivial_keys"]),
                "labels": dict(sorted(m["labels"].items(), key=lambda kv: -kv[1])[:40]),
                "wall_s": round(m["wall"], 1),
            }
            for name, m in merged.items()
        },
        "shards": len(results),
    }
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": manifest_level(prop),
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - began, 2),
        "violations": 0,
    }
    os.makedirs(REPLAYS, exist_ok=True)

    status = 0
    known = {}
    if failures and hasattr(module, "match_known_finding"):
        entries = [e for e in known_findings() if e.get("property") == prop and e.get("status") == "known"]
        rest = []
        for f in failures:
            hit = module.match_known_finding(f, entries)
            if hit:
                known[hit["id"]] = hit
            else:
                rest.append(f)
        failures = rest
    for entry in known_findings():
        if entry.get("property") == prop and entry.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    if failures:
        f = failures[0]
        path = os.path.join(REPLAYS, f"{prop}_{f['facet']}_{hashlib.sha1(f['case'].encode()).hexdigest()[:10]}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, **f, "seed": seed, "tier": args.tier,
                       "replay": f"python3 run_check.py {prop} --replay {path}"}, fh, indent=1)
        print(f"[{f['facet']}] {f['message']}\ncase: {f['case'][:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        evidence["violations"] = len(failures)
        status = 1
    elif errors or crashed:
        for e in errors[:2]:
            print(f"ERROR in facet {e['facet']}: {e['message']}\ncase: {str(e['case'])[:2000]}\n{e['traceback']}")
        for shard, tail in crashed[:2]:
            print(f"ERROR shard {shard} gave no result\n{tail}")
        status = 2
    if not args.facet:
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    print(
        f"{prop} tier={args.tier} seed={seed}: {evaluations} cases, {nontrivial} distinct non-trivial, "
        f"{len(merged)} facets, {evidence['wall_s']} s, status {status}"
    )
    if args.labels:
        print(json.dumps(coverage["facets"], indent=1))
    return status
