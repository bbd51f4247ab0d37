"""C20: logs are complete and read back to what happened."""
import csv
import datetime
import math
import os
import random

import pandas as pd
from hypothesis import strategies as st

from gama.genetic_programming.components import Fitness
from gama.logging.GamaReport import GamaReport
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from gama.utilities.evaluation_library import Evaluation
from gama.utilities.generic.async_evaluator import AsyncEvaluator
from gama.utilities.metrics import Metric
from harness import gen, kit
from harness.core import Facet, require, seed_all

ASSUMPTIONS = [
    "the components of pipelines are those of the default search spaces, as for any report",
    "the name of the output directory has no comma, equals sign or newline",
    "a report is read between, not during, the writing of two lines", "error texts can be encoded",
]

METRICS = {"clf": ["neg_log_loss", "accuracy", "f1_macro", "roc_auc"], "reg": ["r2", "neg_mean_squared_error", "neg_mean_absolute_error"]}
SCRIPTED = []


def scripted(position, **kwargs):
    return SCRIPTED[position]


texts = st.one_of(
    st.sampled_from(["plain", "a;b", "two\nlines", 'say "hi"', "semi; and\nline;", "tab\tx", "'single'", "ends;", '"', "\n", "a\r\nb", "x" * 500, "été", "STOP: not a phase after 1.0s.",
                     "[2020-01-01 00:00:00,000 - gama.gama] INIT:X(a=b)", "INIT:Fake(scoring=r2)", ";;;", "comma, separated", "#x", "\\", "(1,2)"]),
    st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=591, exclude_categories=["Cs", "Cc"]), max_size=30),
)


durations = st.one_of(st.just(0.0), st.floats(0, 5).map(lambda v: round(v, 4)), st.floats(0, 100_000).map(lambda v: round(v, 4)))


@st.composite
def cases(draw):
    task = draw(st.sampled_from(["clf", "reg"]))
    method = draw(st.sampled_from(["AsyncEA", "RandomSearch", "AsynchronousSuccessiveHalving"]))
    n_metrics = draw(st.integers(1, 2))
    metrics = draw(st.permutations(METRICS[task]))[:n_metrics]
    n = draw(st.integers(0, 9))
    evaluations = []
    for _ in range(n):
        failed = draw(st.integers(0, 3)) == 0
        evaluations.append({
            "score": [None if failed else draw(st.one_of(gen.nice_floats, st.floats(-1, 1)))for _ in metrics],
            "error": "<class 'ValueError'> " + draw(texts) if failed or draw(st.integers(0, 4)) == 0 else None,
            "again": draw(st.integers(0, 7)) == 0,
            "start": draw(st.integers(0, 10**9)), "micro": draw(st.integers(0, 999999)), "wall": draw(st.floats(0, 1e4)), "process": draw(st.floats(0, 1e4)),
            "pid": draw(st.integers(1, 10**6)), "parents": draw(st.integers(0, 2)), "origin": draw(st.sampled_from(["new", "cx", "mut_replace_terminal"])),
            "rung": draw(st.integers(0, 3)), "subsample": draw(st.sampled_from([0.125, 0.375, 1.0, 500])),
        })
    return {
        "task": task, "method": method, "metrics": metrics, "scoring": draw(st.sampled_from(["text", "tuple", "list", "metric"])), "evaluations": evaluations,
        "regularize": draw(st.booleans()), "population": draw(st.sampled_from([None, 3, 50])), "factor": draw(st.sampled_from([None, 2, 3])),
        "seed": draw(gen.seeds), "cuts": draw(st.lists(st.integers(0, n), max_size=4)), "length": draw(st.sampled_from([None, 1, 3])),
        "time": draw(st.sampled_from([600, 3600, 77])), "random_state": draw(st.sampled_from([None, 3])), "store": draw(st.sampled_from(["logs", "all"])),
        "dir": draw(st.sampled_from(["out", "out (1)", "my run", "gama_x.y", "out(2)"])), "memory": draw(st.sampled_from([None, 4000])),
        "fake": draw(st.booleans()), "took": [draw(durations) for _ in range(2)], "repeat": draw(st.integers(0, 5)) == 0, "late": draw(st.integers(0, 2)) == 0,
    }


def search_of(case):
    if case["method"] == "AsyncEA":
        return AsyncEA(population_size=case["population"])
    if case["method"] == "RandomSearch":
        return RandomSearch()
    return AsynchronousSuccessiveHalving(reduction_factor=case["factor"])


def number(v):
    return float(v)


def same_number(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def check(case, ctx):
    seed_all(case["seed"])
    scoring = {"text": case["metrics"][0], "tuple": tuple(case["metrics"]), "list": list(case["metrics"]), "metric": [Metric(m) for m in case["metrics"]]}[case["scoring"]]
    names = [case["metrics"][0]] if case["scoring"] == "text" else list(case["metrics"])
    expected = []
    reports = []
    search = search_of(case)
    directory = os.path.join(os.getcwd(), case["dir"])

    def program(operations, start_candidates):
        individuals = [operations.individual() for _ in case["evaluations"]]
        with AsyncEvaluator() as evaluator:
            for i, e in enumerate(case["evaluations"]):
                for _ in range(case["cuts"].count(i)):
                    look()
                ind = individuals[i - 1] if e["again"] and i else individuals[i]
                individuals[i] = ind
                score = tuple(float("-inf") if s is None else float(s) for s in e["score"][: len(names)])
                if case["regularize"]:
                    score = score + (-len(ind.primitives),)
                start = datetime.datetime(2001, 2, 3) + datetime.timedelta(seconds=e["start"], microseconds=e["micro"])
                ind.fitness = Fitness(score, start, e["wall"], e["process"])
                ind.meta = {"origin": e["origin"], "parents": [f"p{k}" for k in range(e["parents"])], "rung": e["rung"], "subsample": e["subsample"]}
                SCRIPTED.append(Evaluation(ind, None, score, None, start_time=start, duration=e["wall"], error=e["error"], pid=e["pid"]))
                expected.append({"id": str(ind._id), "pid": e["pid"], "start": start, "wall": e["wall"], "process": e["process"], "score": score, "pipeline": ind.pipeline_str(),
                                 "error": e["error"], "parents": ind.meta["parents"], "origin": e["origin"], "rung": e["rung"], "subsample": e["subsample"]})
                evaluator.submit(scripted, i)
                operations.wait_next(evaluator)
            for _ in range(case["cuts"].count(len(case["evaluations"]))):
                look()
        clock.advance(case["took"][0])
        search.output = []

    def look(phases=1):
        if not reports:
            reports.append(GamaReport(directory))
            ctx.label("report during the search" if phases == 1 else "report during post-processing")
        else:
            reports[0].update()
            ctx.label("report updated during the search")
        check_report(case, ctx, reports[0], expected, names, begin, phases)

    search.search = program
    del SCRIPTED[:]
    settings = dict(max_total_time=case["time"], regularize_length=case["regularize"], max_pipeline_length=case["length"], random_state=case["random_state"], store=case["store"],
                    max_memory_mb=case["memory"], n_jobs=2)
    post = kit.RecordingPostProcessing()
    finish = post.post_process

    def post_process(*args, **kwargs):
        if case["late"]:
            look(phases=2)
        clock.advance(case["took"][1])
        return finish(*args, **kwargs)

    post.post_process = post_process
    with kit.clean_gama(), kit.simulated_clock() as clock, kit.SyncEvaluator():
        begin = clock.now
        g = kit.make_gama(case["task"], scoring=scoring, search=search, post_processing=post, output_directory=directory, **settings)
        x, y = kit.numeric_xy(case["task"])
        if case["fake"]:
            import logging

            logging.getLogger("gama.genetic_programming.operator_set").warning("Error raised during evaluation: STOP: total no. of iterations INIT:X(y=z).")
        g.fit(x, y)
        # ---- the evaluation log, read independently
        with open(os.path.join(directory, "evaluations.log"), newline="", encoding="utf-8") as fh:
            rows = list(csv.reader(fh, delimiter=";"))
        header, rows = rows[0], rows[1:]
        require(len(rows) == len(expected), "not one record per evaluation", len(rows), len(expected))
        for row, e in zip(rows, expected):
            require(len(row) == len(header), "a record with another number of fields", row, header)
            record = dict(zip(header, row))
            require(record["id"] == e["id"] and int(record["pid"]) == e["pid"], "wrong identity", record, e)
            require(datetime.datetime.strptime(record["t_start"], "%Y-%m-%d %H:%M:%S,%f") == e["start"], "wrong start", record, e)
            require(float(record["t_wallclock"]) == e["wall"] and float(record["t_process"]) == e["process"], "wrong duration", record, e)
            values = [float(v) for v in record["score"].strip("()").split(",") if v.strip()]
            require(len(values) == len(e["score"]) and all(map(same_number, values, e["score"])), "wrong score", record, e)
            require(record["pipeline"] == e["pipeline"] and record["error"] == str(e["error"]), "wrong pipeline or error", record, e)
            if case["method"] == "AsyncEA":
                require([p for p in (record["parent0"], record["parent1"]) if p] == e["parents"] and record["origin"] == e["origin"], "wrong parents or origin", record, e)
            if case["method"] == "AsynchronousSuccessiveHalving":
                require(int(record["rung"]) == e["rung"] and float(record["subsample"]) == float(e["subsample"]), "wrong rung", record, e)
        # ---- the report
        report = GamaReport(directory)
        check_report(case, ctx, report, expected, names, begin, 3)
        hp = report.hyperparameters
        for name, value in settings.items():
            require(hp.get(name) == str(value), "wrong hyperparameter", name, hp)
        require(hp["search"] == case["method"] == report.search_method, "wrong search method", hp)
        require(hp["output_directory"] == directory, "wrong output directory", hp)
        if case["method"] == "AsyncEA":
            require(hp.get("population_size") == (None if case["population"] is None else str(case["population"])), "wrong setting of the search", hp)
        if case["method"] == "AsynchronousSuccessiveHalving":
            require(hp.get("reduction_factor") == (None if case["factor"] is None else str(case["factor"])), "wrong setting of the search", hp)
        again = report.update()
        require(again is False and len(report.evaluations) == len(expected), "a complete report changed when updated")
        if reports:
            reports[0].update()
            check_report(case, ctx, reports[0], expected, names, begin, 3)
            require(reports[0].phases == report.phases, "phases differ for an updated report")
            require(len(expected) == 0 or gen.frames_identical(reports[0].evaluations, report.evaluations), "a report that was updated differs from one read at once",
                    lambda: reports[0].evaluations.to_dict(), lambda: report.evaluations.to_dict())
    ctx.nontrivial(len(expected) > 1 and any(e["error"] for e in expected))
    ctx.label(case["method"], f"{len(names)} metrics as {case['scoring']}", "length" if case["regularize"] else "no length")
    if any(e["error"] and any(c in e["error"] for c in ';"\n\r') for e in expected):
        ctx.label("error that needs quoting")


def check_report(case, ctx, report, expected, names, begin, n_phases):
    metrics = names + (["length"] if case["regularize"] else [])
    require(report.metrics == metrics, "wrong metrics", report.metrics, metrics)
    require(bool(report.incomplete) == (n_phases < 3), "wrong completeness", report.incomplete)
    phases = [["preprocessing", "default"], ["search", case["method"]], ["postprocess", "_Recording"]][:n_phases]
    require([list(p[:2]) for p in report.phases] == phases, "wrong phases", report.phases)
    moment = begin
    for (_, _, started, duration), took in zip(report.phases, [0.0] + case["took"]):
        require(abs(duration - took) < 1e-4, "wrong duration of a phase", duration, took)
        require(abs((started - datetime.datetime.fromtimestamp(moment)).total_seconds()) < 0.01, "wrong start of a phase", started, datetime.datetime.fromtimestamp(moment))
        moment += took
    df = report.evaluations
    require(len(df) == len(expected), "not the evaluations of the run", len(df), len(expected))
    if not expected:
        return
    require(list(df.id) == [e["id"] for e in expected] and list(df.n) == list(range(len(expected))), "wrong evaluations or order", list(df.n))
    require(list(df.pipeline) == [e["pipeline"] for e in expected], "wrong pipelines")
    require(list(df.start) == [pd.Timestamp(e["start"]) for e in expected], "wrong start times")
    for got, e in zip(df.duration, expected):
        require(abs(got.total_seconds() - e["wall"]) <= 1e-6, "wrong duration", got, e["wall"])
    for got, e in zip(df.error, expected):
        require(gen.same(got, e["error"]), "wrong error", got, e["error"])
    for i, metric in enumerate(metrics):
        values = [e["score"][i] for e in expected]
        require(all(map(same_number, map(float, df[metric]), values)), "wrong scores", metric, list(df[metric]), values)
        best = [max(values[: k + 1]) for k in range(len(values))]
        require([float(v) for v in df[f"{metric}_cummax"]] == best, "wrong best so far", metric, list(df[f"{metric}_cummax"]), best)
    first = min(e["start"] for e in expected)
    for got, e in zip(df.relative_end, expected):
        want = (e["start"] - first).total_seconds() + e["wall"]
        require(abs(got - want) < 1e-5, "wrong relative end", got, want)
    good = [e["id"] for e in expected if all(math.isfinite(s) for s in e["score"])]
    require(list(report.successful_evaluations.id) == good, "wrong successful evaluations", list(report.successful_evaluations.id), good)
    require(set(report.individuals) == {e["id"] for e in expected}, "wrong individuals")
    for e in expected:
        require(report.individuals[e["id"]].pipeline_str() == e["pipeline"], "an individual is not the pipeline of its evaluation", report.individuals[e["id"]].pipeline_str(), e["pipeline"])


FACETS = [
    Facet("report", cases, check, quick=500, thorough=12000,
          rule="runs of the three search methods with generated evaluations, error texts and settings, their logs read by an independent parser and by reports made or updated at any point; "
               "non-trivial: several evaluations, with an error among them"),
]
