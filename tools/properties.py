"""Writes properties.jsonl (run after editing)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


CACHE = "src/spey/system/cache.py"
SM = "src/spey/interface/statistical_model.py"
HB = "src/spey/base/hypotest_base.py"
WEB = "src/spey/system/webutils.py"
COMB = "src/spey/combiner/uncorrelated_statistics_combiner.py"
CONT = "src/spey/multiparameter/contour.py"
LOG = "src/spey/system/logger.py"
INIT = "src/spey/__init__.py"
DPDF = "src/spey/backends/default_pdf/__init__.py"
SPDF = "src/spey/backends/default_pdf/simple_pdf.py"
DIST = "src/spey/backends/distributions.py"
UL = "src/spey/hypothesis_testing/upper_limits.py"
CORE = "src/spey/optimizer/core.py"
SCIPY = "src/spey/optimizer/scipy_tools.py"

prop("C01", "A cached call returns the value for exactly its own arguments",
     "Whenever a function or method whose results are cached returns, it returns a result that this very function computed "
     "for arguments equal to the caller's arguments as they were at the time of the call, however look-alike other arguments are "
     "(array contents, shapes, dtypes, nesting, arrays of objects, dictionaries) and in whichever form they were passed. "
     "With copying enabled, nothing a caller does to a returned object or to its arguments afterwards, and nothing the function later does to an object it returned, shows in any other result. "
     "A call that starts after a completed clear never returns something computed before that clear.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "all interleavings of calls, failures and clears; all argument values",
     "The tests call cached functions from one thread or from a barrier with a handful of arguments; they do not choose interleavings, "
     "do not mix clears and failures with calls, and use few look-alike arguments.",
     [CACHE], [("content based argument key", CACHE + ":_make_token"), ("deep copy on return", CACHE + ":cache_results")],
     [("cache", "results by argument key", CACHE)], ["return values of decorated functions"])

prop("C02", "Concurrent identical calls of a cached function are evaluated once",
     "While one caller evaluates a cached function for some arguments, no other caller evaluates it for equal arguments: the others wait and "
     "share the result. Once a result has been computed it is not computed again unless it was cleared, the evaluation failed, or it "
     "had to make room for newer results.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of up to four threads with clears, failures and evictions",
     "Two tests race threads under the operating system's schedule with a sleep in the function; the narrow windows (between lookup and registration, between "
     "a failure and the retry, around clears and evictions) are not reached on purpose.",
     [CACHE], [("in-flight marker and per-key event", CACHE)], [("events", "calls being computed", CACHE)], ["evaluations of the function"])

prop("C03", "Every call of a cached function returns or raises its own exception",
     "Every call of a cached function ends whenever the evaluations it depends on end, whatever other callers do: evaluations that raise any exception "
     "(including interrupts), clears and evictions in any order never leave a caller waiting forever or make later calls fail. A caller only ever sees an exception "
     "raised by an evaluation it performed itself.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings and all positions of failures, clears and evictions",
     "The tests fail one evaluation at a time without controlling where the waiting threads are; a lost wake-up needs a specific interleaving.",
     [CACHE], [("event set on every exit path", CACHE), ("retry after a failed evaluation", CACHE)], [("events", "calls being computed", CACHE)], ["completion of calls"])

prop("C04", "A bounded cache keeps exactly its newest results",
     "A cache with a size limit never holds more results than the limit, reports its size correctly, and holds exactly the most recently computed results: "
     "the oldest is dropped when a new one needs its place, failed evaluations take no place, and clearing leaves nothing. This holds after any concurrent history.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all histories for limits 1.. and unlimited, after any concurrent phase",
     "The tests check one eviction sequence from one thread.",
     [CACHE], [("FIFO order of completed entries", CACHE)], [("order", "completed keys, oldest first", CACHE)], ["cache_info", "get_cache", "evaluations"])

prop("C05", "Cached results belong to one object and live as long as it does",
     "Results cached by a method belong to the object (and to the very method, overridden or not) that computed them: copies, deep copies, unpickled objects, equal objects and objects that later "
     "occupy the same memory compute their own, and a method that calls the overridden one gets that one's results. The results are kept while the object lives, and neither the results nor the object "
     "are kept alive by the cache once the object is dropped.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of creation, copying, querying, clearing and dropping of objects, also from several threads",
     "Tests create two objects and compare; address reuse, copies of queried objects, super() calls and release need longer histories and garbage collections at chosen places.",
     [CACHE, SM], [("per-object cache registry with weak references", CACHE)], [("per-object caches", "one cache per object and method", CACHE)], ["return values", "weak references"])

prop("M01", "A model's answer does not depend on what it was asked before",
     "Every query of a statistical model (likelihoods, fits, Asimov data, limits, confidence levels, significance, chi-square, samples) gives the same answer as on a freshly built model under the same settings (the chosen "
     "optimiser included), whatever was asked before in whatever order, with whatever options, and whatever the caller did to earlier answers.",
     ["histories", "configurations"],
     "all sequences of queries on one model",
     "Every test builds a model and asks a few questions in a fixed order; interference between queries needs particular pairs of queries.",
     [SM, HB, DPDF, SPDF, CORE, CACHE, DIST],
     [("models are immutable, fits copy their configuration", CORE), ("cached fits keyed by all arguments", SM)],
     [("lazily built likelihood objects", "built on first use, shared by all queries", DPDF)], ["public query methods of StatisticalModel"])

prop("M02", "Threads that share a model get the answers of a serial program",
     "When several threads query the same statistical model (or several models, or a combination sharing them), every query gives the answer it gives when it is asked alone, and all queries finish.",
     ["schedules"],
     "all interleavings of queries from several threads on shared models, at source line granularity",
     "No test queries a model from two threads.",
     [SM, DPDF, SPDF, DIST, CACHE, COMB], [("no mutable state shared between queries", SM), ("cached fits", CACHE)],
     [("lazily built likelihood objects", "built on first use, shared by all queries", DPDF)], ["public query methods from threads"])

prop("M03", "Queries and model construction never modify the caller's arguments",
     "No constructor, query, combination, test or contour call modifies an object passed in by the caller (arrays, lists, bounds, options, dictionaries, data), whether it succeeds, fails or is retried, and "
     "modifying those objects after a query does not change the answers of queries that were given other arguments.",
     ["inputs", "histories", "fault_sequences"],
     "all calls with mutable arguments, also when fits fail and are retried",
     "Tests do not compare their arguments before and after the calls.",
     [SM, CORE, SCIPY, HB, COMB, DPDF, SPDF], [("copies of caller supplied containers", SCIPY)], [], ["the arguments after the call"])

prop("M04", "A failing or interrupted query leaves the model fully usable",
     "When the likelihood, the gradient, the data generator, the sampler or the optimiser of a query raises any exception (also an interrupt), at any evaluation, exactly that exception reaches the caller (or the answer is given "
     "without what failed), and every query made afterwards gives the answer it gives on a fresh model.",
     ["fault_sequences", "crash_points", "histories"],
     "a failure at any evaluation of any plugin function during any query, followed by any queries",
     "Tests make whole methods unavailable; none fails in the middle of a fit and continues to use the model.",
     [SM, HB, CACHE, CORE, SCIPY, COMB], [("failed evaluations are not cached", CACHE)], [], ["exceptions and later answers"])

prop("O01", "A non-converging fit is retried exactly as promised and then reported",
     "A fit that does not converge is retried from where it stopped, at most the requested number of times (`ntrials`), within bounds widened as documented (the upper bound of the parameter of interest doubled, the bounds of the others moved outwards), so that every "
     "retry is allowed at least the region of the previous one, while the parameter of interest's lower bound and fixed parameters stay unchanged; "
     "it stops at the first success, returns the last attempt's result, and a fit that never converged is reported by a warning.",
     ["fault_sequences", "configurations"],
     "all sequences of converging and failing optimiser outcomes, bounds (open ones too), fixed parameters and numbers of trials",
     "Real optimisers rarely fail on the tests' models; the retry loop is run by few tests with one bound pattern.",
     [SCIPY, CORE], [("retry loop with widening bounds", SCIPY)], [], ["calls of the optimiser", "returned parameters", "log"])

prop("U01", "Limit searches end after a bounded amount of work",
     "Searching an upper limit, a confidence level, a significance or a chi-square limit ends after a bounded number of likelihood evaluations with a number (possibly inf or nan) or an exception that tells what is undefined (not a programming error such as a TypeError), whatever the likelihood returns "
     "(flat, infinite, not-a-number, discontinuous, noisy or alternating values), whatever bracket the user starts from and whatever the optimiser does. Where the likelihood is a function of the signal strength, a limit without a crossing is inf or nan, not a root finder's complaint about its bracket.",
     ["fault_sequences", "inputs"],
     "all behaviours of the likelihood, including values that change over time",
     "The tests use well behaved likelihoods; one stubs a failing bracket.",
     [UL, HB, COMB], [("iteration limits of the bracket search", UL)], [], ["number of likelihood evaluations", "outcome"])

prop("T01", "Results are reproducible from the seed",
     "Starting from the same random state, the same queries give the same samples and toy-based results, and queries that do not sample neither depend on nor advance the random state, whatever was asked in between.",
     ["histories", "inputs"],
     "all histories of sampling and deterministic queries, all seeds",
     "Tests fix one seed and check one draw; the interplay with other queries is not exercised.",
     [DIST, SM, "src/spey/hypothesis_testing/toy_calculator.py", CONT], [("numpy's global random state is the only source of randomness", DIST)], [], ["samples", "numpy random state"])

prop("T02", "Pseudo-data have the shape and distribution of the model at the given point",
     "Pseudo-data drawn from a model at a parameter point are arrays with one row of observed bins (and auxiliary measurements if requested) per requested sample, for every number of samples, bins and constraints, and their means and spreads are those of the "
     "model's distributions at this very point; samplers with a fixed parameter of interest draw at the best fit for this value, and a toy based level is computed from exactly the data that were drawn, the requested number of them per hypothesis.",
     ["inputs", "histories"],
     "all models, parameter points, sample sizes and random states",
     "Tests draw from one model and size and compare one number.",
     [DIST, SM, DPDF, "src/spey/hypothesis_testing/toy_calculator.py"], [("samplers of the distributions", DIST)], [("numpy random state", "only source of randomness", DIST)], ["samples", "toy based levels"])

prop("L01", "Process-wide settings are as before after every query, also a failed one",
     "Any query (of models, backends, citations or updates) leaves the process-wide settings it may use for itself as they were: the log level, handlers and filters, the warning filters, the floating point error state, the environment, the import path, the time-out of sockets and the working directory, "
     "whether it returns or fails in whatever place.",
     ["fault_sequences", "crash_points", "histories"],
     "all queries and all places where a plugin or the optimiser may fail",
     "Tests do not compare these settings before and after a call, in particular after a failure.",
     [LOG, UL, HB, SCIPY, COMB, CONT], [("context managers around log capture and warnings", LOG)], [("Spey logger", "level, handlers, filters", LOG)], ["process-wide settings"])

prop("L02", "Overlapping queries of several threads do not corrupt process settings",
     "When queries, or log captures, of several threads overlap in time in any way, after all have ended the log level, handlers and filters and the warning filters are as before the first began, each log capture window has seen every message of its own thread and no message of others "
     "while it was open, and a later message reaches the handlers exactly once.",
     ["schedules", "fault_sequences"],
     "all interleavings of capture windows and queries, with failures inside the windows",
     "No test overlaps two capture windows.",
     [LOG, UL, HB, SCIPY], [("re-entrant, thread aware log capture", LOG)], [("Spey logger", "level, handlers, filters", LOG)], ["log records", "logger and warnings state"])

prop("W01", "The update check never raises and never blocks the import for long",
     "Checking for updates ends without an exception and within a few seconds whatever the network, the remote server, the clock, the home directory and the cached files do: refused, slow, broken or malformed answers, "
     "missing, unreadable, corrupted, full or read-only storage. When the check is switched off (SPEY_CHECKUPDATE=OFF) neither network nor storage is touched.",
     ["fault_sequences", "crash_points", "inputs"],
     "all network answers and delays, file contents and I/O failures",
     "Tests stub a few answers; they do not fail individual file operations or corrupt the cache.",
     [WEB, INIT], [("catch-all around the update check", WEB), ("timeout of the request", WEB)], [("update cache file", "last answer with its time", WEB)], ["outcome and virtual duration"])

prop("W02", "At most one update query per day while storage works",
     "While the cache directory works, at most one query is sent to the package index within 24 hours of the last successful one, also over process restarts and with several processes at once once one of them has stored its answer, and a new query is made once 24 hours have passed.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of process starts, clock values and answers; interleavings of processes",
     "Tests use one process and one clock value.",
     [WEB], [("answer stored with its time in the home directory", WEB)], [("update cache file", "last answer with its time", WEB)], ["requests sent"])

prop("W03", "Update messages state what the package index really answered",
     "A message about available updates names the version the package index really gave in its last answer (not older than 24 hours) and appears exactly when that version calls for it; error answers, malformed answers and damaged caches never produce a message and are never remembered as an answer.",
     ["fault_sequences", "inputs", "histories"],
     "all answers, cached files and histories",
     "Tests stub one good and a few bad answers without a history.",
     [WEB], [("validation of the answer before caching", WEB)], [("update cache file", "last answer with its time", WEB)], ["log messages"])

prop("W04", "The update cache heals itself and leaves foreign files alone",
     "Whatever crash, full disk or corruption happened before, one undisturbed update check brings the cache back into working order; checks made one after the other leave a single cache file, a crash at any point never loses the only valid answer before a new one is stored, and files that do not belong to the cache are never touched.",
     ["crash_points", "fault_sequences", "histories"],
     "a crash or I/O error at every file operation",
     "Tests write one cache file; no crash points.",
     [WEB], [("new answer written before old ones are removed", WEB)], [("update cache file", "last answer with its time", WEB)], ["files in the cache directory"])

prop("B01", "Citation retrieval ends in entries, an empty answer or the documented error",
     "Retrieving citation information ends, for every behaviour of the remote services, in bounded time with the services' genuine entries, in empty entries, or in the documented outcome for a failed connection; an error page or an HTML page is never presented as a citation, a failure of one lookup does not drop the entries of a backend that were already retrieved, and as long as no connection fails every identifier is looked up, at doi.org exactly when INSPIRE has no entry for a DOI.",
     ["fault_sequences", "inputs"],
     "all combinations of answers, status codes, delays and connection failures over the lookups",
     "The tests stub a few single answers; the network tests cannot run offline.",
     [WEB, INIT], [("status and exception handling of the lookups", WEB)], [], ["returned entries"])

prop("R01", "The backend registry stays consistent under every history",
     "After any history of registrations, rescans and lookups, also from several threads and with backends that fail to load, every available name can be looked up and gives exactly the backend registered or installed under it, a name is registered at most once, registered backends stay available over rescans, invalid backends are refused with the documented exception and without trace, and failures affect only the failing name.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of registrations, rescans, lookups and plugin failures",
     "Tests register single backends; no failing plugins, no interleavings.",
     [INIT], [("registry with duplicate check", INIT)], [("backend registry", "backend per name", INIT)], ["AvailableBackends", "get_backend", "get_backend_metadata"])

prop("K01", "A combined model is always the sum of its current members",
     "After any history of appending, removing and querying members, a combination's log-likelihoods, fits and limits are those of the sum of its current members' log-likelihoods, each with its own data and options; analysis names stay unique, every member is found by its name and position, rejected or failing operations change nothing, and an optimum reported is not worse than the members' sum at any tried point.",
     ["histories", "fault_sequences"],
     "all histories of appending, removing, querying, failing members",
     "Tests build one combination and check a few numbers.",
     [COMB], [("sum over the current members", COMB)], [("members", "statistical models by analysis name", COMB)], ["public methods of the combiner"])

prop("P01", "Contours do not depend on how the chains are executed",
     "For a given seed, finding a contour gives the same result whether the chains run one after the other or in any number of workers, in whatever order they finish, and a worker that crashes or cannot be started leads to the same result or to an exception, never to a silently different contour.",
     ["schedules", "fault_sequences", "configurations"],
     "all completion orders, worker counts and worker failures",
     "Tests run with one job on small models.",
     [CONT], [("independent seeded chains", CONT), ("parallel map of chains", CONT)], [], ["find_contour results"])

prop("P02", "Every reported contour point is on the contour and within bounds",
     "Every point reported for a contour is finite, within the requested bounds, and has the requested likelihood level within tolerance, whatever the optimiser and the likelihood do (failed projections, undefined regions, non-convergence); unreachable contours give an error or no points instead of wrong ones.",
     ["fault_sequences", "inputs"],
     "all optimiser failures and likelihood shapes",
     "Tests check points of one or two smooth models with a working optimiser.",
     [CONT], [("projection onto the contour with convergence test", CONT)], [], ["find_contour results"])

# ---------------------------------------------------------------- not decided by this family
prop("N01", "Likelihood values and gradients of the default backends are correct",
     "The log-likelihoods, gradients and Hessians of the built-in backends equal their mathematical definitions for every valid model and parameter point.",
     ["inputs"], "all models and parameter points", "Tests compare a few numbers.", [DPDF, SPDF, DIST], [("pdf definitions", DIST)])
prop("N02", "Confidence levels follow the asymptotic and toy formulae",
     "Confidence levels, p-values, significances and upper limits equal the documented formulae applied to the likelihood, and a limit's confidence level equals the requested one.",
     ["inputs"], "all likelihoods", "Tests compare a few numbers.", [HB, UL, "src/spey/hypothesis_testing/test_statistics.py"], [("formulae", HB)])
prop("N03", "Third moments and synthesised uncertainties follow their definitions",
     "Third moments, effective sigmas and synthesised signal uncertainties equal their documented definitions for all inputs.",
     ["inputs"], "all inputs", "Tests compare a few numbers.", ["src/spey/backends/default_pdf/third_moment.py", "src/spey/backends/default_pdf/uncertainty_synthesizer.py"],
     [("definitions", "src/spey/backends/default_pdf/third_moment.py")])
prop("N04", "Parameter names, indices and bounds are resolved consistently",
     "Parameter names and indices always resolve to the same parameter, unknown ones are refused, and derived bounds contain the requested values.",
     ["inputs"], "all configurations", "Tests check a few configurations.", ["src/spey/base/model_config.py"], [("resolution", "src/spey/base/model_config.py")])
prop("N05", "Helper functions for correlations and merging are exact",
     "Covariance/correlation conversions and the merging of correlated bins are exact inverses and conserve totals for every valid input.",
     ["inputs"], "all inputs", "Tests compare a few numbers.", ["src/spey/helper_functions.py"], [("helpers", "src/spey/helper_functions.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
