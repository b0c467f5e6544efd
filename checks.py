"""What each property's check runs."""
BASE = ["dal/platform", "dal/string", "dal/utilities", "dal/time", "dal/currency", "dal/math/cell", "dal/math/vectors",
        "dal/storage/archive", "dal/math/matrix/matrixutils"]
CONC = ["dal/concurrency", "dal/platform/host", "dal/string", "dal/utilities"]
SCRIPT = BASE + ["dal/storage/globals", "dal/storage/box", "dal/script/parser", "dal/script/event", "dal/protocol", "dal/math/aad",
                 "dal/concurrency", "dal/indice"]
MODEL = ["dal/string", "dal/utilities", "dal/platform", "dal/time", "dal/currency", "dal/storage", "dal/math", "dal/model", "dal/indice",
         "dal/protocol", "dal/concurrency", "dal/curve"]
SIM = SCRIPT + ["dal/script", "dal/model", "dal/math", "public/src"]
AAD = ["dal/math/aad", "dal/math/specialfunctions", "dal/math/interp", "dal/string", "dal/utilities", "dal/platform", "dal/time",
       "dal/storage/archive", "dal/storage/globals", "dal/storage/box", "dal/math/cell", "dal/currency", "dal/math/vectors", "dal/math/matrix"]
RANDOM = AAD + ["dal/math/random"]
LINALG = BASE + ["dal/math/matrix"]
CURVES = BASE + ["dal/curve", "dal/math/interp", "dal/math/smooth"]
REPO = BASE + ["dal/storage/globals", "dal/storage/box"]
INDEX = REPO + ["dal/indice", "dal/protocol", "dal/math/aad", "dal/concurrency"]
CONTEXT = BASE + ["dal/storage", "dal/indice", "dal/protocol", "dal/math"]
CHECKS = {
    "P01": dict(
        runs=[dict(cfg="tsan", harness="pool", srcs=["dal/concurrency"], shards=4, parallel=2),
              dict(cfg="asan", harness="pool", srcs=["dal/concurrency"], shards=4, parallel=2)],
        rule="random histories of concurrent submissions, nested spawns, throwing tasks, helping waits, stops and restarts with 1-8 "
             "threads; distinct by thread count and case; trivial when the pool has no worker",
        require={"tasks": 5000, "nested-tasks": 100, "waits-that-helped": 50, "rendezvous": 50, "stop-start-cycles": 50,
                 "tasks-run-by-waiter": 50},
    ),
    "P02": dict(
        runs=[dict(cfg="tsan", harness="queue", srcs=["dal/concurrency"], shards=4, parallel=2),
              dict(cfg="asan", harness="queue", srcs=["dal/concurrency"], shards=4, parallel=2)],
        rule="recorded multi-thread histories with unique values; short ones checked for linearizability by exhaustive search, long "
             "ones for conservation and real-time order; blocked consumers of one item each, all of which must be woken; distinct by observed operation order and results; trivial when no two operations overlap",
        require={"history-operations": 10000, "overlapping-operations": 500, "items-delivered": 10000, "interrupt-rounds": 100,
                 "consumers-woken": 4000},
    ),
    "P03": dict(
        runs=[dict(cfg="asan", harness="sim", srcs=SIM, env={"SIM_PART": "replay"}),
              dict(cfg="tsan", harness="sim", srcs=SIM, env={"SIM_PART": "replay"}, args=["--section", "concurrent"], shards=4)],
        rule="random scripts, models, generators (with and without bridge), path counts around the batch size and thread counts 1-8, "
             "compared with a one-thread replay in which every path has a fresh evaluator; several callers at once; unknown generators must "
             "raise; distinct by script, paths and generator; trivial when the payoff is zero or not finite",
        require={"simulations": 1000, "multi-batch": 400, "concurrent-simulations": 300, "errors-raised": 100, "public-valuations": 100,
                 "faults": 40},
        assumptions=["the Sobol generator cannot be linked at this commit (no definition of NewSobol): the two pseudo-random generators are used"],
    ),
    "P09": dict(
        runs=[dict(cfg="asan", harness="aad", scale=5, srcs=AAD),
              dict(cfg="tsan", harness="aad", srcs=AAD, args=["--section", "threads"], shards=4)],
        rule="random programs over every operation and operand pattern (shared, in-place, branching), placed across the ends of the tape's "
             "blocks, in random histories of rewinds, marks, clears and several results, and on several threads; derivatives compared with an "
             "independent forward-mode interpreter; distinct by program",
        require={"operations": 8000, "derivatives": 40000, "episodes": 3000, "placed-at-node-block-end": 150, "placed-at-argument-block-end": 150,
                 "marked-calculations": 4000, "multi-derivatives": 5000, "long-calculations": 8, "thread-runs": 1500, "clears": 300, "rewinds": 1000},
        assumptions=["points without a derivative (ties of min and max, zero of the absolute value, edges of the domain of log, sqrt and pow) are excluded"],
    ),
    "P10": dict(
        runs=[dict(cfg="asan", harness="sim", srcs=SIM, env={"SIM_PART": "greeks"})],
        rule="random scripts with up to three differentiable constants, both models, interpreted (smoothed) and compiled: sensitivities "
             "compared with exact forward-mode derivatives of an independent path simulator and payoff interpreter on the same random numbers; "
             "inside smoothing zones with central differences; distinct by script and branches; trivial when spot and second parameter have no effect",
        require={"sensitivities": 20000, "nonzero-sensitivities": 8000, "constant-sensitivities": 1000, "conditional-smoothed": 400,
                 "conditional-compiled": 500, "multi-batch-runs": 150, "interleaved-runs": 50, "bumped": 400, "public-valuations": 50, "public-smoothed": 100,
                 "results-by-name": 20000},
        assumptions=["paths on a kink, on a node of the volatility surface or with intermediate sizes beyond 1e9 are not compared",
                     "constants used in past events are history: only their use in remaining events is differentiated"],
    ),
    "P11": dict(
        runs=[dict(cfg="asan", harness="archive", scale=2, srcs=["dal"])],
        rule="random objects of every storable kind and of a kind with members of every type, alone and composed into graphs with shared objects, "
             "written to JSON (text, file) and to tables (in memory, delimited file) and read back: everything they write about themselves, their "
             "behaviour (values, curves, sequences, report entries) and the pattern of sharing compared; chains of up to 400 bags; distinct by content; "
             "trivial when nearly empty",
        require={"json-text": 2400, "json-file": 2400, "table": 2400, "table-file": 2400, "objects": 12000, "shared-references": 900,
                 "written-once": 150, "nested": 50},
        assumptions=["times are at whole seconds (as text shows no more) and text cells in JSON do not have the exact format of a valid date",
                     "a table cannot tell blank elements of a collection from absent ones: there they are not used",
                     "delimited files hold finite numbers; dictionary values are plain"],
    ),
    "P18": dict(
        runs=[dict(cfg="asan", harness="text", scale=4, srcs=BASE + ["dal/protocol"])],
        rule="random strings over several alphabets (including all bytes and case variants), numbers of every magnitude down to denormals, texts a few "
             "edits away from a number, cells of every kind and history, dictionaries with respelled keys, names and documented aliases of nine "
             "enumerations respelled, each compared with an independent model; distinct by content; trivial for empty cells and dictionaries",
        require={"comparisons": 90000, "splits": 8000, "numbers": 40000, "near-numbers": 40000, "cells": 20000, "dictionary-texts": 2500,
                 "enumeration-names": 8000, "names": 30000, "roundings": 7000, "maturities": 500},
        assumptions=["date-times are at whole seconds, as text shows no more",
                     "text in the format of a date that names no date is refused (the recognisers are documented to look at the format only)",
                     "dictionary texts hold neither of their separators, and words that do not look like another kind of value"],
    ),
    "P19": dict(
        runs=[dict(cfg="asan", harness="random", scale=6, srcs=RANDOM)],
        rule="random generators, seeds, dimensions and histories of fills, copies and skips, with and without bridge, compared with a "
             "generator that was not skipped or copied and with L'Ecuyer's recurrence in integers; distribution tests of long streams; the "
             "bridge probed with unit vectors in every dimension up to 130; distinct by generator and history; trivial in dimension 0",
        require={"skips": 10000, "copies": 10000, "far-skips": 1000, "mrg-numbers": 100000, "irn-numbers": 100000, "extreme-numbers": 150, "normals": 200000, "antithetic": 80000,
                 "bridges": 130, "public-paths": 1500, "ks-tests": 100, "correlations": 1000},
        assumptions=["the Sobol generator cannot be linked at this commit (no definition of NewSobol)"],
    ),
    "P20": dict(
        runs=[dict(cfg="asan", harness="linalg", scale=1.5, srcs=LINALG)],
        rule="random matrices of every shape and size from 0 to 50 (dense, triangular, banded, full with preconditioner), results compared with "
             "extended-precision products or put back in their equation; outputs aliased, dirty or of another size; singular, indefinite, "
             "asymmetric and ill-sized inputs must be refused; distinct by shape and values; trivial for size 1",
        require={"products": 50000, "solves": 30000, "qforms": 2000, "roots": 1500, "banded-cholesky": 500, "tri-general": 300, "singular": 700,
                 "indefinite": 400, "out-of-band": 100000, "aliased": 15000, "started-at-solution": 400, "exhausted": 700},
        assumptions=["matrices are well conditioned (diagonally dominant or Gram matrices plus a multiple of the identity)",
                     "LowerBandAccumulator_ has no documented meaning and no user, and is not covered"],
    ),
    "P21": dict(
        runs=[dict(cfg="asan", harness="curves", scale=15, srcs=CURVES)],
        rule="random node sets (1 to 14 nodes, ties, tiny and large gaps), values, end conditions and query points (nodes, their neighbours, "
             "outside) for every interpolator and piecewise function, compared with long-double references (spline by dense elimination, "
             "integrals by closed form or day by day); stacked discount curves, copies on other bases; smoothing checked to be stationary; "
             "unusable inputs must be refused; distinct by kind and nodes; trivial with one node",
        require={"linear-queries": 50000, "surface-queries": 25000, "spline-queries": 40000, "piecewise-queries": 15000, "discounts": 8000,
                 "clones": 3000, "smoothings": 1300},
        assumptions=["a cubic spline is compared inside its range only (it declares other points out of bounds)"],
    ),
    "P22": dict(
        runs=[dict(cfg="asan", harness="options", scale=15, srcs=MODEL)],
        rule="random forwards (1e-3 to 1e7, either sign for the normal model), strikes up to five deviations away, volatilities from 1e-4 to 4 and "
             "every option type and spelling, compared with long-double formulas and (one in eight) with quadrature of the expectation; parity, "
             "bounds, monotonicity, greeks; prices inverted and repriced, unattainable prices must be refused; jump series against 400 terms; "
             "the normal distribution and its inverse over their whole range; distinct by inputs; trivial when the value is negligible",
        require={"option-values": 5000, "expectations": 600, "implied": 3500, "model-implied": 500, "cdf-points": 5000, "inverse-points": 5000,
                 "jump-values": 700, "surface-vols": 600},
        assumptions=["volatility is inverted when the time value exceeds 1e-8 of the forward", "the fast distribution is an approximation to 3e-4"],
    ),
    "P23": dict(
        runs=[dict(cfg="asan", harness="solvers", scale=20, srcs=LINALG + ["dal/math/rootfind", "dal/math/optimization"])],
        rule="root searches on monotone functions of nine shapes (flat, vertical, kinked, almost stepped at the root; values from 1e-300 to 1e140), "
             "oscillating functions and functions without a root, from brackets and from guesses; under-determined linear and curved systems "
             "(1 to 6 equations, up to 14 unknowns, regions without value, tight budgets, the three ways to give a gradient, tri-diagonal and banded "
             "weights); evaluations counted, brackets watched, residuals and the smoothness of linear solutions checked; distinct by function "
             "and budget; trivial when the first evaluation ends the search",
        require={"bracketed-searches": 20000, "bracketed-evaluations": 250000, "hunts": 11000, "unbracketed": 1400, "rootless": 2000,
                 "find-successes": 3000, "find-failures": 500, "smoothest-checked": 1200, "approximations": 1000, "optimal-checked": 400},
        assumptions=["functions have finite values where the root search looks", "tolerances are not below the resolution of the argument",
                     "the effective inverse jacobian argument of the underdetermined search is never filled and is not covered"],
    ),
    "P24": dict(
        runs=[dict(cfg="asan", harness="pde", scale=20, srcs=LINALG + ["dal/math/interp", "dal/math/pde"])],
        rule="random uniform, concentrating and free meshes of 2 to 300 points, difference operators row by row against the moments of their "
             "weights, one to four roll-back steps (explicit, implicit, mixed) with random coefficients whose discretised equation is evaluated "
             "in long double at every interior point, options against the closed form, coordinate maps; unusable meshes and sizes must be "
             "refused; distinct by mesh; trivial with less than four points",
        require={"grids": 3000, "required-points": 800, "operator-rows": 40000, "rollback-points": 200000, "explicit-steps": 1000,
                 "implicit-steps": 1000, "mixed-steps": 2000, "options": 25, "map-points": 25000, "refusals": 7000},
        assumptions=["drift does not dominate diffusion on the mesh, so that elimination without pivoting is stable"],
    ),
    "P25": dict(
        runs=[dict(cfg="asan", harness="models", scale=3, srcs=MODEL)],
        rule="random Black-Scholes and local-volatility models, timelines (with and without today, gaps beyond the maximal step), sample "
             "definitions, parameter changes and histories of copies, each path compared with a reference simulator; local volatilities of "
             "analytic surfaces compared with the closed form; distinct by model and timeline; trivial when only today is observed",
        require={"paths": 30000, "clones": 3000, "deletions": 300, "parameter-changes": 1000, "path-derivatives": 3000, "local-volatilities": 3000},
        assumptions=["event times are whole days apart for the local-volatility model (it merges times closer than half a day)"],
    ),
    "P27": dict(
        runs=[dict(cfg="asan", harness="containers", scale=6, srcs=BASE + ["dal/math/matrix", "dal/math/ndarray", "dal/risk"])],
        rule="random histories of every operation on matrices, stacks, multi-dimensional arrays and reports (copies, moves, swaps, resizes, element "
             "access by row, column and iterator, sizes down to zero), each step mirrored by a plain model and compared in full; random table "
             "formats compared with the layout they describe; generic algorithms compared with the standard library; distinct by history",
        require={"matrix-steps": 25000, "ragged": 1000, "stack-steps": 40000, "array-resizes": 3000, "array-steps": 10000, "report-steps": 8000, "formats": 2000,
                 "algorithms": 100000},
    ),
    "P04": dict(
        runs=[dict(cfg="asan", harness="script", scale=1.5, srcs=SCRIPT, env={"SCRIPT_PART": "eval"})],
        rule="random well-formed scripts over the whole grammar (nested conditionals, n-ary functions, day-count fractions, constants, "
             "macros, schedules, past and future events, random spelling and spacing) with random spot paths and numeraires; distinct by "
             "text and branches taken; trivial when no scenario is well defined",
        require={"scenarios": 10000, "comparisons": 30000, "macro-scripts": 800, "payoffs": 300, "schedule-periods": 2000,
                 "hairlines": 1000, "past-payments": 2000},
        assumptions=["scenarios in which the reference meets an undefined or huge (>1e24) value, or a comparison closer than 1e-11 to its "
                     "decision point without being on it, are not compared"],
    ),
    "P05": dict(
        runs=[dict(cfg="asan", harness="script", srcs=SCRIPT, env={"SCRIPT_PART": "config"})],
        rule="the generated scripts of P04 and scripts whose conditions sit on the edge of attainable values, each run in the eight "
             "combinations of smoothing analysis, domain analysis and compilation against the reference; distinct by text and branches",
        require={"fuzzy=0 skipDomain=0 compiled=1": 5000, "fuzzy=1 skipDomain=0 compiled=0": 5000, "fuzzy=1 skipDomain=1 compiled=1": 5000,
                 "edge-scenarios": 50000, "at-decision-point": 20000, "preprocessed": 20000, "hairlines": 1000},
        assumptions=["a script with a constant operation that has no value (division by zero, root of a negative number) may be refused",
                     "values closer than the library's equality tolerance (2e-14) count as equal in the domain analysis"],
    ),
    "P06": dict(
        runs=[dict(cfg="asan", harness="script", scale=1.5, srcs=SCRIPT, env={"SCRIPT_PART": "fuzzy"})],
        rule="random scripts and smoothing widths compared with exact evaluation when every comparison is outside its smoothing zone; single "
             "and paired conditions, and nested conditionals, swept through the zones and compared with the blend of the branches by the "
             "degrees of truth, with jumps searched for by bisection; discrete conditions; distinct by text and branches; trivial when no "
             "scenario is away from the zones",
        require={"scenarios-away": 15000, "crossings": 1000, "hulls": 1000, "blends": 20000, "blends-inside-blends": 8000,
                 "discrete-crossings": 800},
    ),
    "P29": dict(
        runs=[dict(cfg="asan", harness="script", scale=2, srcs=SCRIPT, env={"SCRIPT_PART": "debug"})],
        rule="random scripts (up to 40 events, hundreds of statements): the debug view is read back and compared node by node with the generated "
             "syntax tree, before and after the variables are numbered, and through the public function; distinct by script",
        require={"statements-shown": 60000, "events-shown": 25000, "numbered": 8000},
        assumptions=["numbers are compared to the six decimals the view prints"],
    ),
    "P31": dict(
        runs=[dict(cfg="asan", harness="domains", scale=2, srcs=SCRIPT)],
        rule="random pairs of intervals and of unions of intervals (bounded, unbounded, single values, touching) compared with plain closed "
             "intervals for every operation and predicate; random scripts whose variables' final values on random paths must lie in the "
             "domains the analysis gives, with numbering and nesting compared with the generated program; distinct by operands or text",
        require={"intervals": 20000, "domains": 10000, "finite": 2000, "quotients": 3000, "functions-of-values": 100, "values-in-domains": 20000,
                 "values-in-bounded-domains": 1000, "constants": 1000, "nested": 1000},
        assumptions=["bounds closer than the library's tolerance (2e-14) count as equal; products and quotients of unbounded sets only have to enclose"],
    ),
    "P07": dict(
        runs=[dict(cfg="asan", harness="scriptfuzz", scale=2, srcs=SCRIPT)],
        rule="well-formed scripts broken in known ways (must be refused), randomly mutated scripts, token and byte soups, hostile first-column "
             "cells (schedules, names, numbers) and oversized texts, through parsing, preprocessing, evaluation and compilation; a known product "
             "is run in between; distinct by text",
        require={"malformed": 12000, "mutated": 12000, "soups": 6000, "cell-tables": 6000, "ran": 4000, "compiled": 1500, "deep": 100},
        assumptions=["texts of up to 20000 repetitions; LeakSanitizer is not part of this check"],
    ),
    "P08": dict(
        runs=[dict(cfg="asan", harness="malformed", scale=1.5, srcs=["dal"])],
        rule="archived objects of every kind broken in known ways (parts missing, of another kind or contradicting one another, unknown types, "
             "unbalanced punctuation, text cut short) which must be refused, randomly mutated texts and tables, well-formed JSON of any shape, "
             "byte soups and oversized or deeply nested texts for every text reader; whatever is understood is used; distinct by text",
        require={"json:refused": 4000, "json:understood": 400, "json-prefix:refused": 5000, "table:refused": 4000, "table:understood": 1000,
                 "delimited-file:refused": 2000, "delimited-file:understood": 300, "broken:refused": 5000, "broken-table:refused": 800,
                 "broken-text:refused": 1500, "well-formed:understood": 6000, "texts": 15000, "objects-used": 2000},
        assumptions=["sizes in the text that ask for gigabytes are not offered; texts of up to 300000 characters; a case that runs for 120 s counts as endless"],
    ),
    "P12": dict(
        runs=[dict(cfg="asan", harness="repo", srcs=REPO + ["public/src/repository"]),
              dict(cfg="tsan", harness="repo", srcs=REPO + ["public/src/repository"], args=["--section", "concurrent"], shards=4)],
        rule="random histories of additions in every mode, re-additions, erasures by object, list and pattern, searches and refused calls over "
             "colliding types and names, the whole visible state (sizes, every handle, every erased handle, life times) compared with a reference map "
             "after each step; threads replacing one name, erasing contested objects and keeping their own; distinct by history",
        require={"added": 4000, "added-again": 500, "erased": 900, "pattern-erased": 1400, "searches": 1500, "states-compared": 9000,
                 "concurrent-adds": 3000, "contested-erasures": 600, "overlapping-operations": 1000},
        assumptions=["a search pattern is an ECMAScript regular expression, as documented by its implementation in the standard library"],
    ),
    "P13": dict(
        runs=[dict(cfg="asan", harness="globalstate", scale=2, srcs=REPO + ["public/src/globals"]),
              dict(cfg="tsan", harness="globalstate", srcs=REPO + ["public/src/globals"], args=["--section", "concurrent"], shards=4)],
        rule="random programs of writes, reads and overrides of both dates (nested, moved, replaced, ended early or by exceptions) with unrelated "
             "repository traffic, against a reference; random histories of appended and replaced fixings under colliding names; threads writing, "
             "reading and appending at once; distinct by program",
        require={"dates-compared": 90000, "overrides": 5000, "overrides-ended-by-exception": 600, "overrides-replaced": 1500, "fixings-stored": 15000,
                 "empty-stores": 250, "histories-compared": 25000, "concurrent-writes": 3000, "concurrent-fixings": 4000, "overlapping-operations": 2000},
        assumptions=["the global dates and fixings are entries of the object repository: erasing these there is a use of P12, not of P13"],
    ),
    "P26": dict(
        runs=[dict(cfg="asan", harness="index", scale=3, srcs=INDEX),
              dict(cfg="tsan", harness="index", srcs=INDEX, args=["--section", "concurrent"], shards=4)],
        rule="random index names of every kind and texts that are none, random fixing histories queried at, between and next to the stored times, "
             "directly, through the inverse pair and by name, and random paths monitored at intervals from ten minutes to a week; distinct by name and history",
        require={"names": 1500, "refused": 700, "fixings-found": 5000, "inverse-found": 800, "fixings-missing": 7000, "path-values": 10000,
                 "monitored": 6000, "ir-names": 3000, "concurrent-parses": 1200},
        assumptions=["IndexPath_::Extremum is an acknowledged stub and composite indices have no implementation at this commit",
                     "fixings are above -1e29, which is the library's mark of a missing one"],
    ),
    "P28": dict(
        runs=[dict(cfg="asan", harness="context", scale=2, srcs=CONTEXT),
              dict(cfg="tsan", harness="context", srcs=CONTEXT, args=["--section", "note-threads"], shards=4)],
        rule="random nestings of notes of every kind left by errors at every depth, mixed with errors of the library, the text of each compared with "
             "a reference stack, on one and several threads; random nestings of environments searched after each step; auditors shown random objects "
             "and asked to recall them; distinct by program",
        require={"messages-compared": 70000, "errors-thrown": 30000, "environments-compared": 60000, "audited": 10000, "recalled": 8000, "thread-notes": 150},
    ),
    "P30": dict(
        runs=[dict(cfg="asan", harness="records", scale=8, srcs=INDEX)],
        rule="random histories of inclusions and merges of trade dependencies, of conventions written and looked up by currency, random periods, payments, "
             "rates, tokens and composites, each compared with plain reference data after every step; distinct by history",
        require={"dependencies-compared": 30000, "merges": 5000, "periods": 10000, "payments": 5000, "conventions": 30000, "rates": 2000, "tokens": 1000,
                 "maps": 1000, "composites": 30000},
    ),
    "P14": dict(
        runs=[dict(cfg="asan", harness="dates", scale=6, srcs=BASE)],
        rule="one case per calendar date of the supported range (exhaustive), per second of the day, and random "
             "out-of-range/malformed texts; a case counts when its oracle comparison ran; distinct by date/second/text",
        require={"dates": 60000, "seconds": 86400, "month-additions": 100000},
    ),
    "P15": dict(
        runs=[dict(cfg="asan", harness="increments", scale=10, srcs=BASE + ["dal/protocol"])],
        rule="random increments (all families, spellings, calendars, compounds) from random and edge dates, and schedules "
             "generated both ways, compared with a reference implementation; trivial when nothing moves or the schedule has only its ends",
        require={"schedule-dates": 10000},
    ),
    "P16": dict(
        runs=[dict(cfg="asan", harness="holidays", scale=6, srcs=BASE),
              dict(cfg="tsan", harness="holidays", srcs=BASE, args=["--section", "concurrent"], shards=4)],
        rule="random holiday centers mirrored in plain sets; adjustments, membership and interval counts compared day by day; "
             "trivial without any center; threads register and look up centers under ThreadSanitizer",
        require={"intervals-counted": 1000, "concurrent-registrations": 100},
    ),
    "P17": dict(
        runs=[dict(cfg="asan", harness="daycount", scale=10, srcs=BASE + ["dal/protocol"])],
        rule="random and edge date pairs (month ends, 29 February, year ends) for every day-count rule and spelling, against a "
             "reference written from the market definition; trivial when the period is empty",
        require={"basis:BOND": 1000},
    ),
}
