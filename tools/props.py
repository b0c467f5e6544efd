"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a, "technique": technique, "level_note": note}


SEEDED = "Held on the generated executions only (counts in the evidence file); every random choice follows VERIF_SEED. "

PROPS = [
    P("P01", "Thread pool runs every submitted task exactly once, without races",
      "Every task submitted to the thread pool is executed exactly once, its future becomes ready with its outcome (value or exception) only after it ran, and a thread waiting for futures makes progress by running queued tasks itself. "
      "Worker identities are stable, distinct and within the advertised thread count, and the pool can be stopped and started again with any number of threads without losing tasks submitted afterwards, hanging or leaking threads. "
      "No schedule of submitters, workers and stop/start exhibits a data race.",
      ["schedules", "histories"], "all interleavings of submitters, workers, helpers and stop/start cycles; all task outcomes",
      "The tests submit one fixed batch on one schedule; they cannot see a lost wake-up, a double execution or a race.",
      ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp"],
      [("spawn / active wait / stop", "dal/concurrency/threadpool.hpp")],
      "ThreadSanitizer stress with an exactly-once history checker over task executions and futures",
      SEEDED + "Schedules are those the OS and injected jitter produced; hangs are judged by a generous watchdog, twice."),
    P("P02", "Task queue is a linearizable FIFO that never loses or repeats an item",
      "Under any mix of concurrent producers, blocking consumers and non-blocking consumers, every item pushed is delivered to exactly one consumer, and items are delivered in the order in which their insertions completed. "
      "A blocked consumer is woken by a later insertion or by an interrupt, an interrupted queue hands out nothing through the blocking path, and clearing or resetting leaves it empty and usable. "
      "No schedule exhibits a data race.",
      ["schedules", "histories"], "all interleavings and operation histories of push, pop, try-pop, interrupt, clear and reset",
      "The tests use the queue from few threads on one schedule and check only totals.",
      ["dal/concurrency/concurrentqueue.hpp"], [("mutex + condition variable", "dal/concurrency/concurrentqueue.hpp")],
      "ThreadSanitizer stress with unique-value histories and an offline linearizability check of the FIFO",
      SEEDED + "Linearizability is decided exactly on short recorded histories; longer ones are checked for order and conservation."),
    P("P03", "Monte Carlo result is the same for every thread count and schedule",
      "For a given product, model, generator and number of paths, the Monte Carlo value depends only on those inputs: it equals the average over the same deterministic set of paths whatever the number of worker threads, the scheduling and the number of times it is repeated, and each path is simulated exactly once. "
      "Concurrent execution is free of data races, and an error raised while simulating any path reaches the caller instead of a number.",
      ["schedules", "inputs", "configurations"], "all thread counts, schedules, path counts (including partial last batches), generators, products and models",
      "The tests run on one machine-dependent thread count and compare one price with a loose tolerance.",
      ["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/concurrency/threadpool.hpp", "dal/math/random/pseudorandom.cpp", "public/src/value.cpp"],
      [("batching, per-task generator cloning and skip-ahead, result reduction", "dal/script/simulation.hpp")],
      "differential execution against a single-threaded path-by-path replay, under ThreadSanitizer and AddressSanitizer",
      SEEDED + "Values are compared to a relative 1e-9 (summation order may differ)."),
    P("P04", "Scripted products compute what the script text says",
      "For every well-formed payoff script, every observation path and every split of its events into past and future, evaluating the product yields for each variable and payment exactly what the documented meaning of the text gives: operator precedence and associativity, logical connectives, conditionals and nesting, assignment, payments divided by the payment-date numeraire, macros and constants, functions and schedules. "
      "Evaluation depends only on the script and the scenario, not on products evaluated before.",
      ["programs", "inputs"], "all well-formed scripts over the whole grammar and all scenarios",
      "The tests evaluate a handful of fixed scripts.",
      ["dal/script/parser.cpp", "dal/script/event.cpp", "dal/script/visitor/evaluator.hpp", "dal/script/visitor/pastevaluator.hpp"],
      [("recursive-descent parser and tree evaluators", "dal/script/parser.cpp")],
      "generated scripts run by the real parser/evaluator, compared with an independent reference interpreter under ASan/UBSan",
      SEEDED + "The reference interpreter works from its own syntax tree and shares no code with the library."),
    P("P05", "Compilation and domain processing never change a script's value",
      "For every script and scenario, evaluation after any combination of preprocessing (constant folding, conditional analysis, domain analysis) and in compiled form gives the same variables and payments as plain interpretation of the text. "
      "A condition is treated as always true or always false only when it is so for every attainable value (constants closer than the library's equality tolerance count as equal in that analysis).",
      ["programs", "inputs", "configurations"], "all well-formed scripts, scenarios and processing/compilation configurations",
      "The tests compare interpreted and compiled values on a few fixed scripts.",
      ["dal/script/visitor/compiler.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/domain.hpp", "dal/script/visitor/constprocessor.hpp", "dal/script/visitor/ifprocessor.hpp"],
      [("compiler and bytecode evaluator, domain processor", "dal/script/visitor/compiler.hpp")],
      "differential execution of interpreted, domain-processed and compiled forms of generated scripts under ASan/UBSan",
      SEEDED),
    P("P06", "Smoothed evaluation equals exact evaluation away from the decision points",
      "With smoothing switched on, every scenario whose comparisons are all further from their decision points than the smoothing width gives the same result as exact evaluation. "
      "Inside the smoothing zone the result is a blend between the results of the two branches and moves continuously from one to the other.",
      ["programs", "inputs"], "all scripts, scenarios and smoothing widths",
      "The tests smooth a few fixed conditions.",
      ["dal/script/visitor/fuzzy.hpp", "dal/script/visitor/ifprocessor.hpp", "dal/script/visitor/domainproc.hpp"],
      [("fuzzy evaluator with per-nesting-level variable stores", "dal/script/visitor/fuzzy.hpp")],
      "differential execution of smoothed against exact evaluation on generated scripts under ASan/UBSan",
      SEEDED),
    P("P07", "Malformed script text is refused with an error, never executed or crashed on",
      "Any text given as a script event, macro, schedule specification or date cell either yields a product or is refused with an exception that carries a message. "
      "It never corrupts memory, invokes undefined behaviour, runs without end or leaves later products affected, at parsing, preprocessing, compilation or evaluation.",
      ["inputs"], "all texts and event tables",
      "The tests use well-formed scripts and a few rejected ones.",
      ["dal/script/parser.cpp", "dal/script/event.cpp", "dal/script/event/schedule.cpp"],
      [("token checks in the parser", "dal/script/parser.cpp")],
      "grammar mutation fuzzing of the whole script pipeline under ASan/UBSan and checked STL",
      SEEDED),
    P("P08", "Malformed data text is refused with an error, never crashed on",
      "Any text or table given as an archived object, spreadsheet cell, delimited file, date, period, calendar, number, index name, enumeration or formatting specification is either understood or refused with an exception that carries a message; one with a required part missing, a part of the wrong kind, contradictory sizes, an unknown type or unbalanced punctuation is refused. "
      "It never corrupts memory, invokes undefined behaviour or runs without end.",
      ["inputs"], "all byte strings and cell tables offered to the readers",
      "The tests feed well-formed text and a few rejected strings.",
      ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/utilities/file.cpp", "dal/string/strings.cpp", "dal/time/dateutils.cpp", "dal/indice/indexparse.cpp", "dal/math/matrix/matrixutils.cpp"],
      [("input checks in the readers", "dal/storage/json.cpp")],
      "structure-aware mutation fuzzing of every text reader under ASan/UBSan and checked STL",
      SEEDED),
    P("P09", "Adjoint differentiation gives the true derivatives for every calculation",
      "For every calculation built from the supported operations, in any shape (shared sub-results, reassignments, constants, in-place updates, branches), reverse propagation gives every input the exact derivative of the result, and the values equal those of the plain calculation. "
      "This holds wherever the recording falls in the tape, after any sequence of rewinds, marks, partial propagations and clears, for several results at once, and independently on every thread.",
      ["programs", "inputs", "histories"], "all expression graphs, input points, tape positions and rewind/mark/clear histories",
      "The tests differentiate single operations at single points on a fresh tape.",
      ["dal/math/aad/expr.hpp", "dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/node.hpp", "dal/math/aad/blocklist.hpp"],
      [("expression templates recording on a thread-local block tape", "dal/math/aad/expr.hpp")],
      "generated programs replayed by an independent forward-mode dual-number interpreter, under ASan/UBSan; threads under TSan",
      SEEDED),
    P("P10", "Monte Carlo sensitivities equal the derivatives of the simulated value",
      "The sensitivities returned by a simulation with adjoint differentiation equal the derivatives of the corresponding simulated value to every model input and to every differentiable constant used by the remaining events of the script, interpreted or compiled, and the value equals the one computed without differentiation. "
      "They do not depend on the number of threads, the number of paths per batch or what was simulated before, and are read by the parameter's name, from the results or any copy of them; an unknown name is an error.",
      ["programs", "inputs", "schedules", "configurations"], "all scripts, models, path counts, thread counts and earlier simulations",
      "The tests compare one delta and vega with loose tolerance.",
      ["dal/script/simulation.cpp", "dal/script/simulation.hpp", "dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "public/src/value.cpp"],
      [("per-path propagate-to-mark, per-batch propagate-mark-to-start", "dal/script/simulation.cpp")],
      "differential execution against forward-mode derivatives of a reference simulator (and bump-and-revalue inside smoothing zones), under ASan/UBSan",
      SEEDED + "The reference uses the same random numbers; paths on a kink are excluded."),
    P("P11", "Archived objects read back as they were written",
      "Every storable object written to text (JSON) or to a spreadsheet-style table and read back is equivalent to the original in all its observable values, for any contents including special characters in names, extreme numbers, empty collections and nested objects. "
      "An object referenced several times is written once and read back as one shared object.",
      ["inputs"], "all storable objects and contents",
      "The tests round-trip a few fixed objects.",
      ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/storage/archive.cpp", "dal/storage/box.cpp", "dal/storage/bag.cpp"],
      [("archive stores and readers", "dal/storage/json.cpp")],
      "round-trip monitor with randomly composed object graphs under ASan/UBSan",
      SEEDED),
    P("P12", "Object repository keeps exactly what was stored and not erased",
      "After any history of additions, look-ups and erasures, the repository holds exactly the objects added and not erased or replaced; every handle it returned fetches the very object stored as long as that is so, and erasures and searches affect exactly the entries they name. "
      "Concurrent histories are linearizable and free of data races.",
      ["histories", "schedules"], "all operation histories and interleavings",
      "The tests run a few fixed operations on one thread.",
      ["dal/storage/_repository.cpp", "dal/storage/globals.cpp", "public/src/repository.cpp"],
      [("mutex-guarded map keyed by name, type and uniquifier", "dal/storage/_repository.cpp")],
      "operation histories checked against a reference map; concurrent histories under ThreadSanitizer",
      SEEDED),
    P("P13", "Global dates and fixings: last write wins, overrides end with their scope",
      "The valuation and accounting dates and the stored fixings read back exactly as last written, whatever the history of writes and temporary overrides; a temporary override is visible only while it is in force and then restores what it replaced, also when nested or ended by an exception. "
      "Concurrent use is free of data races.",
      ["histories", "schedules"], "all histories of writes, reads and nested overrides; all interleavings",
      "The tests set and read a date once.",
      ["dal/storage/globals.cpp", "dal/storage/globals.hpp", "dal/indice/fixings.cpp"],
      [("scoped override, mutex-guarded store", "dal/storage/globals.cpp")],
      "operation histories against a reference model; concurrent use under ThreadSanitizer",
      SEEDED),
    P("P14", "Calendar dates and times convert and calculate exactly",
      "For every date in the supported range (1970 to May 2149), construction from year, month and day, spreadsheet serial numbers, ISO text, weekday, month length, month end, day and month arithmetic, differences and ordering all agree with the Gregorian calendar. "
      "Date-times keep the second in all their conversions (hours, minutes, text, milliseconds) and order, subtract and add consistently. "
      "Text or values that name no supported date are refused or give an invalid date, never another date.",
      ["inputs"], "every date of the supported range, every second of the day, every text",
      "The tests sample a few dates.",
      ["dal/time/date.cpp", "dal/time/date.hpp", "dal/time/datetime.cpp", "dal/time/dateutils.cpp", "dal/time/datetimeutils.cpp", "dal/time/periodlength.cpp"],
      [("serial day number conversions", "dal/time/date.cpp")],
      "exhaustive execution over all dates and seconds against an independent calendar, under ASan/UBSan",
      "Every date of the range and every second of a day are executed; month additions, pairs and malformed texts are sampled by VERIF_SEED."),
    P("P15", "Date increments and schedules follow their conventions",
      "Every date increment (years, months, weeks, calendar and business days with or without holiday calendars, quarterly and monthly IMM dates, CDS dates, month ends, and sequences of these) moves any date forward or backward exactly as its convention says. "
      "A generated schedule starts and ends on the given dates, is strictly increasing, contains exactly the dates the rule produces in between, rolls to business days as asked, and its generation always ends.",
      ["inputs"], "all dates, increments, calendars and schedule rules",
      "The tests sample a few increments from one date.",
      ["dal/time/dateincrement.cpp", "dal/time/schedules.cpp", "dal/protocol/conventions.cpp"],
      [("increment classes and schedule generation", "dal/time/dateincrement.cpp")],
      "differential execution against a reference written from the conventions, under ASan/UBSan",
      SEEDED),
    P("P16", "Business-day calendars adjust and count consistently",
      "For every combination of holiday centers, a day is a business day exactly when it is a weekday that is no holiday in any of them or a declared working weekend day; rolling forward and backward lands on the nearest business day, and counting business days in any interval equals counting them one by one. "
      "The result does not depend on the order or repetition of the centers or on earlier queries. "
      "Centers can be registered and used from several threads without races or losses, and a refused registration changes nothing.",
      ["inputs", "histories", "schedules"], "all calendars, combinations, dates, intervals, query orders and registration interleavings",
      "The tests sample a few dates of the shipped calendars.",
      ["dal/time/holidays.cpp", "dal/time/holidaydata.cpp", "dal/time/calendars/china.hpp"],
      [("sorted holiday vectors, merged-combination cache", "dal/time/holidays.cpp")],
      "differential execution against plain-set calendars under ASan/UBSan; concurrent registration under ThreadSanitizer",
      SEEDED),
    P("P17", "Day-count fractions follow the market definitions",
      "For every pair of dates and every supported rule and spelling (ACT/360, ACT/365 fixed, ACT/365L, ACT/ACT, 30/360 US) the year fraction equals the published definition, including month ends, leap days and year boundaries. "
      "The actual-day rules are additive over adjacent periods.",
      ["inputs"], "all date pairs, rules, spellings and coupon contexts",
      "The tests check one pair of dates per rule.",
      ["dal/time/daybasis.cpp", "dal/protocol/accrualperiod.cpp"],
      [("rule implementations", "dal/time/daybasis.cpp")],
      "differential execution against references written from the definitions, under ASan/UBSan",
      SEEDED),
    P("P18", "Text, cells and dictionaries convert without losing information",
      "Numbers, integers, booleans, dates and strings put in a cell or a dictionary or written as text are recognised as what they are and read back as the same value, and text that is no number or integer is recognised as such. "
      "Comparison and ordering of strings ignore case consistently (also as keys), splitting and joining are inverses of each other, and an enumeration is read from each of its documented names in any spelling of case, blanks and underscores and from nothing else.",
      ["inputs"], "all values and strings",
      "The tests convert a few values.",
      ["dal/string/strings.cpp", "dal/string/stringutils.cpp", "dal/math/cell.cpp", "dal/math/cellutils.cpp", "dal/utilities/dictionary.cpp"],
      [("conversion and recognition functions", "dal/string/strings.cpp")],
      "round-trip and differential monitors over generated values and strings under ASan/UBSan",
      SEEDED),
    P("P19", "Random generators: reproducible, in range, exact skip-ahead and copies",
      "A generator's numbers depend only on its seed and position: skipping ahead to a path gives the same numbers as generating and discarding, copies continue exactly as the original would, and different seeds differ. "
      "Uniforms lie strictly between 0 and 1 and come in antithetic pairs of paths, normals are the images of successive uniforms under the inverse normal distribution, both have the advertised distribution, and MRG32 is L'Ecuyer's combined generator. "
      "The Brownian-bridge wrapper is an orthogonal transformation of the normals in which the first number alone fixes the end point.",
      ["inputs", "histories"], "all seeds, dimensions, positions and call histories",
      "The tests check moments of one seed.",
      ["dal/math/random/pseudorandom.cpp", "dal/math/random/brownianbridge.cpp", "public/src/random.cpp"],
      [("recurrences and matrix-power skip-ahead", "dal/math/random/pseudorandom.cpp")],
      "history monitor against an independent implementation of the recurrence, under ASan/UBSan",
      SEEDED + "Distribution checks use thresholds far beyond sampling error."),
    P("P20", "Linear algebra: factorizations, solvers and products are correct for every size",
      "Matrix and vector arithmetic, Cholesky, tri-diagonal, banded, triangular and sparse factorizations, solvers and products, and the iterative solvers give results that satisfy their defining equations within rounding for every well-conditioned input of every size and band shape, also when outputs alias inputs or have another size. "
      "Products, factorizations and solvers refuse inputs with no answer (singular, asymmetric or indefinite band matrices, incompatible sizes).",
      ["inputs"], "all sizes, shapes, bandwidths, values and aliasings",
      "The tests use a few fixed small matrices.",
      ["dal/math/matrix/banded.cpp", "dal/math/matrix/cholesky.cpp", "dal/math/matrix/bcg.cpp", "dal/math/matrix/decompositionsmisc.cpp", "dal/math/matrix/matrixarithmetic.cpp", "dal/math/matrix/sparse.cpp"],
      [("decomposition classes", "dal/math/matrix/banded.cpp")],
      "residual monitors against dense reference arithmetic under ASan/UBSan",
      SEEDED),
    P("P21", "Interpolators and curves reproduce their nodes and their definition",
      "Linear, cubic and two-dimensional interpolators and piecewise constant and linear functions return the given value at every node and the defined blend in between, extrapolate as documented, integrate exactly, and keep the requested end conditions. "
      "Discount and forward curves built on them are consistent: integrals, discount factors and forward rates imply each other. Unusable inputs (unordered, mismatched, too few nodes) are refused.",
      ["inputs"], "all node sets, values, boundary conditions and query points",
      "The tests query a few points of fixed curves.",
      ["dal/math/interp/interp.hpp", "dal/math/interp/interpcubic.cpp", "dal/math/interp/interp2d.cpp", "dal/curve/piecewiselinear.cpp", "dal/curve/piecewiseconstant.cpp", "dal/curve/ycimp.cpp"],
      [("interpolators", "dal/math/interp/interpcubic.cpp")],
      "reference-model monitors (independent spline and quadrature) under ASan/UBSan",
      SEEDED),
    P("P22", "Option formulas are consistent and implied volatility inverts them",
      "Closed-form option values equal the expectation they stand for, respect parity, bounds and monotonicity and give greeks equal to their derivatives for every forward, strike and volatility; implied volatility reprices the option for every attainable price and refuses the others. "
      "The normal distribution, its inverse and related special functions are accurate over their whole range.",
      ["inputs"], "all forwards, strikes, volatilities, option types and arguments",
      "The tests check a few fixed prices.",
      ["dal/math/distribution/black.cpp", "dal/math/specialfunctions.cpp", "dal/protocol/optiontype.hpp"],
      [("closed forms", "dal/math/distribution/black.cpp")],
      "reference-model monitors (independent quadrature and series) under ASan/UBSan",
      SEEDED),
    P("P23", "Solvers return only points that satisfy their equations",
      "Whenever a one-dimensional root search or the underdetermined solver reports success, the returned point satisfies the equations within the requested tolerance, for every smooth function, start and bracket; among solutions the underdetermined solver stays close to the smoothest. "
      "Otherwise it reports failure within a bounded number of evaluations.",
      ["inputs"], "all functions, starting points, tolerances and weightings",
      "The tests solve a few fixed equations.",
      ["dal/math/rootfind.cpp", "dal/math/optimization/underdetermined.cpp"],
      [("Brent search, Gauss-Newton with backtracking", "dal/math/rootfind.cpp")],
      "monitors on generated functions checking residuals and evaluation counts under ASan/UBSan",
      SEEDED),
    P("P24", "Finite-difference operators and roll-back solve the equation they discretise",
      "For every grid and coefficient set the finite-difference operators differentiate low-order polynomials exactly, and rolling a value back in time satisfies the discretised equation at every interior point, explicit, implicit or mixed. "
      "Values and grids of any size are handled without touching other data.",
      ["inputs"], "all grids, coefficients, time steps and weights",
      "The tests roll back one option.",
      ["dal/math/pde/fd1d.cpp", "dal/math/pde/finitedifference.cpp", "dal/math/pde/meshers/concentrating1dmesher.cpp"],
      [("difference operators and theta scheme", "dal/math/pde/fd1d.cpp")],
      "residual monitors against dense reference operators under ASan/UBSan",
      SEEDED),
    P("P25", "Model paths are the exact image of their random numbers",
      "For every model, timeline and parameter set, the simulated path is the documented function of the random numbers: the spot at each event and the numeraires, and in the local-volatility model the forwards and discount factors, agree with the model's formulas, a deterministic part (today, zero volatility) is reproduced exactly, and parameters and their names correspond one to one. "
      "A copy of a model, or of its data under another name, simulates the same path and shares nothing with the original. Local volatilities calibrated to a surface of implied volatilities are those of Dupire's formula.",
      ["inputs", "configurations"], "all timelines, parameter sets, random vectors and model copies",
      "The tests price one option per model.",
      ["dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "dal/model/base.hpp"],
      [("path generation", "dal/model/blackscholes.hpp")],
      "differential execution against a reference path simulator under ASan/UBSan",
      SEEDED),
    P("P26", "Indices: names round-trip and fixings are found exactly",
      "An index built from a name has that name, and its past fixings are found exactly at the times stored, directly or through the inverse of a currency pair, also along a path of fixings. "
      "A missing fixing is reported as missing, never replaced by another value.",
      ["inputs", "histories"], "all index names, fixing histories and query times",
      "The tests query one fixing.",
      ["dal/indice/index.cpp", "dal/indice/indexparse.cpp", "dal/indice/index/equity.cpp", "dal/indice/index/fx.cpp", "dal/indice/index/ir.cpp", "dal/indice/indexpath.cpp"],
      [("index parsers and fixing access", "dal/indice/indexparse.cpp")],
      "reference-model monitors under ASan/UBSan",
      SEEDED),
    P("P27", "Containers and generic algorithms match their mathematical meaning",
      "Vectors, matrices, multi-dimensional arrays and the generic algorithms on them behave as plain mathematical collections for every size, including empty ones: elements are addressed, copied, moved, resized, transposed, sliced, sorted, merged and transformed without loss, aliasing or access outside the data. "
      "Stacks return what was pushed in reverse order at every depth; a table format lays its arguments out as it describes; an address outside a report is refused.",
      ["inputs", "histories"], "all sizes, contents and operation histories",
      "The tests use small fixed collections.",
      ["dal/math/vectors.hpp", "dal/math/matrix/matrixs.hpp", "dal/math/ndarray.hpp", "dal/utilities/algorithms.hpp", "dal/math/stacks.hpp", "dal/risk/report.cpp"],
      [("container templates", "dal/math/matrix/matrixs.hpp")],
      "operation histories against plain reference containers under ASan/UBSan and checked STL",
      SEEDED),
    P("P28", "Errors carry exactly their context; environments and auditors their scope",
      "The text of every error raised through the library's macros is its own message followed by exactly the notes in force at that point on that thread, outermost first, whatever errors were raised and caught before. "
      "An environment yields the entries in scope, innermost first, each once, and is restored when a scope ends, also by an exception; an auditor recalls exactly what it was shown and reports conflicts.",
      ["histories", "schedules"], "all nestings of notes, scopes and errors; all threads",
      "The tests look at one environment and no notes of errors.",
      ["dal/utilities/exceptions.cpp", "dal/utilities/exceptions.hpp", "dal/utilities/environment.hpp", "dal/storage/audit.cpp"],
      [("thread-local stack of notes", "dal/utilities/exceptions.cpp"), ("decorated environments", "dal/utilities/environment.hpp")],
      "reference stacks compared after every step under ASan/UBSan; several threads under ThreadSanitizer",
      SEEDED),
    P("P29", "The debug view shows exactly the parsed program",
      "For every product the parser accepts, the textual debug view lists every event in date order with all of its statements, and each statement reads back as exactly the expression tree, operators, functions, branches, variables, constants and their values that the script's text denotes, no more and no less, also after the variables were numbered, when each variable shows its own number.",
      ["inputs"], "all well-formed scripts, before and after preprocessing",
      "The tests print a debug view without looking at it.",
      ["dal/script/visitor/debugger.hpp", "dal/script/event.cpp", "public/src/script.hpp"],
      [("debugger visitor", "dal/script/visitor/debugger.hpp"), ("ScriptProduct_::Debug", "dal/script/event.cpp")],
      "debug views of random scripts read back and compared node by node with the generated syntax tree, under ASan/UBSan",
      SEEDED + "The layout of the view (nesting and separators) is taken as it is at this commit."),
    P("P30", "Trade records and market conventions keep exactly what was put in",
      "The dependencies of a trade hold, for each currency, index and credit name, the latest date included directly or by merging, in any order and any number of times. "
      "Accrual periods, payments, rates and value tokens hold what they were built from, with the day-count fraction of their basis and context. "
      "A convention looked up by currency is the one last written for it, else the default last written, else an error; each traded rate has one period and clearing house and is found by them. "
      "Copies of composites are deep and complete.",
      ["histories", "inputs"], "all sequences of inclusions, merges, writes, look-ups and copies",
      "The tests include one item of each kind and merge nothing.",
      ["dal/protocol/underlying.cpp", "dal/protocol/accrualperiod.cpp", "dal/protocol/payment.cpp", "dal/protocol/couponrate.cpp", "dal/currency/currencydata.cpp", "dal/utilities/composite.hpp", "dal/utilities/maps.hpp"],
      [("merging of dependencies", "dal/protocol/underlying.cpp"), ("facts by currency", "dal/currency/currencydata.cpp")],
      "random histories mirrored in plain reference data, compared after every step under ASan/UBSan",
      SEEDED),
    P("P31", "Script analysis never excludes a value a script can take",
      "Before evaluation every variable gets one number, the deepest nesting of conditions is found, and every variable and expression gets a domain: a set of intervals and single values. "
      "For every script and every scenario, the value a variable ends with lies in its domain, and a variable said to be constant has that constant. "
      "For every pair of intervals or domains, sums, differences, products, quotients, minima, maxima, unions and shifts contain every result of the operation on members (exactly those for bounded operands of a few intervals and values), "
      "and what is asked of them (can it be zero, positive, negative, constant, discrete, the nearest values around zero) is answered exactly. "
      "The analysis ends in a time that does not multiply with every event, however many values a variable may take.",
      ["inputs"], "all well-formed scripts and scenarios; all closed intervals and finite unions of them",
      "The tests analyse two one-line scripts; the flags the analysis sets decide which branches are removed and how smoothing interpolates.",
      ["dal/script/visitor/domain.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/ifprocessor.hpp", "dal/script/visitor/varindexer.hpp"],
      [("interval and domain algebra", "dal/script/visitor/domain.hpp"), ("domain analysis", "dal/script/visitor/domainproc.hpp")],
      "domain algebra compared with plain closed intervals, and variables' domains with the values a reference interpreter ends with, under ASan/UBSan",
      SEEDED),
]

HOOKS = {"guard": "DAL_VERIF_HOOKS", "enable": "the monitors' own build (vbuild.py) passes -DDAL_VERIF_HOOKS; no hook has been needed so far", "source_commits": []}
NOTES = "See DESIGN.md. Each check rebuilds the needed sources of /repo (VERIF_BUILD, default /verif/build, git-ignored) with sanitizers."


def _na():
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from checks import CHECKS
    return [{"property": p["id"], "reason": "monitor under construction in this session"} for p in PROPS if p["id"] not in CHECKS]


NOT_APPLICABLE = _na()
