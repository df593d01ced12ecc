"""The properties: one entry per id.  gen.py writes properties.jsonl and MANIFEST.json from it."""
T = "TLA+ specification checked with TLC; every transition of its state graph replayed in the real code, and recorded histories of the real code validated by TLC against it"
P = {}
def prop(id, title, statement, over, quant, why, files, state, mech, obs, note, technique=T):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(entry=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)),
        technique=technique, note=note)

prop("C01", "The task stack obeys its editing commands exactly",
 "The hierarchical solver holds an ordered list of distinct tasks: pushing appends at the lowest priority, removing deletes, up and down exchange neighbours, clear empties, and any other request leaves the order untouched or is refused with the documented error. Listing, display, graph export and existence queries always describe that same list.",
 ["histories", "inputs"], "every history of editing commands and queries on the stack, with any task present or absent",
 "The solver is not even compiled by the test build here; upstream's test pushes one task. The order after an arbitrary history of edits is a statement about all histories.",
 ["src/sot/sot.cpp", "include/sot/core/sot.hh"], [("stack", "tasks, highest priority first", "src/sot/sot.cpp:push,remove,up,down")],
 [("push/pop/exist/remove/up/down/clear", "src/sot/sot.cpp"), ("display/writeGraph", "src/sot/sot.cpp")], ["entity commands push, remove, up, down, clear, list, display", "writeGraph"],
 "Every transition of the bounded specification (4 tasks) replayed on the real solver under AddressSanitizer, plus random long histories validated by TLC. Entities run on a stand-in of dynamic-graph.")
prop("C02", "The control solves the stack of tasks in priority order",
 "The control computed by the solver is the least-squares solution of the task of highest priority, then of each following task within the motions left free by the ones above (damped pseudo-inverse cut at the damping threshold), starting from the initial control and within the subspace given by the projector when there is one. A lower-priority task never disturbs a higher one, tasks whose update exceeds the configured maximum are discarded without disabling the others, and results never depend on earlier evaluations, changes of dimension, or tasks that were removed.",
 ["inputs", "histories"], "all stacks of tasks, task matrices, errors, dimensions, thresholds, projectors and histories of changes between evaluations",
 "The solver's arithmetic depends on memory reused between evaluations and on ranks of arbitrary matrices; no test of this build evaluates a control at all.",
 ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "include/sot/core/memory-task-sot.hh", "include/sot/core/matrix-svd.hh", "src/feature/feature-posture.cpp"],
 [("memory of a task", "decomposition kept between evaluations", "include/sot/core/memory-task-sot.hh")], [("computeControlLaw", "src/sot/sot.cpp"), ("initMemory", "src/sot/memory-task-sot.cpp"), ("updateControl", "src/sot/sot.cpp")], ["signal control of the solver"],
 "The oracle is exact integer arithmetic in the specification on axis-aligned tasks; the harness applies orthogonal changes of coordinates, to which the solution is equivariant. Eigen's decompositions are trusted. 0-row tasks and duplicated tasks are left out.")
prop("C05", "Selection flags are an exact boolean vector with a default tail",
 "A selection is an infinite vector of booleans given by a finite prefix and a default for all further positions: setting, clearing, negation, conjunction, disjunction, appending and copying act position by position on that infinite vector. Reading a text of zeros and ones and printing it are exact inverses, any other text is refused, and the test for emptiness answers whether any position is on.",
 ["inputs", "histories"], "all selections, positions (within and beyond the prefix) and sequences of operations",
 "Selections of different length combine through their default tails; a test samples a few short ones and this build runs none.",
 ["src/sot/flags.cpp", "include/sot/core/flags.hh"], [("flags, outOfRangeFlag", "finite prefix and default of the tail", "include/sot/core/flags.hh")], [("operators", "src/sot/flags.cpp"), ("stream input and output", "src/sot/flags.cpp")], ["operator()", "operator bool", "operator<<", "operator>>"],
 "All operations on all flags up to length 3 (4 in thorough), and random histories to length 10 validated by TLC.")
prop("C06", "Task bounds keep their kind and survive printing and reading",
 "A bound is either one value or an interval whose two ends may each be absent; setting or clearing an end changes exactly that end, and reading an absent end or a value of the wrong kind is refused with an error. Printing a bound or a vector of bounds and reading the text back gives the same bounds, and a malformed text is refused without reading beyond it.",
 ["inputs", "histories"], "all bounds, all sequences of setters, all texts of the grammar and their one-character corruptions",
 "The textual grammar and the mode changes have unboundedly many inputs; the tests of this build never parse a bound.",
 ["src/task/multi-bound.cpp", "include/sot/core/multi-bound.hh"], [("mode, boundSingle, boundSup, boundInf", "the bound", "include/sot/core/multi-bound.hh")], [("operator>>", "src/task/multi-bound.cpp"), ("setters and getters", "src/task/multi-bound.cpp")], ["operator<<", "operator>>", "getters"],
 "The grammar is written in TLA+. '-0', negative or huge sizes and numbers with only a fraction are left out.")
prop("C12", "The causal filter computes its difference equation exactly",
 "For any numerator and denominator the causal filter outputs the solution of its difference equation, per component, started in steady state at the first sample, together with the first and second finite differences of that output at the sampling period. Changing the coefficients on the fly restarts the filter in the steady state of the most recent sample. The filter entity makes one step per period whichever of its outputs are asked for, and refuses to run before initialization.",
 ["inputs", "histories"], "all filter orders and coefficients, signal dimensions, sampling periods, input histories and moments of change of coefficients",
 "The existing test only fills one filter with a constant; the circular buffers are correct only if they hold for every length of history and every pair of orders.",
 ["src/filters/causal-filter.cpp", "include/sot/core/causal-filter.hh", "src/filters/filter-differentiator.cpp", "include/sot/core/filter-differentiator.hh"], [("input and output buffers", "circular history", "include/sot/core/causal-filter.hh")], [("get_x_dx_ddx", "src/filters/causal-filter.cpp"), ("switch_filter", "src/filters/causal-filter.cpp")], ["get_x_dx_ddx", "signals x_filtered, dx, ddx"],
 "Exact arithmetic on a dyadic grid; unstable or DC-less (sum of denominator 0) filters are left out of the steady-state start.")
prop("C18", "Stopwatch statistics are those of the measured intervals",
 "For each named measure the stopwatch reports exactly the total, minimum, maximum, last and mean of the intervals between its starts and stops on the clock chosen by its mode, and the report shows those values. Stops without a start, pauses, resets, disabling and unknown names behave as documented, and no measure influences another.",
 ["histories", "inputs"], "all interleavings of start, stop, pause, reset, clock advances, mode choice and queries on any set of names",
 "The existing tests measure real sleeps with wide tolerances; which interval enters which statistic is a question about all histories.",
 ["src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"], [("records", "per-name statistics", "include/sot/core/stop-watch.hh")], [("start/stop/pause/reset", "src/utils/stop-watch.cpp"), ("report", "src/utils/stop-watch.cpp")], ["get_* functions", "report"],
 "The clocks of the process are interposed, so time is part of the specification. Changing the clock while a measure runs is left out.")
prop("C19", "Traces and errors say exactly what happened",
 "A trace reaches the debug output if and only if its level is within the level of the flow, complete and in order, and the debug file can be opened, closed and re-opened at any time without losing or misplacing later traces. Every error carries its class, code and complete (possibly formatted) message, prints them, and is caught as any of its base classes.",
 ["inputs", "histories"], "all messages and levels, all sequences of tracing, level changes and file openings, all error classes and codes",
 "The tests instantiate a few messages; truncation, file changes and formats depend on the input and on the history.",
 ["src/debug/debug.cpp", "include/sot/core/debug.hh", "src/exception/exception-abstract.cpp", "src/exception/exception-task.cpp", "src/exception/exception-feature.cpp", "src/exception/exception-factory.cpp", "src/exception/exception-signal.cpp", "src/exception/exception-dynamic.cpp", "src/exception/exception-tools.cpp", "include/sot/core/exception-abstract.hh"],
 [("trace level, output stream", "the debug flow", "include/sot/core/debug.hh")], [("trace", "include/sot/core/debug.hh"), ("constructors of errors", "src/exception")], ["contents of the debug files", "getCode, getStringMessage, operator<<"],
 "All error codes of all classes; formatted messages to 1000 characters. The variant which appends source positions to errors is not built.")
prop("C20", "Following a file delivers every new complete line once, in order",
 "Following a file that another program writes skips what was there first, then delivers each complete line exactly once, unchanged and in order, however the writes are cut, and regardless of empty or long lines. Opening another file restarts from its beginning.",
 ["histories", "schedules", "inputs"], "all interleavings of appends (of any size, including partial lines), truncations, polls and reads",
 "The existing test reads one file written at once; the interleavings of writer and reader are unbounded.",
 ["src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh"], [("cursor, reader, first", "position in the file and lines waiting", "include/sot/core/contiifstream.hh")], [("loop/ready/next", "src/debug/contiifstream.cpp")], ["loop", "ready", "next"],
 "All interleavings to short files, random long ones validated by TLC. Reading when nothing is ready is left out.")
