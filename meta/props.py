# Single source of the property texts: writes properties.jsonl and MANIFEST.json (python3 meta/props.py), and
# sim/titles.inc. Only properties the simulator has a check for are written.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, C, S, K, H, F = "inputs", "configurations", "schedules", "crash_points", "histories", "fault_sequences"
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), tech="", note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                   anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), x)) for x in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), tech, note))
CLEAN = "A clean batch is evidence over the sampled scenarios, not proof. Trusts the simulated kernel and libc semantics and the reference model described in DESIGN.md."

prop("P01", "Every epoch's value function is one exact step from the previous one",
     "For every model, exact solution method, purge setting, terminal value function and random stream, the value function of each epoch equals, at every belief and up to a small multiple of the arithmetic's precision, one exact Bellman step from the previous epoch's, starting from the terminal values. The final solution is the last epoch's.",
     [I, C, H], "all POMDP models the parser accepts (rewards and costs, impossible observations, ties, equal vectors, deterministic and sparse transitions), all exact method/purge/option combinations, all horizons, terminal value functions, random streams and heap contents",
     "The tests solve one model (tiger) with default options to one horizon and count its vectors; they compare no values, no other method and no other model.",
     ["src/enumeration.c", "src/two-pass.c", "src/linear-support.c", "src/witness.c", "src/inc-prune.c", "src/parsimonious.c", "src/cross-sum.c", "src/projection.c", "src/region.c", "src/lp-interface.c", "src/pomdp-solve.c", "src/neighbor.c"],
     [("one dynamic programming step per epoch, by the chosen method", "src/pomdp-solve.c:solvePomdp, improveV"), ("domination checks and region linear programs decide which vectors stay", "src/parsimonious.c, src/region.c"), ("projections of the previous value function per action and observation", "src/projection.c")],
     [("value function", "list of vectors with the action each belongs to", "src/alpha.c")], ["solution files of every epoch (-save_all) and the final solution file"],
     "seeded simulation of whole solver runs; every epoch's file against an independent one-step backup at region corners and random beliefs, and a decision-tree value")
prop("P02", "No solution holds superfluous or duplicate vectors",
     "For every model and exact method with parsimonious pruning, no vector in an epoch's or the final solution is a duplicate of another one, and each is best, up to the precision of the arithmetic, at some belief.",
     [I, C], "all models and exact methods with their pruning options that promise a parsimonious result, all horizons and random streams",
     "The only end-to-end test counts the vectors of one model; a superfluous or duplicated vector on any other model, method or option passes unseen.",
     ["src/parsimonious.c", "src/region.c", "src/alpha.c", "src/inc-prune.c", "src/witness.c", "src/two-pass.c", "src/enumeration.c"],
     [("removal of dominated vectors, then a region linear program per vector", "src/parsimonious.c"), ("duplicate detection while vectors are added", "src/alpha.c")], (), ["solution files of every epoch"],
     "seeded simulation; parsimony decided by the reference model's own linear program")
prop("P03", "The policy graph written beside a solution implements exactly that solution",
     "In every policy graph written, each node belongs to the vector of the same number in the solution beside it, has its action, and for each observation leads to a vector of the previous epoch so that taking the action and continuing along the links is worth what the vector says at every state. Links for observations that cannot occur are marked as such.",
     [I, C, H], "all models (including impossible observations, single observations and ties), all methods, all horizons, terminal values with links into them",
     "No test reads a policy graph; wrong links, wrong order after sorting, or lost bookkeeping in one method cannot be seen.",
     ["src/pg.c", "src/alpha.c", "src/pomdp-solve.c", "src/cross-sum.c", "src/enumeration.c", "src/finite-grid.c"],
     [("vectors remember per observation the vector of the previous epoch they came from", "src/alpha.c: obs_source"), ("graph written from those links after sorting and numbering", "src/pg.c, src/pomdp-solve.c")],
     [("obs_source", "vector of the previous epoch followed after each observation", "src/alpha.h")], ["-save_all .pg files and the final .pg file"],
     "seeded simulation; every written graph is evaluated node by node against the two value functions it connects")
prop("P04", "An interrupt at any point ends the run with a valid solution of completed epochs",
     "Whenever a run is interrupted once, it ends by itself within a bounded number of steps, and the solution and policy graph it writes are exactly those of a completed epoch, no older than the last one completed before the interrupt; the report says what happened. Further interrupts never make the files worse than a complete solution.",
     [S, K, C], "every instant at which one or several interrupts can be delivered (between any two basic blocks, inside system calls, during start-up, saving and shut-down), all models, methods and options",
     "No test sends a signal; the outcome depends on the instant of delivery among millions.",
     ["src/signal-handler.c", "src/pomdp-solve.c", "src/global.h"],
     [("handler sets a flag that every loop of the algorithms polls", "src/signal-handler.c; gInterrupt users"), ("an interrupted epoch is discarded and the previous value function restored", "src/pomdp-solve.c")],
     [("gInterrupt", "set when the run shall end", "src/global.c")], ["files after the run, standard output, exit status"],
     "seeded interrupt injection at chosen basic blocks and system calls; result compared with the fault-free run's epochs; bounded-steps liveness")
prop("P05", "A time limit ends the run on time and keeps the completed epochs",
     "A run given a time limit ends, for every model and every instant the limit falls on, never before the limit and within a bounded number of steps after it, with a message and a failure status, without touching earlier result files, and with the value function of the last completed epoch still on disk; a limit that is not reached changes nothing.",
     [S, C], "all limits relative to the run (before the first epoch, inside any epoch, during saving, after the end), speeds of the processor, models and methods",
     "No test sets a limit; timers fire at arbitrary points of the computation.",
     ["src/signal-handler.c", "src/pomdp-solve.c", "src/pomdp-solve-options.c"],
     [("virtual interval timer whose signal sets the interrupt flag", "src/signal-handler.c"), ("bounds on the limit's value", "src/pomdp-solve-options.c")], (), ["files after the run, standard output, simulated CPU clock"],
     "seeded placement of a simulated timer signal under a simulated CPU clock; history compared with fault-free epochs; bounded-steps liveness")
prop("P06", "After a crash at any point, the last completed solution can be recovered",
     "Whenever the process is killed, the files left on disk never include a torn or mixed solution under a result's name that was complete before, and once the second epoch has been announced some file holds the complete, readable value function of an epoch at most one behind.",
     [K, S, C], "every point at which the process can be killed, including between and inside writes and renames, with buffering of any size, with and without results of an earlier run in place",
     "No test kills the program; durability of intermediate results depends on the point of the crash.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c"],
     [("backup file of the current value function each epoch", "src/pomdp-solve.c"), ("results are written beside the target and renamed over it", "src/pomdp-solve.c, src/alpha.c")], [("backup file", "value function of the last completed epoch", "src/pomdp-solve.c")], ["simulated disk after the crash"],
     "seeded crash injection at basic blocks and inside disk operations; only durable state survives; readable-solution search over the disk")
prop("P07", "A run continued from a saved value function equals an uninterrupted one",
     "Taking the value function a stopped, interrupted or killed run left behind as the terminal values of a new run and running the remaining epochs gives the value function an uninterrupted run of the same total length gives, and continuing after several interruptions makes no difference.",
     [H, K, S], "all split points and numbers of restarts, all models, methods and interruption points",
     "No test restarts from a file; it needs a history of two or more runs.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pomdp-solve-options.c"],
     [("value functions are written with enough digits and read back as terminal values", "src/alpha.c, src/pomdp-solve.c")], (), ["solution files of the chain of runs"],
     "seeded histories of crash, interrupt and restart across simulated processes sharing a disk, compared with one uninterrupted run")
prop("P08", "Failed writes are reported and never destroy or fake a result",
     "Whenever creating, writing, closing or renaming an output file fails in any way, or the disk fills up, the run ends with a message and a failure status, announces no solution it did not save completely, and leaves every earlier complete result readable; short or interrupted writes that can be continued do not change the result.",
     [F, C], "every sequence of failing, short, interrupted and out-of-space operations at every output operation, with any disk capacity, with earlier results in place or not",
     "No test makes an operation fail.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c", "src/belief.c"],
     [("write errors are detected when the file is closed and passed on", "src/alpha.c, src/pg.c"), ("results replace older ones only when complete", "src/pomdp-solve.c")], (), ["exit status, messages, simulated disk"],
     "seeded disk fault injection (errors, short and torn writes, full disk, failing close, rename, unlink) against the fault-free run's bytes")
prop("P09", "Unreadable or damaged input is refused without harm",
     "Whenever a model or terminal value file is missing, cannot be read completely, is cut off or corrupted, the run either ends with a message, a failure status and untouched earlier results, or the input was still a complete valid one and is solved as such (bad terminal values may instead be named in a warning and replaced by the default ones); input delivered in arbitrary pieces makes no difference.",
     [I, F], "all truncation points, byte changes, read errors, early ends and piecewise delivery of every input file",
     "Tests feed only well-formed files that are read without errors.",
     ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/parse_err.c", "src/mdp/mdp.c", "src/alpha.c", "src/pomdp.c", "src/pomdp-solve.c"],
     [("parser errors are collected and end the run", "src/mdp/parse_err.c"), ("checks of probabilities summing to one", "src/mdp/mdp.c"), ("vector files are checked while they are read", "src/alpha.c")], (), ["exit status, messages, simulated disk"],
     "seeded input corruption and read fault injection; heap integrity checked by the simulated allocator")
prop("P10", "Running out of memory at any point ends the run cleanly",
     "Whichever allocation fails, once or from then on, the run either completes with the unchanged result or ends promptly with a message and a failure status, without touching freed or foreign memory and without destroying or faking results of completed epochs.",
     [F, C], "every allocation of every phase failing once or permanently, all models and methods",
     "No test makes an allocation fail.",
     ["src/xalloc.c", "src/mdp/mdp.c", "src/lp-solve/lpkit.c", "src/alpha.c", "src/pomdp-solve.c"],
     [("allocation wrappers end the program with a message", "src/global.c, src/mdp"), ("backup of the last epoch stays on disk", "src/pomdp-solve.c")], (), ["exit status, messages, simulated heap and disk"],
     "seeded allocation failure injection under a checking allocator with guard zones and poisoning")
prop("P11", "Same model, options and seed: same results, whatever the surroundings",
     "Two runs with the same inputs, options and random seed give byte-identical solution files and the same report up to times, whatever the contents of fresh memory, the process number, the time of day, the speed of the processor and the buffering of files; asking for more detailed messages or statistics changes no result file.",
     [C, S], "all models, options and seeds; all heap contents and block reuse orders, process ids, clocks, buffer sizes and read chunk sizes; all verbosity modes",
     "Tests run once per configuration and compare nothing between runs.",
     ["src/random.c", "src/pomdp-solve.c", "src/belief.c"],
     [("all random numbers come from one generator seeded by the option", "src/random.c")], [("random seed", "three 16-bit words", "src/random.c")], ["all files, normalised standard output"],
     "paired simulated runs under different heap salts, pids, clocks and buffering; byte comparison")
prop("P12", "Clock jumps and failing clocks change no result and end no run",
     "Steps of the wall clock in either direction, pauses of the process and failing clock queries change neither the files, nor the report apart from its times, nor the outcome of a run, and the reported processor times ignore the wall clock.",
     [F, S], "all sequences of clock jumps, stalls and failing clock queries at any point of the run",
     "Tests run under a steady clock.",
     ["src/timing.c", "src/pomdp-solve.c", "src/random.c"],
     [("times come from the processor clock", "src/timing.c")], (), ["files, standard output"],
     "seeded clock fault injection under simulated clocks; comparison with the undisturbed run")
prop("P13", "Runs side by side and leftovers of dead runs do not disturb each other",
     "Runs sharing a directory, with different process numbers and output names (by default made from the model's name and the process number), each write exactly what they write alone, in every interleaving, even when one of them is killed or interrupted or files of dead runs lie around; runs that succeed leave no working files behind and never touch those of other runs.",
     [S, K, H], "all interleavings of two runs at system-call granularity, crash or interrupt of one at any point, leftover working files with any content",
     "Tests run one process in a clean directory.",
     ["src/pomdp-solve.c", "src/pomdp-solve-options.c", "src/projection.c"],
     [("working and default output file names carry the process number", "src/pomdp-solve.c")], (), ["simulated disk after both runs"],
     "seeded scheduler interleaves two simulated processes on one disk, with crash and interrupt injection")
prop("P14", "The files of every epoch are those of a shorter run",
     "With saving of every epoch, the file pair of epoch k is byte for byte what a run limited to k epochs writes as its result (identical vectors, which only purges that promise no parsimony leave, may change places), the last pair equals the final result, the penultimate file is the epoch before the last, and no other files appear, also when the run is interrupted.",
     [H, C, S], "all models, methods, horizons and interrupt points",
     "No test uses these options.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c"],
     [("per-epoch and penultimate saving in the main loop", "src/pomdp-solve.c")], (), ["simulated disk after the run"],
     "seeded simulation with interrupt injection; byte comparison with shorter simulated runs")
prop("P15", "The report tells the truth about sizes, differences, times and why it stopped",
     "For every run, each epoch's line gives the number of vectors in that epoch's result, the difference to the previous epoch under the chosen criterion (or infinite), and processor times consistent with the clock; the run goes on exactly until the difference reaches the threshold the discount and precision imply or the horizon is reached, and the summary table repeats the lines.",
     [I, C, H], "all models, stopping criteria and thresholds, methods, horizons, processor speeds",
     "The one end-to-end test looks for a vector count in the last line of one run.",
     ["src/pomdp-solve.c", "src/stats.c", "src/timing.c", "src/parsimonious.c"],
     [("stopping criteria weak, exact and Bellman", "src/pomdp-solve.c, src/common.c"), ("epoch statistics", "src/stats.c")], (), ["standard output against saved files and the simulated CPU clock"],
     "seeded simulation; reported history recomputed from the saved files by the reference model and from the simulated clock")
prop("P16", "Variations of value iteration stay within their guarantees",
     "With the point-based speed-up, no epoch's value exceeds what acting optimally for ever can give, and none is below what the plain method gives after as many epochs; with pruning to a precision, fixed or adjustable, the vectors dropped in an epoch never cost more than the precision in force; the adjustable one starts, shrinks (once the last few solutions hardly change in size) and ends as its options or their documented defaults say.",
     [I, C, H], "all models, variation options, methods, horizons and random streams",
     "No test uses a variation.",
     ["src/zlz_speedup.c", "src/pomdp-solve.c", "src/parsimonious.c", "src/pomdp-solve-options.c"],
     [("point-based improvement over witness points", "src/zlz_speedup.c"), ("precision schedule", "src/pomdp-solve.c: adjustable epsilon")], (), ["solution files of every epoch"],
     "seeded simulation; every epoch's file against upper and lower bounds of the reference model")
prop("P17", "The grid method is exact at its grid points and never promises too much",
     "With the finite grid method, each epoch's value at every grid point is one exact step from the previous epoch's and nowhere exceeds that step; the grid consists of distinct valid beliefs reachable as its options say, at most as many as allowed, and the saved grid is the one used.",
     [I, C], "all models (including observations that never occur), grid sizes, grid kinds, horizons and random streams",
     "No test uses the grid method.",
     ["src/finite-grid.c", "src/belief.c", "src/pomdp-solve.c"],
     [("grid built breadth-first from the initial belief or at random", "src/finite-grid.c"), ("point backups at the grid", "src/finite-grid.c")], (), ["solution files of every epoch and the saved grid"],
     "seeded simulation; grid and values recomputed by the reference model")
prop("P18", "The report goes completely to the chosen report file, or visibly elsewhere",
     "A report directed to a file is, apart from times, the report standard output would have had, complete and in order for every outcome of the run; when the file or standard output cannot be written, the solution is still complete and the failure does not pass unnoticed in the files.",
     [F, C, S], "all options, outcomes, buffering, interrupt points and failing report files or standard output",
     "No test redirects the report.",
     ["src/pomdp-solve.c", "src/pomdp-solve-options.c", "src/global.c"],
     [("report file opened at start, falling back to standard output", "src/pomdp-solve.c")], (), ["report file, standard output, solution files"],
     "seeded simulation of report redirection with output faults; comparison with the undirected run")
prop("P19", "The solution tools sort, purge, compare and map exactly as documented",
     "For all solution and belief files, sorting keeps exactly the vectors in lexicographic order, purging keeps exactly those that are best somewhere, comparing pairs vectors and finds the true differences, and mapping gives every belief its best vector; files written are complete or the tool fails visibly, and unreadable or missing input is refused.",
     [I, F], "all vector and belief files (sizes, ties, duplicates, empty sets), piecewise reads, read and write faults",
     "No test runs the tools.",
     ["src/utils.c", "src/pomdp-tools-main.c", "src/alpha.c", "src/parsimonious.c", "src/belief.c"],
     [("one operation per tool on lists of vectors", "src/utils.c")], (), ["tool output files, standard output and exit status"],
     "seeded simulation of the tools with disk faults against reference implementations")
prop("P20", "Policy graph evaluation and relinking give the graph's true value and links",
     "For all models and policy graphs, evaluating a graph prints for every node and state the expected discounted reward of following it for ever, and the best start node for the initial belief; relinking a graph to another value function leads every link to the nearest vector and keeps actions; unusable or missing input, such as a graph with links that lead nowhere, is refused.",
     [I, F], "all models and graphs (any number of nodes, missing links for impossible observations), read and write faults",
     "No test runs these tools.",
     ["src/pg-eval.c", "src/pg.c", "src/utils.c", "src/laspack/itersolv.c"],
     [("linear equations over nodes and states solved iteratively", "src/pg-eval.c"), ("nearest vector search", "src/pg.c")], (), ["tool output files, standard output and exit status"],
     "seeded simulation of the tools with faults; graph value recomputed by direct elimination")
prop("P21", "Options mean the same in a file and on the command line, bad ones are refused",
     "Options given in a configuration file in any layout have exactly the effect of the same options on the command line, which take precedence; delivering the file in pieces makes no difference. A file that is missing, unreadable or has bad entries, and, wherever it is given, an option that does not exist or a value that is not of its kind or out of its range, is refused with a message and a failure status before any file is written.",
     [I, C, F], "all sets of options and their split between file and command line, spacing, comments and line ends, unknown names, malformed and out-of-range values, read faults",
     "No test uses a configuration file.",
     ["src/config-file.c", "src/cmd-line.c", "src/program-options.c", "src/params.c", "src/pomdp-solve-options.c"],
     [("configuration entries parsed as options before the command line", "src/program-options.c, src/config-file.c")], (), ["files, standard output, exit status"],
     "paired simulated runs, file against command line, with read faults and piecewise delivery; runs with one unusable option among good ones")
prop("P22", "Equivalent ways of writing a model give the same solution",
     "A model written in any of the file format's equivalent forms (matrices, rows, single entries, wildcards, names or numbers, uniform, identity and reset, the start belief as numbers, as a state, or as states to include or exclude, later entries overriding earlier ones, any order and layout) gives byte-identical results, and the model solved is the one written.",
     [I], "all models and all equivalent texts of them",
     "Tests parse one text of one model.",
     ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/imm-reward.c", "src/mdp/sparse-matrix.c"],
     [("parser semantic actions fill matrices; reward entries are kept in order", "src/mdp/parser.y, src/mdp/imm-reward.c")], (), ["solution files"],
     "paired simulated runs over seeded equivalent renderings of one model, byte comparison, plus the reference model's first epoch")
prop("P23", "The belief service answers every line with the right belief, at once",
     "For every sequence of action and observation lines, however they are split on arrival, the belief service answers each line before waiting for the next one with the belief that follows by Bayes' rule, reports lines it cannot use without losing its state, and ends on request or at the end of input.",
     [H, S, F], "all models and line sequences (valid, impossible, malformed, overlong, unterminated), all splits of the input stream, read errors",
     "No test talks to the service.",
     ["src/utils.c", "src/pomdp-tools-main.c", "src/belief.c"],
     [("read a line, update the belief, print and flush", "src/utils.c")], [("current belief", "distribution over states", "src/utils.c")], ["standard output events ordered against standard input events"],
     "seeded interactive histories on simulated standard input and output; refinement against Bayes' rule; answer-before-read ordering")
prop("P24", "A run that stops by itself is as close to optimal as its precision says",
     "Whenever an infinite-horizon run stops by its difference criterion at a given precision, the result is within that precision of the optimal value at every belief, with and without the point-based speed-up.",
     [I, C, H], "all models, precisions, stopping criteria, methods and random streams",
     "Tests run one model to convergence and count vectors; nearness to the optimum is never checked.",
     ["src/pomdp-solve.c", "src/common.c", "src/zlz_speedup.c"],
     [("stopping threshold from precision and discount", "src/pomdp-solve.c")], (), ["final solution file"],
     "seeded simulation; residual of the final solution under the reference model's exact step against the threshold implied by the precision")
prop("P25", "Every run ends, within a bounded amount of work",
     "Reading a model, well-formed or damaged, ends. Every exact solution method and the finite grid solve a task for a given horizon within a constant factor of the work of the default method, whatever the random stream and the memory hold. Without a horizon a discounted task with the Bellman criterion ends after no more epochs than its contraction allows. Once disks, allocations, clocks or signals have failed, a run or tool ends within a constant factor of the work of the undisturbed one.",
     [C, F, H], "all models, damaged texts, options and fault sequences",
     "A test that hangs is only seen for the few inputs it has, and no test injects a fault.",
     ["src/two-pass.c", "src/witness.c", "src/inc-prune.c", "src/neighbor.c", "src/pomdp-solve.c", "src/mdp/parser.y", "src/lp-solve"],
     [("each vector's neighbours are searched once", "src/two-pass.c, src/witness.c"), ("value iteration stops at its threshold", "src/pomdp-solve.c")], (), ["simulated clock counting basic blocks"],
     "seeded simulation with faults; liveness as a bound in basic blocks: against the default method's run, the undisturbed run, or the contraction of the Bellman operator")
prop("P26", "Runs of any kind neither corrupt memory nor accumulate memory or descriptors",
     "In every run and tool call, with or without faults, no memory is read or written after it is freed or beyond its bounds, nothing is freed twice, the memory and descriptors still held at the end do not grow with the number of epochs, vectors or faults, and a result never depends on memory that was not initialised.",
     [C, F, H], "all models, options, horizons and fault sequences of every kind",
     "Tests run without a memory checker and only to one horizon.",
     ["src/alpha.c", "src/pomdp-solve.c", "src/lp-interface.c", "src/parsimonious.c", "src/pg.c", "src/mdp/mdp.c"],
     [("every list and matrix is released at the end of its epoch", "src/alpha.c, src/pomdp-solve.c")], (), ["simulated allocator: guard zones, poison, live blocks; descriptor table"],
     "seeded simulation under a checking allocator and descriptor table with mixed fault injection; conservation across horizons")

have = set(re.findall(r"X\((P\d+)\)", open(V + "/sim/props.cpp").read()))
ps = [p for p in P if p[0]["id"] in have]
for p, _, _ in ps: assert len(p["title"]) <= 80, p["id"]
missing = have - {p[0]["id"] for p in ps}; assert not missing, missing
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p[0]) + "\n" for p in ps))
open(V + "/sim/titles.inc", "w").write("".join('#define T_%s %s\n' % (p[0]["id"], json.dumps(p[0]["title"])) for p in ps))
json.dump(dict(version=1, setup_cmd="python3 sim/build.py san", checks=[dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
     technique="deterministic simulation with fault injection: " + t, level="exploration", level_note=n or CLEAN) for p, t, n in ps], not_applicable=[],
     notes="No hooks in /repo: the seams (disk, heap, signals, timers, clocks, pid, standard streams, preemption points) are put in by renaming libc symbols in the objects and by -fsanitize-coverage=trace-pc when the checks compile /repo's sources. Known findings and repairs: known_findings.txt."),
     open(V + "/MANIFEST.json", "w"), indent=1)
