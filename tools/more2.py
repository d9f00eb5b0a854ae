prop("C09", "A translation depends only on the text translated",
     "What decy generates for a C file is determined by the text of the file and of the local headers it includes. Every way of asking - the library functions (plain, with includes, traced, verified, "
     "per file), the transpile command with and without --output and tracing, the project command with a cold or warm cache - gives the same Rust code for the same text and refuses the same texts; the "
     "result does not depend on what was translated earlier in the process, on translations running at the same time, or on how often it is repeated, and an edit of the file or its header is always taken into account.",
     ["histories", "schedules", "programs"], "all histories of edits and translations through all entry points, sequential and concurrent",
     "State left over from an earlier translation, unordered maps and diverging code paths show only in particular histories or repetitions; each test translates one text once through one entry point.",
     ["crates/decy-core/src/lib.rs", "crates/decy-core/src/trace.rs", "crates/decy/src/main.rs", "crates/decy-core/src/cache.rs"], ["source and header texts", "process-wide state", "cache"],
     ["entry points of the pipeline", "include resolution", "transpilation cache"], "generated text and success of each translation",
     "TLA+ (TLC): EntryPoints.tla gives, for every history of edits and translations, the key that determines the text and whether it must succeed; conformance by running the histories through the library and the command line tool",
     "random histories through nine entry points with up to three concurrent translations, and repeated translations of random programs; " + BIND)

prop("C10", "The lock discipline analysis reports exactly what the code does",
     "For every function built from pthread mutex lock and unlock calls and ordinary statements (assignments, declarations, increments, conditions, loops, switch, calls, element, field and pointer accesses, return), the analysis reports "
     "exactly the lock regions (each unlock closes the latest lock of the same mutex), as data protected by a mutex exactly the variables accessed in its regions, as violations exactly the accesses to protected data outside every region, "
     "the unlocks of mutexes that are not held and the locks never released, each with its statement index; and for several functions, one deadlock warning for each pair that acquires two mutexes in opposite orders.",
     ["programs"], "all statement sequences over several mutexes and variables, all sets of functions",
     "A missed access or region shows only for a particular statement form in a particular place; tests analyse a few fixed functions.",
     ["crates/decy-analyzer/src/lock_analysis.rs", "crates/decy-verify/src/lock_verify.rs"], ["held locks", "lock regions", "protected data"], ["region extraction", "access collection", "lock order comparison"],
     "regions, protected data, violations and deadlock warnings",
     "TLA+ (TLC): Locks.tla defines the reports for every statement sequence; conformance by analysing the same functions, built directly and parsed from C",
     "every function of up to 5 statements over two mutexes, every pair with 6 lock operations, random functions over all statement forms; " + BIND)

prop("C13", "The labelling queue hands out the most uncertain samples, each once",
     "The active learning queue, in every history of adding predictions, taking batches, labelling or returning them, collecting labelled samples, clearing and reloading: keeps at most its capacity, holding the most uncertain samples (ties by arrival); "
     "a batch consists of the most uncertain waiting samples in order; no sample is waiting, handed out and labelled at the same time, or returned twice; labelled samples keep their label until collected and are collected exactly once; ids are never reused; "
     "uncertainty scores follow the chosen strategy (confidence, margin, entropy), the learner queues exactly the predictions at or above its threshold, and statistics (counts, average uncertainty, label accuracy) agree with the contents.",
     ["histories", "inputs"], "all histories of queue operations, capacities, strategies and scores",
     "Ordering, eviction and accounting errors show only for particular sequences with ties and full queues; tests add a few samples.",
     ["crates/decy-ownership/src/active_learning.rs"], ["pending samples", "labelled samples", "id counter"], ["priority insertion", "eviction", "label bookkeeping"],
     "queue contents, batches, labelled samples, scores and statistics",
     "TLA+ (TLC): Labeling.tla specifies queue and learner; conformance by replaying every history TLC generates",
     "every transition of the first steps under several capacities, thresholds and strategies, long random histories; " + BIND)

prop("C14", "Fix patterns and CI results are judged by their record",
     "After any history of pattern uses (successful or not), window resets, supersessions, oracle queries, applied and verified fixes, and reloads from disk: a pattern is retired for low use exactly when its uses in the window are below the minimum, for failures exactly when "
     "it has at least five uses and its success rate is below the minimum, archived when superseded, in that order of precedence, and kept otherwise (archived instead of retired when the policy says so); a sweep reports exactly these decisions and counts; "
     "the oracle's metrics equal the recorded events in total and per error code with exact rates, and the CI gate passes exactly when hit rate and fix rate reach their thresholds (or nothing was asked).",
     ["histories"], "all histories of uses and queries, all policies",
     "Boundary rates, precedence of reasons and accumulation across reloads need particular histories; tests use isolated statistics.",
     ["crates/decy-oracle/src/retirement.rs", "crates/decy-oracle/src/metrics.rs"], ["pattern statistics", "query counters"], ["retirement policy", "sweep", "metrics and thresholds"],
     "decisions, sweep results, metrics and gate verdicts",
     "TLA+ (TLC): Upkeep.tla specifies statistics, decisions and gate; conformance by replaying every history TLC generates",
     "every transition of the first steps under several policies and thresholds, random histories; " + BIND)

prop("C17", "The ML classifier decides only where it is allowed and confident",
     "The hybrid ownership classifier, in every sequence of classifications, of enabling or disabling the model and of setting the threshold (clamped to 0..1): in rules mode and with the model disabled the answer and confidence are those of the rules; in hybrid mode the model's answer is used exactly when "
     "its confidence reaches the threshold and otherwise the rules' answer as a fallback; in ensemble mode agreement combines both and disagreement follows the more confident (rules on ties); the metrics count exactly these outcomes, agreements and disagreements. "
     "The threshold tuner reports for each candidate exactly the correct answers and model uses on the validation samples, and selects a best candidate under its criterion.",
     ["histories", "inputs"], "all classifications, confidences and threshold histories, and all validation sets and criteria",
     "Comparisons at the threshold, ties and counters over mixed modes need particular values and histories; tests sample a few.",
     ["crates/decy-ownership/src/hybrid_classifier.rs", "crates/decy-ownership/src/threshold_tuning.rs"], ["threshold and switch", "metrics", "validation samples"], ["gating by confidence", "ensemble choice", "threshold selection"],
     "classification results, metrics, tuning results",
     "TLA+ (TLC): Hybrid.tla and Tuner.tla prescribe answers, counters and best thresholds; conformance by replaying every history and validation set TLC generates",
     "every classification in the first states, random histories of 25 steps, every validation set of up to a few samples under each criterion; " + BIND)

prop("C04", "Heap data keeps its values",
     "For every C program that allocates int arrays, structs and arrays of structs with malloc or calloc, and builds, walks, reverses, prunes and frees linked lists and binary search trees of structs, passing structs, lists and trees to functions by pointer: if C defines the result, "
     "the transpiled Rust program compiles and computes it. Element and field reads and writes, compound updates, null tests, chains of fields (p->next->v), zero-initialised memory, and the connection of nodes are preserved.",
     ["programs", "inputs"], "all programs of this kind and all inputs with defined behaviour",
     "Whether a pointer becomes a Box, a Vec, a reference or a raw pointer depends on how the whole function uses it; tests translate a few fixed shapes and mostly look at the text.",
     ["crates/decy-codegen/src", "crates/decy-core/src/lib.rs", "crates/decy-hir/src", "crates/decy-ownership/src", "crates/decy-analyzer/src/patterns.rs"], ["heap objects", "pointers between them", "variables"],
     ["allocation patterns (Box, Vec)", "pointer and field access", "ownership of nodes"], "result of the function for the inputs",
     "TLA+ (TLC): CCore.tla gives the value of each program with an explicit heap of objects; gcc confirms it; conformance by transpiling, compiling and running the same programs",
     "random programs over these shapes, 5 to 8 inputs each; outside: pointers to single ints, aliases of owning pointers, passing NULL or heap arrays to functions, realloc; " + BIND)

prop("C15", "The unsafe audit finds every unsafe construct",
     "For every Rust text that parses, the unsafe audit reports exactly the unsafe blocks, unsafe functions and unsafe methods in it, wherever they stand (functions, methods, traits, nested modules, closures, blocks, conditions, macro arguments), in order, "
     "with the number of lines they span, the kind of operation and the confidence score assigned to it; totals, density, the under-5 % verdict, the average confidence and the list of high-confidence candidates follow from these; the result does not depend on what was audited before, "
     "text that does not parse is refused, and the audit command prints the same figures.",
     ["inputs", "histories"], "all Rust texts built from nested items and statements, all sequences of audits",
     "An unsafe block missed in one syntactic position or counted from an earlier file changes the safety verdict silently; tests audit a few snippets, each with a fresh auditor.",
     ["crates/decy-verify/src/lib.rs", "crates/decy/src/main.rs"], ["auditor", "audited text"], ["syntax walk", "pattern detection", "report arithmetic"], "audit reports and command output",
     "TLA+ (TLC): Audit.tla generates texts with unsafe constructs placed in them and the report each must get; conformance by auditing the same texts with one auditor and through the command line tool",
     "every placement of up to two constructs, random texts with sequences of audits; " + BIND)

prop("C19", "Programs that need no raw pointers become safe Rust",
     "For every C program of the int subset without global variables - functions over ints, local arrays and structs, int, array and struct pointer parameters, and heap arrays and structs whose pointers are only allocated, accessed, passed to functions and freed - the generated Rust code "
     "contains no unsafe code: it compiles with unsafe code forbidden, and still computes what C defines.",
     ["programs"], "all programs of the subset",
     "Whether a pointer needs unsafe depends on the uses of a variable in the whole function; tests search fixed outputs for the word unsafe.",
     ["crates/decy-core/src/lib.rs", "crates/decy-codegen/src", "crates/decy-ownership/src", "crates/decy-analyzer/src"], ["pointer uses"], ["ownership inference", "reference, slice, Box and Vec transformation"],
     "compilation with unsafe code forbidden, and results",
     "TLA+ (TLC): CSafe.tla says which programs need no raw pointers, CCore.tla what they compute; conformance by transpiling, compiling with unsafe code forbidden and running",
     "random programs over expressions, control flow, data and heap shapes; " + BIND)

prop("C18", "Quality figures agree with what was recorded",
     "After any history of recorded results, the reported figures are exactly those of the history: compile success rate and error histogram, first-try rate, average iterations and iteration histogram, the baseline of a corpus with its 95 % Wilson interval and target verdicts, the convergence rates "
     "per tier and overall, counts of inference errors by defect and feature, the Tarantula suspiciousness of each C feature with the ranking, thresholds (above 0.5, above 0.7) and suggestions derived from it, and the retries left with the feedback of earlier iterations. Targets count as met when reached exactly; figures of empty records are zero; a reset forgets everything.",
     ["histories"], "all histories of recorded results",
     "Wrong denominators, misplaced increments and boundary comparisons show only for particular mixtures of results; tests record a few.",
     ["crates/decy-core/src/metrics.rs", "crates/decy-llm/src/verifier.rs", "crates/decy-oracle/src/baseline.rs", "crates/decy-ownership/src/error_tracking.rs"], ["counters", "histograms", "error log"], ["recording", "rates and verdicts", "suspiciousness ranking"],
     "all reported figures and reports",
     "TLA+ (TLC): Ledger.tla keeps the counts and prescribes each figure as a fraction; conformance by replaying every history TLC generates and comparing all figures after every record",
     "every transition of each ledger within the first records, random histories of 40 records; " + BIND)
