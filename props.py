ORACLE = "Trusts the harness's own DPLL solver and arithmetic models; bounded to the sizes generated."
H = ("harness", "vharness")
prop("C01", "At-most-one encodings are exact",
     "For every list of input literals (repeated or complementary literals included), each at-most-one encoding accepts exactly those assignments to the inputs in which at most one listed literal is true, using only the inputs and variables freshly handed out by the variable manager. The reported input list and clause and variable statistics match what was emitted.",
     ["inputs", "configurations"], "All input literal lists, all encodings with all split sizes and sub-encodings, all ways of constructing the encoding, all variable managers.",
     "The tests enumerate a few 3-4 literal inputs per encoding with one variable manager; the split/product boundaries depend on the number of inputs.",
     ["src/encodings/am1/"], [("Encode::encode", "src/encodings/am1/*.rs")], H, ORACLE)
prop("C02", "Encoding a cardinality constraint is exact",
     "For every cardinality constraint (at most / at least / exactly b of the listed literals, repeated or complementary literals and trivial or unreachable bounds included), the default entry point, the generic entry point and every encoding's own constraint encoder emit clauses whose models, projected to the inputs, are exactly the assignments satisfying the constraint; an error is reported only for unsatisfiable constraints. Only inputs and fresh variables are used.",
     ["inputs", "configurations"], "All constraints over all literal lists and bounds, all encoders, all variable managers.",
     "Tests check a few constraints of 4-5 literals per encoding; trivial bounds, duplicates and simulators combine in many more ways.",
     ["src/encodings/card/", "src/encodings/card.rs"], [("default_encode_cardinality_constraint, encode_cardinality_constraint, EncodeConstr", "src/encodings/card/mod.rs")], H, ORACLE)
prop("C03", "Incremental cardinality encodings enforce exact bounds at any time",
     "For every history of adding literals, encoding ranges of upper / lower / both bounds (from scratch or as a change), reserving variables and switching to a new clause collector: every bound of a requested range can afterwards be enforced, and the returned assumptions together with the emitted clauses allow exactly the input assignments satisfying that bound; any other bound is either exact as well or reported as not encoded. Building never restricts the inputs, enforced bounds can be tightened further, statistics match what was emitted, and after reserving no further variables are needed.",
     ["histories"], "All histories of operations on all cardinality encodings and their simulators (inverted, double).",
     "Incremental use has combinatorially many interleavings of extension and range requests; tests fix one or two.",
     ["src/encodings/card/"], [("BoundUpperIncremental, BoundLowerIncremental, BoundBothIncremental", "src/encodings/card/mod.rs"), ("Totalizer", "src/encodings/card/totalizer/mod.rs"), ("Inverted, Double", "src/encodings/card/simulators.rs")], H, ORACLE)
prop("C04", "Encoding a pseudo-Boolean constraint is exact",
     "For every linear pseudo-Boolean constraint with arbitrary (negative, zero, huge bound) integer coefficients and repeated or complementary literals, the default entry point, the generic entry point and every encoding's own constraint encoder emit clauses whose models, projected to the inputs, are exactly the satisfying assignments; an error is reported only for unsatisfiable constraints. Only inputs and fresh variables are used.",
     ["inputs", "configurations"], "All constraints, all encoders (generalized totalizer, binary adder, dynamic polynomial watchdog, simulators), all variable managers.",
     "Tests check a handful of fixed weight vectors.",
     ["src/encodings/pb/", "src/encodings/pb.rs"], [("default_encode_pb_constraint, encode_pb_constraint, EncodeConstr", "src/encodings/pb/mod.rs")], H, ORACLE)
prop("C05", "Incremental pseudo-Boolean encodings enforce exact bounds at any time",
     "For every history of adding weighted literals, encoding ranges of upper / lower / both bounds (from scratch or as a change), reserving variables, changing precision or limiting the range (dynamic polynomial watchdog) and switching to a new clause collector: every bound of a requested range can be enforced and then allows exactly the input assignments satisfying it (at the current precision); any other bound is exact as well or reported as not encoded. Value iteration never skips an achievable sum, coarse bounds never exceed the requested one, statistics match what was emitted.",
     ["histories"], "All histories of operations on all pseudo-Boolean encodings and their simulators.",
     "Tests fix a few weight vectors and one or two interleavings per encoding.",
     ["src/encodings/pb/"], [("BoundUpperIncremental, BoundLowerIncremental", "src/encodings/pb/mod.rs"), ("GeneralizedTotalizer", "src/encodings/pb/gte/mod.rs"), ("BinaryAdder", "src/encodings/pb/adder.rs"), ("DynamicPolyWatchdog", "src/encodings/pb/dpw/mod.rs"), ("Inverted, Double, Card", "src/encodings/pb/simulators.rs")], H, ORACLE + " Two recorded known findings of the binary adder are left out of the generated histories (known_findings.txt).")
prop("C06", "Totalizer database encodings are exact for every tree shape",
     "For every way of building the totalizer database (inserting leaves, literal trees, weighted trees, merging nodes by every strategy, connections with weights, offsets and length limits, dummy nodes), nodes have exactly the achievable output values and keep the arithmetic value of their inputs; each output literal requested is forced exactly as the requested semantics demands and never in the other direction, whatever was requested, reserved or reset before; repeating a request emits nothing; strict extension of an assignment satisfies all definitions. Draining a range of nodes is refused exactly if it is still referred to (and then changes nothing) and otherwise keeps everything else. The encodings that refer to a database (totalizer, generalized totalizer, dynamic polynomial watchdog) enforce exactly the requested bounds.",
     ["histories"], "All operation histories over the totalizer database.",
     "The database's lazy definition logic depends on the order in which values, polarities and collectors are requested; tests count clauses for one tree of four literals.",
     ["src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs", "src/encodings/card/totalizer/referenced.rs", "src/encodings/pb/gte/referenced.rs", "src/encodings/pb/dpw/referenced.rs"], [("Db::define_weighted, define_unweighted, reserve_vars, drain, strictly_extend_assignment", "src/encodings/totdb/mod.rs"), ("NodeById::merge, merge_balanced, merge_thorough, weighted_lit_tree", "src/encodings/nodedb.rs")], H, ORACLE)
prop("C07", "Certified encodings derive every clause in the proof",
     "For every history of a proof-logging totalizer or generalized totalizer (plain or behind the inverted, double and cardinality simulators), every emitted clause carries the identifier of a proof constraint that is exactly that clause, and every step of the proof is accepted by a VeriPB-style checker. The certified encodings satisfy the same exactness guarantees as the plain ones.",
     ["inputs", "histories"], "All histories of adding inputs, encoding ranges (from scratch or as a change) and reserving variables on all certified encodings.",
     "The tests that verify proofs need an external checker and run a handful of fixed inputs.",
     ["src/encodings/totdb/cert.rs", "src/encodings/card/cert.rs", "src/encodings/pb/cert.rs", "src/encodings/card/simulators.rs", "src/encodings/pb/simulators.rs"], [("Db::define_unweighted_cert, define_weighted_cert", "src/encodings/totdb/cert.rs"), ("cert::BoundUpperIncremental, BoundLowerIncremental", "src/encodings/card/cert.rs")], H, ORACLE + " The checker is the harness's own implementation of the VeriPB rules.")
prop("C08", "Certified constraint encoding is exact and provable",
     "For every sequence of cardinality and pseudo-Boolean constraints encoded with proof logging into one proof, the emitted clauses have, over the inputs, exactly the solutions of the constraints (or unsatisfiability is reported), and the proof derives every emitted clause from the constraints by steps that a VeriPB-style checker accepts.",
     ["inputs", "configurations"], "All constraints (trivial, unsatisfiable, repeated and complementary literals, equal weights included), all certified encoders, several constraints per proof.",
     "Tests certify one or two fixed constraints with an external checker; trivial structure and weight patterns select different derivations.",
     ["src/encodings/card/cert.rs", "src/encodings/pb/cert.rs", "src/encodings/card/totalizer/mod.rs", "src/encodings/pb/gte/mod.rs"], [("encode_cardinality_constraint, BoundBoth::encode_constr_cert", "src/encodings/card/cert.rs"), ("encode_pb_constraint, BoundBoth::encode_constr_cert", "src/encodings/pb/cert.rs")], H, ORACLE + " The checker is the harness's own implementation of the VeriPB rules.")
prop("C09", "The proof writer writes what was asked for",
     "For every sequence of calls to the proof library, the written proof is well-formed VeriPB text, reading it back yields exactly the requested steps (operations, constraints, substitutions, hints, sub-proofs, objectives, deletions, conclusions), and the constraint identifiers returned are those a checker assigns. Every composed operation sequence derives the constraint its operators stand for.",
     ["inputs", "histories"], "All call sequences, all operator expressions, all constraint and objective types.",
     "Tests compare a few fixed strings; operator precedence and identifier counting are only sampled.",
     ["pigeons/src/lib.rs", "pigeons/src/ops.rs", "pigeons/src/types.rs"], [("Proof", "pigeons/src/lib.rs"), ("OperationSequence", "pigeons/src/ops.rs"), ("Axiom, ConstraintId, Substitution, ProofGoal, Order, Conclusion", "pigeons/src/types.rs")], H, ORACLE + " One recorded known finding (weakening).")
prop("C10", "Constraint types keep their meaning under every transformation",
     "For every clause, cardinality constraint and pseudo-Boolean constraint (integer coefficients of either sign, any bound, repeated literals), construction, normalization, negation / inversion, splitting, conversion between the constraint types, evaluation under full and partial assignments, the is_tautology / is_unsat / is_positive_assignment / is_negative_assignment / is_clause / is_card classifications and clause operations agree with the direct arithmetic reading of the constraint.",
     ["inputs"], "All constraints and all full and partial assignments over small variable sets, coefficients over the whole isize range where no overflow is inherent.",
     "Tests check single examples of each conversion; sign, duplicate and boundary cases multiply.",
     ["src/types/constraints.rs", "src/lib.rs"], [("Clause, CardConstraint, PbConstraint", "src/types/constraints.rs")], H, ORACLE)
prop("C11", "Atomic encodings express exactly the stated implication",
     "For every literal, clause, cube, cardinality and PB constraint, each atomic encoding (literal implies X, X implies literal, equivalences, cube / clause variants) is satisfied by exactly the assignments for which the stated implication holds.",
     ["inputs"], "All atoms and all assignments over small variable sets, overlapping variables included.",
     "Tests do not evaluate the produced constraints.",
     ["src/encodings/atomics.rs"], [("atomics::*", "src/encodings/atomics.rs")], H, ORACLE)
prop("C30", "Variables, literals and assignments are consistent value types",
     "For every variable index and polarity up to the documented maximum, conversions to and from IPASIR, DIMACS and index representations round-trip and fail exactly for the documented inputs; negation, ordering and sign operations are consistent; assignments behave as a map from variables to three values under every history of assigning, replacing don't-cares, truncating and iterating.",
     ["inputs", "histories"], "The full index range and all operation histories on assignments.",
     "Tests sample a few small indices.",
     ["src/types/mod.rs", "src/types.rs", "src/lib.rs"], [("Var, Lit, Assignment, TernaryVal", "src/types/mod.rs")], H, ORACLE)
prop("C16", "Satisfiability instances keep their solutions under every operation",
     "For every instance of clauses, cardinality and PB constraints and implications, evaluation, CNF conversion (with default or given encoders), conversion to PB constraints, joining, sanitizing, re-indexing, shuffling, changing the variable manager and removing constraints keep exactly the satisfying assignments (over the original variables), and variables handed out afterwards are never in use.",
     ["inputs", "histories"], "All instances over small variable sets, all conversions, all full and partial assignments.",
     "Tests convert a few fixed instances; wrong handling needs specific mixes of constraint types.",
     ["src/instances/sat.rs", "src/instances/cnf.rs"], [("SatInstance, Cnf", "src/instances/sat.rs")], H, ORACLE)
prop("C17", "Objectives and optimization instances keep the cost of every solution",
     "For every history of building a single-objective function (weighted or unweighted soft literals and clauses, merging, removing, offset, normalization, conversion between forms), every assignment has the cost that the history's arithmetic dictates; and every conversion of an optimization instance (hard clauses with soft clauses or soft literals, re-indexing, composing, decomposing) preserves feasibility and cost.",
     ["inputs", "histories"], "All objective-building histories, all instances over small variable sets.",
     "Tests build a few objectives; merging and clashes between literals, clauses and relaxation variables are not sampled.",
     ["src/instances/opt.rs"], [("Objective, OptInstance", "src/instances/opt.rs")], H, ORACLE)
prop("C18", "Multi-objective instances keep the cost vector of every solution",
     "For every multi-objective instance, every assignment's cost vector is that of its objectives, and every conversion (hard clauses with soft clauses or literals, re-indexing, composing, decomposing, conversion from and to single-objective instances) preserves feasibility and every objective's value.",
     ["inputs"], "All instances with up to three objectives sharing literals and soft clauses.",
     "Tests parse and write fixed files.",
     ["src/instances/multiopt.rs"], [("MultiOptInstance", "src/instances/multiopt.rs")], H, ORACLE)
prop("C19", "Variable managers hand out fresh variables and consistent re-indexings",
     "For every history of creating, marking, mapping, combining and forgetting variables, every variable manager only hands out variables that are not in use, counts used variables correctly, maps each object or variable to one variable consistently in both directions, and random re-indexing is a permutation.",
     ["histories"], "All histories on all variable managers.",
     "Tests run one short history per manager.",
     ["src/instances.rs", "src/instances/"], [("BasicVarManager, ReindexingVarManager, ObjectVarManager, RandReindVarManager", "src/instances.rs")], H, ORACLE)
prop("C29", "The built-in MaxSAT search returns an optimal solution",
     "For every optimization instance and whichever solutions the SAT solver happens to return, the solution-improving search reports no solution exactly if the hard constraints are unsatisfiable, and otherwise a feasible assignment whose reported cost is its real cost and minimal.",
     ["inputs", "schedules"], "All instances over few variables, all solver answers (the stub solver prefers generated literals), both supported encodings.",
     "One test instance with one solver is used.",
     ["src/algs/maxsat.rs", "src/instances/opt.rs"], [("SolutionImprovingSearch", "src/algs/maxsat.rs"), ("OptInstance::solve_maxsat", "src/instances/opt.rs")], H, ORACLE)
prop("C12", "DIMACS CNF, WCNF and MCNF files round-trip exactly",
     "For every clausal satisfiability, optimization or multi-objective instance, the file written is a well-formed CNF / WCNF / MCNF file with exactly the instance's clauses, weights, header counts and recorded offsets, and reading it gives the same clauses and costs; instances that are not clausal are rejected. Every well-formed file, whatever its comments, blank lines, whitespace, line endings, missing final zeros, old or new WCNF flavour, is read to exactly its clauses, weights, comments and header values, by the instance readers and the streaming parsers alike.",
     ["inputs"], "All instances over small variable sets; all documents with literals up to the largest variable and any weight.",
     "Tests parse a few fixed snippets and real files; formatting and boundary variations multiply.",
     ["src/instances/fio/dimacs.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"], [("Parser, write_cnf, write_wcnf, write_mcnf", "src/instances/fio/dimacs.rs"), ("from_dimacs, write_dimacs", "src/instances/{sat,opt,multiopt}.rs")], H, ORACLE)
prop("C13", "OPB files keep their meaning when written and read",
     "For every satisfiability, optimization or multi-objective instance and every choice of first variable index and negated-literal style, the OPB file written has exactly the instance's solutions and costs (with the recorded constant offset) under an independent reading, and uses negated literals only if allowed. Every well-formed OPB file (all relational operators, minimization and maximization, repeated literals, several statements per line, optional final semicolons) is read to exactly its meaning by the streaming parser and the instance readers, with the documented errors for a wrong number of objectives.",
     ["inputs", "configurations"], "All instances and documents over small variable sets with coefficients up to 10^12.",
     "Tests parse a few fixed lines with the default options.",
     ["src/instances/fio/opb.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"], [("Parser, write_opb_lines, write_sat, write_opt, write_multi_opt", "src/instances/fio/opb.rs"), ("from_opb, write_opb", "src/instances/{sat,opt,multiopt}.rs")], H, ORACLE)
prop("C14", "Parsers are total and accept exactly well-formed lines",
     "For every byte sequence, every file parser terminates without panicking, reports each malformed line or statement as an error with a displayable message, continues with the following lines unaffected, never invents content, and accepts exactly the lines of the documented grammar; an instance is never returned for a file with a malformed line.",
     ["inputs"], "All byte sequences (random bytes, arbitrary text, token soups, edited valid documents).",
     "Tests contain a handful of malformed snippets.",
     ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs", "src/instances/fio/mod.rs"], [("Parser iterators", "src/instances/fio/{dimacs,opb}.rs"), ("ParsingError", "src/instances/fio/mod.rs")], H, ORACLE)
prop("C15", "Solver output and value lines are read to exactly the reported solution",
     "For every solver output, the result and the assignment read are exactly those reported by its status and value lines in any of the three documented value-line formats, over any number of lines; missing, invalid or contradictory lines give the documented error and never a wrong assignment.",
     ["inputs", "histories"], "All outputs with comment, status and value lines in any order and format, malformed ones included.",
     "Tests use a few fixed outputs.",
     ["src/instances/fio/mod.rs", "src/types/mod.rs"], [("parse_sat_solver_output", "src/instances/fio/mod.rs"), ("Assignment::extend_from_vline", "src/types/mod.rs")], H, ORACLE)
prop("C28", "Compressed and plain files hold exactly what was written",
     "For every content, sequence of writes and flushes, and file name, what is written through the (optionally compressing) writer is read back unchanged and is a valid file of the format its extension names; files of several concatenated members are read completely, truncated files are an error, and instances survive writing to and reading from paths.",
     ["inputs", "faults"], "All contents up to tens of kilobytes, all supported extensions in any case, truncation at any byte.",
     "Tests read a few small valid compressed files.",
     ["src/instances/fio/mod.rs"], [("open_compressed_uncompressed_read, open_compressed_uncompressed_write", "src/instances/fio/mod.rs")], H, ORACLE)
S = ("solvers", "vsolvers")
K = ("kissatc", "vkissat")
prop("C20", "Incremental solvers answer every query correctly over any history",
     "For every history of adding clauses, reserving, configuring, setting limits and phases, attaching callbacks, interrupting, propagating and solving under assumptions, MiniSat, Glucose (each with and without preprocessing), CaDiCaL and BatSat answer every query as the clauses added so far dictate: models satisfy all clauses and assumptions, cores are subsets of the assumptions and sufficient, propagated literals are implied. Calls in the wrong state are errors, interruptions happen only if asked for, and statistics count what happened.",
     ["histories", "inputs"], "All call histories on up to 110 variables with random, structured and boundary queries.",
     "Tests run a few fixed instances with one or two solve calls each.",
     ["minisat/src", "glucose/src", "cadical/src/lib.rs", "batsat/src/lib.rs", "src/solvers/mod.rs"],
     [("Solve, SolveIncremental, Propagate, PhaseLit, Terminate, Interrupt, LimitConflicts, LimitPropagations", "{minisat,glucose,cadical,batsat}/src")], S, ORACLE)
prop("C21", "Kissat answers every query correctly and refuses what it cannot do",
     "For every history of configuring, reserving, adding clauses, limits, terminators, interrupts and solving, Kissat's answer and model are correct for the clauses added, interruptions happen only if asked for, and calls that a non-incremental solver cannot serve are reported as state errors instead of ending the process.",
     ["histories", "inputs"], "All call histories on up to 110 variables and every configuration.",
     "Tests solve a few fixed instances once.",
     ["kissat/src/lib.rs"], [("Kissat", "kissat/src/lib.rs")], K, ORACLE)
prop("C22", "CaDiCaL's extended interface keeps its answers and proofs correct",
     "For every history that also uses temporary clauses and assumptions, flipping, freezing, simplification, learners, limits, configurations and declared variables, CaDiCaL's answers stay correct and callbacks report only entailed clauses to the callback attached at that time. Attached proof tracers receive a checkable derivation of every unsatisfiable answer (original clauses as added, each derived clause implied by its antecedents, conclusions matching the result), and proof files written in DRAT and LRAT check.",
     ["histories", "inputs"], "All call histories on up to 110 variables, all connect / disconnect orders of tracers, all proof formats.",
     "Tests trace one proof and call each function once.",
     ["cadical/src/lib.rs", "cadical/src/prooftracer.rs", "cadical/src/ffi"],
     [("CaDiCaL", "cadical/src/lib.rs"), ("TraceProof", "cadical/src/prooftracer.rs")], S, ORACLE)
A = ("apis", "vapis")
prop("C23", "The incremental simulator makes a one-shot solver answer any history",
     "For every history of adding clauses, solving, solving under assumptions and querying, and whichever calls of the wrapped solver are interrupted or fail, the incremental simulator answers every query as the clauses added so far dictate, with models and cores for exactly the last call, and never uses the wrapped solver beyond a single solve call. An interruption or error of the wrapped solver is reported as such and leaves no trace in later answers, and statistics count what happened.",
     ["histories", "faults"], "All call histories over small formulas with faults injected at any call of the wrapped solver.",
     "Tests simulate one solver over one instance without faults.",
     ["src/solvers/simulators.rs"], [("Incremental", "src/solvers/simulators.rs")], H, ORACLE)
prop("C24", "External solver executables are called and read faithfully",
     "For every formula, way of passing the input (temporary file, compressed or plain file, pipe; first or last argument) and the output (file, pipe), and whatever the executable prints in whatever amount, the executable is given exactly the clauses added and the result and solution returned are exactly those it reported. A missing executable, an unwritable file, a crash, an unexpected exit code or invalid output is an error and never an answer, nothing hangs, and temporary files do not stay behind.",
     ["inputs", "faults", "configurations"], "All formulas, transports and solver behaviours, including faults (signals, exit codes, invalid or missing lines, input that is not read).",
     "Tests call one real solver in a few configurations.",
     ["src/solvers/external.rs", "src/instances/fio/mod.rs"], [("Solver, InputVia, OutputVia", "src/solvers/external.rs"), ("parse_sat_solver_output", "src/instances/fio/mod.rs")], H, ORACLE)
prop("C25", "The C interface encodes exactly what the Rust encodings promise",
     "For every history of calls of the C functions, the clauses and assumptions passed to the callbacks enforce exactly the requested bounds or at-most-one constraints over the inputs, the counter of used variables advances past exactly the variables used, and the return code tells success, missing encoding, unsatisfiability, invalid literals and invalid precisions apart. No call with valid pointers ends the process.",
     ["histories", "inputs"], "All call histories for every exported encoding over small inputs; all precisions and bounds of the watchdog.",
     "Tests run one generated C program per encoding.",
     ["capi/src/encodings"], [("tot_*, gte_*, bin_adder_*, dpw_*", "capi/src/encodings/{card,pb,dpw}.rs"), ("pairwise_*, ladder_*, bitwise_*, commander_*, bimander_*, twoproduct_*", "capi/src/encodings/am1.rs")], A, ORACLE)
T = ("toolsc", "vtools")
TORACLE = "Trusts the harness's own readers of the file formats, its brute-force evaluation and its DPLL solver; the tools run as processes built in the debug profile."
prop("C26", "Command line converters keep the solutions and costs of an instance",
     "For every instance and every choice of formats, options, compression and of files or pipes, the conversion tools (cnf2opb, opb2cnf, wcnf / mcnf / OPB conversions, shuffledimacs, mo2ilp, gbmosplit) write a well-formed instance in the requested format with, over the original variables, exactly the solutions and cost vectors of the input (up to the documented renaming, scaling and splitting). Inputs that cannot be represented or read are refused with an error and a non-zero exit status.",
     ["inputs", "configurations"], "All instances over few variables, all converters and option combinations.",
     "The tools' tests run on one or two fixed files and mostly compare counts.",
     ["tools/src/bin/", "tools/src/lib.rs"], [("cnf2opb, opb2cnf, opb2wcnf, opb2mcnf, wcnf2opb, mcnf2opb, shuffledimacs, mo2ilp, gbmosplit", "tools/src/bin/*.rs")], T, TORACLE)
prop("C27", "Command line solution checker, enumerator and propagator are right",
     "For every instance and every solution file the checker accepts exactly the assignments that satisfy the constraints and reports exactly their costs; the enumerator prints every solution exactly once and nothing else; the propagator reports a conflict or exactly the literals implied by unit propagation.",
     ["inputs", "configurations"], "All instances over few variables, all assignments, all input formats and options.",
     "The tools have no unit tests of their own for this.",
     ["tools/src/bin/"], [("check-solution, enumerator, propagator", "tools/src/bin/*.rs")], T, TORACLE)
prop("C31", "Problem encodings express exactly the problem read or generated",
     "For every knapsack, assignment, facility location and clustering problem, the encodings tool writes a CNF, WCNF, MCNF or OPB instance whose solutions over the decision variables and whose cost vectors are exactly those of the problem; random problems respect the ranges requested and are reproducible. Problem files with missing, surplus or malformed values are refused with an error, never completed, truncated or answered by a crash.",
     ["inputs", "configurations"], "All problems of small size with all output options and formatting variants; all single-value and token-level corruptions of their files.",
     "The repository has no test of the encodings' meaning.",
     ["tools/src/encodings/", "tools/src/bin/encodings.rs", "tools/src/parsing.rs"], [("Knapsack, Assignment, FacilityLocation, Clustering", "tools/src/encodings/*")], T, TORACLE)
prop("C32", "The IPASIR bindings pass everything on faithfully",
     "For every history of calls and every behaviour of the IPASIR library linked, the library receives exactly the clauses, assumptions and callbacks the caller gave, in order, and results, models and cores returned are exactly those it reported; queries in the wrong state are errors and invalid answers of the library are reported as such. Learned clauses reach exactly the learner attached, terminators are asked exactly while attached, and callbacks and the library's solver are released exactly once.",
     ["histories", "faults"], "All call histories with all behaviours of the library (polls, learned clauses, cores, lazy or partial models, invalid return values).",
     "The bindings are only tested by linking one solver in a separate setup.",
     ["ipasir/src/lib.rs"], [("IpasirSolver", "ipasir/src/lib.rs")], ("ipasirc", "vipasir"), "Trusts the harness's IPASIR library stub (it answers from a DPLL solver unless told to misbehave) and its record of calls.")
prop("C33", "The Python API means what the Rust API means",
     "For every sequence of Python calls, literals, clauses, CNFs and variable managers behave as Python sequences and numbers of the documented types (indexing, slicing, iteration, deletion, comparison, hashing), implications are the documented formulas, and the encodings enforce exactly the bounds encoded over the variables handed out. Invalid arguments raise a Python exception of the documented kind; no call panics, and the documented default arguments work.",
     ["histories", "inputs"], "All call sequences over small values, all indices and slices, all bounds of every encoding on all assignments.",
     "The Python API has a handful of examples as tests, none on errors.",
     ["pyapi/src/"], [("Lit, Clause, Cnf, VarManager", "pyapi/src/{types,instances}.rs"), ("encodings", "pyapi/src/encodings/*.rs")], ("pyc", "vpy"), "Trusts the system's Python 3.12, list semantics modelled in the harness, and the harness's DPLL solver.")
prop("C34", "Serialized encodings and instances continue where they stopped",
     "For every value type, constraint, instance, objective, variable manager and (incremental) encoding, at every point of its history, serializing it and deserializing it again (with the serde feature) yields an equal object: continued use gives the same clauses, bounds, costs and fresh variables as the original would have. Formats that cannot represent a type are refused with an error.",
     ["histories", "inputs"], "All histories of C03, C05 and C19 with serialization at any point; all values and instances over few variables.",
     "The tests serialize at most single values for snapshots.",
     ["src/types/", "src/instances/", "src/encodings/"], [("derived Serialize, Deserialize", "src/types/*.rs, src/instances/*.rs, src/encodings/**")], H, ORACLE)
