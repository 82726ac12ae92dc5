#!/usr/bin/env python3
"""Writes properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, os
EC = "expander_compiler/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Compiling a circuit preserves its meaning",
  "For every valid source circuit over any supported field that compiles, the layered circuit together with the generated witness program computes, on every input, the same outputs as the source circuit and is satisfied exactly when the source circuit's constraints are satisfied. A circuit the compiler cannot handle is refused with an error, never with a panic and never by emitting a circuit with another meaning.",
  ["programs", "inputs"], "every source circuit (sub-circuits, hints, divisions, boolean and custom operations, zero, non-zero and boolean constraints, public inputs) over every field, and every input vector",
  "The unit tests fix one seed range over one small generator, compare with the compiler's own evaluators and never run all fields; a miscompilation that needs a particular shape of nested sub-circuit or constraint is not reached.",
  [EC+"compile/mod.rs", EC+"builder/basic.rs", EC+"builder/hint_normalize.rs", EC+"builder/final_build.rs", EC+"builder/final_build_opt.rs", EC+"layering/"],
  [("pipeline of four steps with validation between them", EC+"compile/mod.rs: compile_with_options"), ("expression building", EC+"builder/final_build_opt.rs"), ("layering", EC+"layering/compile.rs")],
  ["outputs and satisfied flag of the layered circuit run on the solved witness, against an independent big-integer evaluator of the source circuit"])
p("C02", "Compile options never change what a circuit means",
  "Optimisation level, multiplication fan-out limit and permission to reorder inputs change only the size and layout of the result: every combination accepts every circuit that can be satisfied and divides by no constant zero, and yields the same outputs and the same accept or reject decision on every witness. When a fan-out limit is given, no wire feeds more multiplications than it allows within any one circuit (in a circuit without sub-circuits: no wire of the result does), and without permission to reorder, inputs keep the order in which the source declares them. Options outside their range (a limit below two, a level other than 1, 2 or 3) are refused as the user's error.",
  ["programs", "configurations", "inputs"], "every valid circuit, every combination of the three options, every input",
  "Existing tests compile mostly with the defaults; the fan-out test is one circuit and one set of limits.",
  [EC+"compile/mod.rs", EC+"circuit/ir/dest/mul_fanout_limit.rs", EC+"circuit/layered/opt.rs", EC+"layering/mod.rs"],
  [("option handling", EC+"compile/mod.rs: CompileOptions"), ("wire duplication", EC+"circuit/ir/dest/mul_fanout_limit.rs")],
  ["compiled circuits under different options evaluated on the same witness", "number of multiplication gates fed by one wire"])
p("C03", "Compilation is deterministic",
  "Compiling the same circuit with the same options always gives byte-identical serialized layered circuits and equal witness programs, whatever the hash seeds of the tables used inside the compiler and whatever the order in which the source's sub-circuits were inserted. Circuits built twice through the frontend are identical too, and compiling without options is compiling with the default ones.",
  ["programs", "schedules"], "every circuit, option set and every iteration order of the hash tables used inside the compiler",
  "A single run sees one hash seed; no test compares two compilations.",
  [EC+"compile/mod.rs", EC+"circuit/layered/opt.rs", EC+"layering/", EC+"frontend/builder.rs"],
  [("sorted traversal of hash maps", EC+"layering/mod.rs, circuit/ir/common/opt.rs")], ["bytes of both artefacts"])
p("C04", "Witness generation completes every satisfiable assignment",
  "Given inputs that satisfy the circuit, the witness program returns a witness whose inputs are the given inputs, extended with hint values, and public inputs, on which the compiled circuit holds; the batch form returns the same witnesses for every batch size, the unused lanes of its last pack repeat witnesses of the batch, and hint functions that fail are reported as errors. Witnesses computed from struct assignments and from raw vectors agree.",
  ["programs", "inputs", "histories"], "every circuit with hints and public inputs, every input, every batch size and hint registry",
  "Tests solve one witness for one hand-written circuit and never compare the batch with single solves.",
  [EC+"circuit/ir/hint_normalized/witness_solver.rs", EC+"circuit/ir/hint_normalized/mod.rs", EC+"frontend/witness.rs", EC+"hints/"],
  [("solver", EC+"circuit/ir/hint_normalized/witness_solver.rs"), ("hint dispatch", EC+"hints/registry.rs")], ["witness values"])
p("C05", "Every intermediate compiler pass preserves meaning and validity",
  "Each individual pass (dead-code removal, hint normalisation, hint elimination, constraint building, fan-out limiting, duplicate-argument removal, variable chain detection, output adjustment) turns a valid circuit into a valid circuit with the same outputs and the same constraint decision on every input, also in orders and on circuits the full pipeline does not use. Repeating the clean-up passes reaches a fixed point.",
  ["programs", "inputs"], "every valid intermediate circuit accepted by the pass and every input",
  "Per-pass tests use few shapes and the end-to-end result can hide two passes that cancel or an input only one pass ever sees.",
  [EC+"circuit/ir/common/opt.rs", EC+"circuit/ir/dest/mod.rs", EC+"circuit/ir/source/chains.rs", EC+"circuit/ir/hint_normalized/mod.rs", EC+"builder/"],
  [("dead code removal", EC+"circuit/ir/common/opt.rs"), ("duplicate arguments", EC+"circuit/ir/dest/mod.rs: solve_duplicates")], ["evaluation of the circuit before and after the pass"])
p("C06", "Compiled layered circuits are structurally sound",
  "Every layered circuit the compiler emits passes its own validation, reads only wires of the declared layer, has power-of-two layer sizes, and declares input and output counts equal to those its segments use. Conversion between the plain and the cross-layer form keeps every gate's position and coefficient.",
  ["programs", "configurations"], "every compiled circuit in both output forms",
  "The validator is only exercised on valid circuits; sizes and wiring are never inspected by tests.",
  [EC+"circuit/layered/mod.rs", EC+"layering/layer_layout.rs", EC+"layering/wire.rs"],
  [("validator", EC+"circuit/layered/mod.rs: validate"), ("layout", EC+"layering/layer_layout.rs")], ["fields of the layered circuit"])
p("C07", "The cross-layer output form means the same as the plain one",
  "Compiling the same circuit to the cross-layer form (gates may read any earlier layer) gives, on every input, the same outputs and decision as the plain layered form; every circuit that can be satisfied and divides by no constant zero compiles to both forms.",
  ["programs", "inputs"], "every circuit and input", "Cross-layer compilation is tested with one circuit family only.",
  [EC+"layering/ir_split.rs", EC+"layering/compile.rs", EC+"circuit/layered/mod.rs", EC+"circuit/layered/export.rs"],
  [("input type parameter of the layering code", EC+"layering/input.rs, circuit/layered/mod.rs")], ["outputs of both forms"])
p("C08", "Layered-circuit optimisations preserve meaning",
  "Deduplicating gates, expanding small segments and sharing common parts of segments leave the layered circuit valid and its outputs and decision unchanged on every input, and applying them never increases the number of layers or changes the declared interface.",
  ["programs", "inputs"], "every valid layered circuit, also ones the compiler would not emit, and every input",
  "Tests run each optimisation over circuits from one generator with a handful of seeds.",
  [EC+"circuit/layered/opt.rs"], [("optimisers", EC+"circuit/layered/opt.rs")], ["evaluation before and after"])
p("C09", "All evaluators and exporters of a layered circuit agree",
  "Scalar evaluation, SIMD evaluation, evaluation with explicit public inputs, batch runs over a witness file and the exported prover-side circuit all give the same outputs and decision for the same witness, lane by lane. Public-input coefficients take the same value wherever they appear.",
  ["programs", "inputs", "configurations"], "every layered circuit, witness, batch size and SIMD width",
  "Tests compare at most two of the evaluators on one circuit each.",
  [EC+"circuit/layered/mod.rs", EC+"circuit/layered/witness.rs", EC+"circuit/layered/export.rs", EC+"circuit/config.rs"],
  [("flattening export", EC+"circuit/layered/export.rs"), ("evaluators", EC+"circuit/layered/mod.rs")], ["output vectors"])
p("C10", "Serialized artefacts read back as what was written",
  "Writing a source circuit, witness program, layered circuit (both forms) or witness and reading it back yields an equal object that consumed exactly the bytes written, and serializing that again yields the same bytes. An artefact of another field or version is refused.",
  ["inputs", "programs"], "every valid artefact over every field", "Round-trip tests use random circuits of a single generator and do not cover field mismatch, trailing data or all coefficient kinds.",
  [EC+"circuit/ir/source/serde.rs", EC+"circuit/ir/hint_normalized/serde.rs", EC+"circuit/layered/serde.rs", EC+"circuit/layered/witness.rs"],
  [("binary format", EC+"utils and circuit serde files")], ["object equality and byte equality"])
p("C11", "Malformed artefacts are rejected, not executed",
  "Truncated, corrupted or arbitrary bytes given to any artefact reader produce an error or a well-formed object, never a panic or runaway allocation; a circuit that passes validation can be evaluated without panicking on any input of the declared size, and a circuit that refers to a missing wire, circuit, or input or has the wrong arity fails validation.",
  ["inputs", "fault_sequences"], "every byte string derived from valid artefacts by truncation and mutation, every single structural corruption of a valid circuit",
  "No test feeds malformed data.",
  [EC+"circuit/ir/common/mod.rs", EC+"circuit/ir/source/mod.rs", EC+"circuit/layered/mod.rs", EC+"circuit/layered/serde.rs"],
  [("validators", EC+"circuit/ir/common/mod.rs: validate")], ["Result of reading, validating, evaluating"])
p("C12", "Witness containers keep every witness intact",
  "However a witness batch is built (scalar, SIMD, converted between both, serialized and read back), iterating it gives the same witnesses and public inputs in the same order, padding of the last SIMD group only repeats or zero-fills beyond the declared count, and running it yields one result per witness.",
  ["inputs", "histories"], "every number of witnesses, inputs and public inputs, every SIMD width and chain of conversions",
  "Tests use one batch size that is a multiple of the SIMD width.",
  [EC+"circuit/layered/witness.rs"], [("conversion and iteration", EC+"circuit/layered/witness.rs")], ["iterated witnesses"])
p("F01", "Circuit-building operations compute what they promise",
  "Every operation of the circuit API (arithmetic, division, inverse, boolean and comparison operations, selection, binary decomposition, unconstrained operations, constants) yields on every input, after compilation and witness generation, the mathematically defined value in the circuit's field, and every assertion accepts exactly the inputs it names. Misuse such as out-of-domain operands is rejected rather than given a value.",
  ["programs", "inputs"], "every composition of API calls, over every field, every input including boundary values",
  "API tests check a few fixed inputs in one field.",
  [EC+"frontend/api.rs", EC+"frontend/builder.rs", EC+"builder/basic.rs", EC+"field.rs"],
  [("API implementation", EC+"frontend/builder.rs"), ("constant folding", EC+"builder/basic.rs")], ["values of a shadow interpreter over unbounded integers"])
p("F02", "Compiled constraints pin down every derived value",
  "For every circuit built from constrained operations, no assignment of the helper values (hints) other than the honest results satisfies the compiled circuit: whatever a malicious prover supplies, an accepted witness has the outputs and the decision defined by the inputs. (An unchecked division of zero by zero may yield any value, and results of unconstrained operations are the prover's.)",
  ["programs", "inputs", "fault_sequences"], "every circuit, input, and every corrupted assignment of helper values (exhaustive for small binary circuits)",
  "Tests only ever use honest witness generation, which cannot see a missing constraint.",
  [EC+"builder/hint_normalize.rs", EC+"builder/final_build.rs", EC+"builder/final_build_opt.rs", EC+"frontend/builder.rs"],
  [("constraints added for each hinted operation", EC+"builder/hint_normalize.rs, builder/basic.rs")], ["decision of the compiled circuit on tampered witnesses"])
p("F03", "Sub-circuits and memoised functions equal inlined code",
  "A circuit that factors code into sub-circuit calls or memoised functions computes the same outputs and decision as the same circuit with the bodies written in place, whatever the argument shapes, nesting, repetition and mix of different functions with equal argument types.",
  ["programs", "inputs"], "every program of nested and repeated calls, argument structures and inputs",
  "Tests use each mechanism with one function at a time.",
  ["expander_compiler/macros/src/lib.rs", EC+"frontend/sub_circuit.rs", EC+"frontend/builder.rs"],
  [("call keys", "expander_compiler/macros/src/lib.rs, "+EC+"frontend/sub_circuit.rs")], ["outputs with calls and inlined"])
p("F04", "Hint functions are dispatched and computed faithfully",
  "A registered hint is called with exactly the values it was given in order and its outputs become the corresponding variables; unknown hints, wrong output counts and failing hints surface as errors; built-in hints return the field-arithmetic result of their operation for every input.",
  ["inputs", "histories"], "every registry content and call sequence, every operand of each built-in hint in every field",
  "Tests call two hints with fixed values.",
  [EC+"hints/builtin.rs", EC+"hints/registry.rs"], [("dispatch", EC+"hints/registry.rs"), ("built-ins", EC+"hints/builtin.rs")], ["hint inputs and outputs"])
p("F05", "Debug evaluation agrees with the compiled circuit",
  "Evaluating a circuit definition directly on concrete values accepts exactly the assignments for which the compiled circuit, run on the generated witness, is satisfied, and both see the same intermediate values and outputs.",
  ["programs", "inputs"], "every circuit definition, every assignment", "Debug evaluation is used as an oracle in tests for a few circuits only.",
  [EC+"frontend/debug.rs", EC+"frontend/builder.rs"], [("direct evaluator", EC+"frontend/debug.rs")], ["accept or reject, values"])
p("F06", "Symbolic expressions form the right algebra",
  "Normalised expressions and linear combinations represent polynomials: construction, addition, scaling, multiplication, variable substitution and compression yield an expression whose value at every point equals the operation on the values, in a canonical form in which equal polynomials compare equal.",
  ["inputs"], "every pair of expressions of degree at most two, every field, every assignment", "Only one degree test exists.",
  [EC+"circuit/ir/expr.rs", EC+"circuit/input_mapping.rs"], [("expression type", EC+"circuit/ir/expr.rs")], ["value at random points"])
p("Z01", "Shape bookkeeping moves no element to the wrong place",
  "Reshaping, transposing, slicing and broadcasting device arrays and nested vectors, in any sequence, gives arrays whose elements equal those a plain row-major array model gives, and incompatible shapes are rejected.",
  ["histories", "inputs"], "every sequence of shape operations over every shape", "Tests fix a handful of shapes.",
  [EC+"zkcuda/shape.rs", EC+"zkcuda/vec_shaped.rs", EC+"zkcuda/context.rs"], [("axes and layout algebra", EC+"zkcuda/shape.rs")], ["copied-back data against an n-dimensional array model"])
p("Z02", "Kernel launches compute the kernel on every slice",
  "Calling a kernel over device arrays gives on every parallel index the kernel's outputs for that index's slice of partitioned inputs and the whole of broadcast inputs, for every sequence of calls and kernels, and results of one call feed the next unchanged. Argument lists and shapes the kernel does not take are refused.",
  ["programs", "histories", "inputs"], "every kernel, parallel count, mix of broadcast and partitioned arguments, and call sequence",
  "Tests run a few hand-written kernels with fixed parallelism.",
  [EC+"zkcuda/context.rs", EC+"zkcuda/kernel.rs", "expander_compiler/macros/src/lib.rs"], [("kernel execution", EC+"zkcuda/context.rs")], ["copied-back outputs"])
p("Z03", "A computation graph survives being compiled, stored and reloaded",
  "The graph recorded from a sequence of kernel launches describes exactly those launches: the circuit of each, fed with the memories, bit orders and broadcast flags of its entry, accepts precisely when the kernel's constraints hold and its outputs are those computed. The graph serializes and reads back equal, and replaying the launches against the loaded graph yields the same values, while launches that differ in number, shapes, parallel counts or the memories they use are rejected.",
  ["histories", "programs"], "every launch sequence, every stored graph, every single deviation from it", "One launch sequence is tested.",
  [EC+"zkcuda/context.rs", EC+"zkcuda/kernel.rs"], [("graph recording and replay", EC+"zkcuda/context.rs")], ["graph bytes, device values"])
p("Z04", "Honest proofs of a computation always verify",
  "For every computation graph and the device memory it produced, each proving system (dummy, single-threaded, locally deferred, parallel, deferred openings, without oversubscription; the multi-process ones for every allowed number of ranks) produces a proof that its verifier accepts, also when setup keys, graph and proof travel through serialization, and commits to every memory at its own length.",
  ["programs", "inputs", "configurations"], "every graph, parallel count, proving system and number of processes", "Integration tests prove a few fixed computations.",
  [EC+"zkcuda/proving_system/"], [("provers and verifiers", EC+"zkcuda/proving_system/")], ["verifier decision"])
p("Z05", "A proof of a false computation never verifies",
  "Whatever a verifier accepts is true: the committed memories have the lengths of the graph and satisfy the kernel of every launch, on every slice. A proof of memories with a changed value, a proof assembled from honest parts with false claims, and a proof altered, reordered, truncated, left out, reused under other commitments or checked against another graph is rejected (verification may also panic) unless what it then claims is true.",
  ["fault_sequences", "inputs", "programs"], "every graph, every single corruption of device memory, proof, commitment order or graph", "No test tampers with a proof.",
  [EC+"zkcuda/proving_system/"], [("verifiers", EC+"zkcuda/proving_system/")], ["verifier decision on tampered data"])
p("Z06", "Data shared between prover processes arrives unchanged",
  "Every structure handed from client to servers through shared memory (setup keys, graph, witness, proofs, state) reads back equal to what was written, also when segments are reused for larger or smaller data, and every process sees the same values; a server is told the settings of the client that starts it.",
  ["inputs", "histories"], "every structure, size and write-read sequence", "Tests write one vector each.",
  [EC+"zkcuda/mpi_mem_share.rs", EC+"zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs", EC+"zkcuda/proving_system/expander_parallelized/server_ctrl.rs", EC+"zkcuda/proving_system/expander_parallelized/server_fns.rs"], [("byte layout", EC+"zkcuda/mpi_mem_share.rs")], ["read-back values"])
p("U01", "Heap and bucket sort order exactly what they hold",
  "The heap always returns a smallest remaining element under the given ordering and loses or invents none, for any interleaving of insertions and removals; bucket sort returns a stable permutation grouped by ascending bucket with the right bucket boundaries.",
  ["histories", "inputs"], "every operation sequence, comparator (with ties) and bucket function", "One pseudo-random sequence with distinct-ish keys and one comparator is tested; bucket sort is untested.",
  [EC+"utils/heap.rs", EC+"utils/bucket_sort.rs"], [("sift up and down", EC+"utils/heap.rs"), ("counting sort", EC+"utils/bucket_sort.rs")], ["returned values against a sorted multiset"])
p("U02", "The perfect-hash table maps every key to its position",
  "Built from any list of distinct keys, arbitrary integers included, the table terminates and returns for every key its index in the list, whatever random parameters were drawn.",
  ["inputs", "schedules"], "every list of up to a few thousand distinct keys (there are never more sub-circuits), every draw of the internal random parameters", "One list of nine small keys is tested.",
  [EC+"utils/static_hash_map.rs"], [("collision-free parameter search", EC+"utils/static_hash_map.rs")], ["lookup results"])
p("U03", "Pools, union-find and graph ordering keep their contracts",
  "A pool gives equal values one stable index and distinct values distinct indices that read back the value; union-find answers connectivity as the equivalence closure of the merges; the topological order lists every vertex of an acyclic graph once after its predecessors and cyclic graphs are recognised; power-of-two rounding gives the nearest power.",
  ["histories", "inputs"], "every operation sequence, graph and integer in the documented range", "None of these has a test.",
  [EC+"utils/pool.rs", EC+"utils/union_find.rs", EC+"utils/misc.rs", EC+"utils/error.rs", EC+"utils/function_id.rs"], [("data structures", EC+"utils/")], ["results against naive models"])
p("U04", "Circuit-defining macros generate faithful code",
  "For every struct shape declared as a circuit, the generated code visits every input exactly once in declaration order, public inputs after being declared public, so that assignments, dumps and loads of any values round-trip; kernel and memoised-function attributes compute what the annotated function body computes for every argument structure and literal.",
  ["programs", "inputs"], "every combination of scalar, nested array, public and private fields and every annotated function signature the macros accept", "Tests use two struct shapes and one function per attribute.",
  ["expander_compiler/macros/src/lib.rs", EC+"frontend/circuit.rs"], [("code generation", "expander_compiler/macros/src/lib.rs")], ["behaviour of programs expanded with the real macros"])
p("U05", "Stored low-level programs load to what they describe",
  "A program in the textual low-level format loads into a circuit whose outputs equal a direct interpretation of the program on every input, whatever the order of its stores.",
  ["programs", "inputs"], "every well-formed program text and input", "The loader has no test.",
  [EC+"utils/interpreter_loader.rs"], [("line interpreter", EC+"utils/interpreter_loader.rs")], ["outputs of the loaded circuit"])
p("S01", "The SHA-256 gadgets compute SHA-256",
  "For every message of the supported lengths the SHA-256 circuits over the binary and the Mersenne-31 field output the standard digest, and a different claimed digest is rejected.",
  ["inputs"], "every message, both fields and every variant of the gadget", "Tests hash a few random messages of one length.",
  ["circuit-std-rs/src/sha256/"], [("round function", "circuit-std-rs/src/sha256/")], ["digest"])
p("S02", "The Poseidon gadgets compute the Poseidon permutation",
  "For every state and message the Poseidon circuits output what the reference permutation with the same parameters outputs, and absorb messages of every length as the sponge definition says.",
  ["inputs"], "every state and message length", "Tests compare a few fixed vectors.",
  ["circuit-std-rs/src/poseidon/"], [("permutation", "circuit-std-rs/src/poseidon/")], ["digest"])
p("S03", "Lookup and range-check gadgets accept exactly members",
  "The lookup and range-proof circuits accept every assignment in which all queries are table entries (with any multiplicities) and reject every assignment in which some query is not or a claimed result differs.",
  ["inputs", "fault_sequences"], "every table, query list, key and value width, and every single-element corruption", "Tests check acceptance on random tables and rarely rejection.",
  ["circuit-std-rs/src/logup.rs"], [("log-derivative sums", "circuit-std-rs/src/logup.rs")], ["decision"])
p("S04", "The matrix-product gadget accepts exactly true products",
  "The matrix multiplication circuit accepts A, B, C if C = A*B and rejects every C that differs from the product except with the negligible probability of its random check.",
  ["inputs", "fault_sequences"], "every matrix triple of the supported sizes, every single-entry corruption", "One random accept and one reject are tested.",
  ["circuit-std-rs/src/matmul.rs"], [("Freivalds check", "circuit-std-rs/src/matmul.rs")], ["decision"])
p("S05", "Big-integer gadgets agree with integer arithmetic",
  "The 120-bit and 2048-bit limb gadgets (addition, subtraction, multiplication, reduction, comparison) and their native counterparts give the integer result for every operand in range and reject every wrong claimed quotient, remainder, carry or result.",
  ["inputs", "fault_sequences"], "every operand in range with boundary limbs, every single-limb corruption", "Tests use fixed small and maximal values.",
  ["circuit-std-rs/src/non_native/", "rsa_circuit/src/"], [("carry handling", "circuit-std-rs/src/non_native/")], ["decision, native values"])
p("S06", "Emulated-field and curve gadgets agree with the field",
  "Emulated field and extension-field arithmetic, and the curve group operations built on it, give the values of the mathematical operation modulo the emulated prime for every operand, and reject wrong results.",
  ["inputs", "fault_sequences"], "every operand, operation and tower level", "Tests replay constant vectors.",
  ["circuit-std-rs/src/gnark/"], [("deferred multiplication checks", "circuit-std-rs/src/gnark/field.rs"), ("hints", "circuit-std-rs/src/gnark/hints.rs")], ["decision and values"])
p("G01", "Go and Rust agree on every stored artefact",
  "A source circuit, witness program or layered circuit written by the Go frontend's serializer is read by the Rust side as the same object and the reverse, and Go evaluation of witness programs and layered circuits gives the same values as the Rust evaluation; Go integer and buffer encodings read back what was written.",
  ["inputs", "programs"], "every artefact and input", "Each side tests only itself, with files produced once.",
  ["ecgo/irsource/", "ecgo/irwg/", "ecgo/layered/", "ecgo/utils/", EC+"circuit/ir/source/serde.rs"], [("binary format in both languages", "ecgo/layered/serialize.go, "+EC+"circuit/layered/serde.rs")], ["bytes and values"])
p("G02", "Go helper containers and field wrappers keep their contracts",
  "The Go hash map returns the last value stored for a key, sorting yields an ordered permutation, power-of-two rounding is monotone and sufficient, and the Go field engines satisfy the field laws with values always reduced.",
  ["histories", "inputs"], "every operation sequence and operand", "No Go test covers these.",
  ["ecgo/utils/", "ecgo/field/"], [("containers", "ecgo/utils/map.go"), ("fields", "ecgo/field/m31/field.go, ecgo/field/gf2/field.go")], ["results against naive models"])
p("G03", "Circuits compiled from Go mean what was written",
  "A circuit written against the Go API (arithmetic, boolean and bit operations, assertions, hints, custom gates, sub-circuit and memorized calls, deferred functions, nested structures of inputs) compiles to a layered circuit that is satisfied by a solved assignment exactly when the program's assertions hold, with the program's outputs, also when decomposition hints answer dishonestly; what the API reports of constants and shapes is true.",
  ["programs", "inputs", "fault_sequences"], "every program, assignment and dishonest hint", "The Go tests run a few fixed circuits on honest hints.",
  ["ecgo/builder/", "ecgo/api.go", "ecgo/irwg/witness_gen.go", "ecgo/test/"], [("sub circuits and memoization", "ecgo/builder/sub_circuit.go"), ("API operations", "ecgo/builder/api.go")], ["satisfaction and outputs"])
p("G04", "Go proves and verifies honestly, and refuses forgeries",
  "A proof of a solved assignment produced from Go, through the shared library or a proving server, is accepted; truncated, altered or random proofs and proofs of other public inputs are refused by a verdict rather than a crash; requests to a server carry witness and proof in the documented framing and only the reply \"success\" counts.",
  ["inputs", "fault_sequences"], "every circuit, witness, altered proof and reply", "No Go test proves anything.",
  ["ecgo/integration/", "ecgo/rust/", "expander_compiler/ec_go_lib/src/"], [("C interface", "ecgo/rust/wrapper/wrapper.go"), ("framing", "ecgo/integration/expander_exec.go")], ["verdicts and bytes"])
p("G05", "Go lookup, range and Poseidon gadgets accept exactly what they promise",
  "The Poseidon permutation and sponge over M31 compute the documented function and accept no other digest; a lookup is accepted exactly when every queried row is in the table, for every table size, number of queries, column combination and dishonest count; a range proof of n bits is accepted exactly for values below 2^n, whatever the limb width and whatever limbs the prover claims.",
  ["inputs", "histories"], "every table, query history, width and helper value", "The Go tests run one table, one range and one digest with honest values.",
  ["circuit-std-go/logup/", "circuit-std-go/poseidon-m31/"], [("range proof", "circuit-std-go/logup/logup.go"), ("permutation", "circuit-std-go/poseidon-m31/poseidon.go")], ["acceptance", "digests"])
p("G06", "Go prints and draws a layered circuit as it is",
  "Printing a layered circuit from Go lists every circuit with its sizes, calls and gates and the layers in order; the graph drawn of a circuit whose layers are one circuit each has, for every layer, exactly its gates, with the wires of the layer before as sources, the right outputs, coefficients and gate types, in whatever order the circuits are stored.",
  ["programs"], "every layered circuit", "No Go test prints or draws anything.",
  ["ecgo/layered/circuit.go"], [("drawing", "ecgo/layered/circuit.go")], ["text", "graph"])
p("C13", "Statistics of a circuit count what it contains",
  "The statistics of a layered circuit (layers, segments, gates of each kind before and after expansion, inputs and variables that are used, total cost) are those of the expanded circuit, however segments are nested, repeated or reused as layers; those of a program without sub circuits are its instructions, variables, terms and constraints.",
  ["programs"], "every layered circuit and program", "No test reads the statistics.",
  [EC+"circuit/layered/stats.rs", EC+"circuit/ir/common/stats.rs", EC+"circuit/layered/mod.rs"], [("statistics", EC+"circuit/layered/stats.rs"), ("masks", EC+"circuit/layered/mod.rs")], ["numbers"])
p("C14", "Intermediate circuits evaluate and print as what they are",
  "Each intermediate form of a circuit (source, hint-normalised, witness program, hint-less, expression form before and after removal of duplicates) has an evaluator which yields the outputs and the acceptance its instructions, constraints and zero outputs define, and refuses only what is undefined; the printed text of those forms that print, read back as arithmetic, computes the same; a printed layered circuit lists exactly its segments, gates, calls and layers.",
  ["programs", "inputs"], "every circuit and input, in each form", "The upstream tests compare these evaluators only with each other, on one random family, and print nothing.",
  [EC+"circuit/ir/common/mod.rs", EC+"circuit/ir/common/display.rs", EC+"circuit/ir/source/mod.rs", EC+"circuit/ir/hint_normalized/mod.rs", EC+"circuit/ir/hint_less/mod.rs", EC+"circuit/ir/dest/mod.rs", EC+"circuit/ir/expr.rs", EC+"circuit/layered/mod.rs"], [("evaluator", EC+"circuit/ir/common/mod.rs"), ("printing", EC+"circuit/ir/common/display.rs")], ["outputs", "acceptance", "text"])
p("R01", "The RSA program makes a circuit that decides modular powers",
  "The RSA program runs to its end and leaves a circuit, a witness and a solver that load back; the circuit accepts the program's own witness, and for every base, modulus and claimed steps it accepts exactly the assignments in which each step is a right product modulo the modulus and the result is the last step, one at a time and in batches.",
  ["inputs"], "every base, modulus, trace and result", "The program is not run by any test, and the tests of its parts use a handful of numbers.",
  ["rsa_circuit/src/", "circuit-std-rs/src/non_native/"], [("program", "rsa_circuit/src/main.rs")], ["files", "acceptance"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import sys
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
print(len(P))
