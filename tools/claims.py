NA = {}
_gen = "generated source circuits (sub-circuits, memories of constants, hints, divisions, boolean operations, lookups of equal patterns) over six fields, "
c("core", "C01", "differential: generated source circuits against a direct evaluator of the source semantics, with shrinking",
  "Explored: " + _gen + "compiled under generated configurations, with satisfying and violating inputs. Sizes are bounded (tens of instructions, few sub-circuits).")
c("core", "C02", "generated circuits, every configuration knob, metamorphic and limit checks", "Explored on generated circuits and generated configurations.")
c("core", "C03", "invariants over the structure of compiled generated circuits", "Explored on generated circuits; the structural rules are restated in the harness.")
c("core", "C04", "generated witnesses, batches and thread counts against the single-witness evaluator", "Explored on generated circuits and batches.")
c("core", "C05", "generated intermediate circuits through each single pass, differential against evaluators of each representation", "Explored on generated circuits of each intermediate representation.")
c("core", "C06", "round-trips and repeated compilation of generated circuits", "Explored on generated circuits.")
c("core", "C07", "generated destination circuits through layering, against an evaluator", "Explored on generated destination circuits.")
c("core", "C08", "generated layered circuits and pass sequences, evaluation before and after", "Explored on generated layered circuits of up to four layers of up to sixteen wires, and on compiled ones.")
c("core", "C09", "generated layered circuits and witnesses through every evaluator and exporter, differential", "Explored on generated layered circuits; the exported prover circuit is evaluated by the harness from its gate lists.")
c("core", "C12", "generated witness batches through every conversion, against a plain list", "Explored on batches of up to a few SIMD groups.")
c("core", "C10", "generated artefacts of every kind written through short-write streams and read back through short-read streams", "Explored on arbitrary objects of every variant and on valid circuits; the byte primitives of Expander's serdes are a stand-in.")
c("core", "C11", "mutation of serialized artefacts and of valid circuit structures, with a bound on single allocations", "Explored on small artefacts with up to three byte mutations or one structural corruption; circuits whose declared sizes need much memory are not evaluated.")
c("front", "F01", "generated programs through the circuit-building interface, compiled and run, against a direct meaning", "Explored on generated programs of up to tens of operations over five fields.")
c("front", "F02", "generated programs attacked with dishonest helper values, solved for where the constraints allow", "Explored with structured and solved-for helper values, exhaustively for small programs over GF2. Bit decompositions as wide as the modulus are a known finding.")
c("front", "F03", "generated programs of sub-circuit and memorized calls against inlined evaluation", "Explored with fourteen memorized functions and closures of each kind, called repeatedly and nested.")
c("front", "F05", "generated programs in debug evaluation against the compiled circuit", "Explored on generated programs and inputs.")
c("front", "F04", "generated operands, registry histories and programs with well- and misbehaving hints, against a model", "Explored on generated operands of every built-in hint over five fields, registries of a few keys, and chains of hint calls.")
c("front", "F06", "generated polynomials and mappings against a term-map model", "Explored on expressions of a few variables and terms; random-coefficient terms are left to C05 and C07.")
c("front", "U05", "generated program texts against a direct interpreter", "Explored on generated programs; a limb sum equal to the modulus is a known finding.")

c("zk", "Z01", "generated sequences of shape operations and nested vectors against a row-major array model", "Explored on arrays of up to some hundred elements and at most six dimensions.")
c("zk", "Z02", "stateful: generated kernels and launch histories against a per-slice evaluator", "Explored on generated kernels of up to four arguments and histories of up to ten operations over six fields.")
c("zk", "Z03", "stateful: generated launch histories; circuits of the graph fed with intact and corrupted memories; deviating replays", "Explored on generated histories of up to four launches. Which kernel a launch is of is taken from the loaded graph, so replacing a kernel by one of the same shapes is not rejected and not covered.")

c("proving", "Z04", "generated launch histories proved and verified by each proving system over stand-ins for GKR, commitments and MPI, directly and through bytes", "Explored on generated histories of up to three launches over five fields, worlds of up to 32 ranks as threads. Launches on transposed arrays cannot be proved: a known finding.")
c("proving", "Z05", "a cheating prover: generated bad memories, proofs forged from honest parts and structural edits, judged by evaluating every launch on the committed memories", "Explored on generated histories and attacks. The random coefficients of combined conditions are known before committing: a known finding for each system.")
c("proving", "Z06", "histories of client calls against in-process servers (setup, prove, setup again, exit) and random structures through every shared-memory path, compared on every rank with what was sent; regions and windows are bounds-checked and reclaimed adversarially", "Explored on generated sessions over thread ranks; HTTP, mpiexec, MPI windows and shared memory are stand-ins; hint solvers are dropped by design.")

c("macros", "U04", "generated declarations expanded by the real macros, generated values and call sequences, against a direct meaning", "Explored on forty declared circuits, fifty kernels and forty memorized functions drawn when the harness is built (three times as many in the thorough tier), with generated values over two fields.")

c("go", "G01", "generated Go programs, layered circuits and witness solvers carried across the language boundary, read, rewritten and evaluated on both sides", "Explored over the three fields Go knows. gnark is a stand-in; the shared library is /repo's, linked with stand-ins of Expander.")
c("go", "G02", "generated operation histories and operands against maps, sorted lists and modular integers", "Explored on generated histories and operands over the three fields Go knows.")
c("go", "G03", "generated programs of the Go API against a direct interpreter, on honest and dishonest decompositions", "Explored on generated programs of up to some twenty calls over the three fields Go knows; gnark's own helpers are stand-ins.")
c("go", "G04", "generated circuits proved and verified from Go, with altered proofs and recorded server traffic", "Explored on generated circuits and alterations; the proof system behind the C interface is a stand-in, so only what this repository adds to it is judged.")
c("go", "G05", "generated tables, query histories, ranges and digests through the Go gadgets with honest and false hint answers, against direct meaning and an own Poseidon", "Explored on tables of up to eight rows and columns, up to nine queries, digests of up to some thirty elements; challenges are of the stand-in.")

c("std", "S01", "generated messages and words through every SHA-256 gadget, evaluated and compiled, against reference digests; claimed digests and carried bits altered", "Explored on generated messages up to some blocks over GF2 and M31; comparisons of limb numbers up to 29 bits a limb.")
c("std", "S02", "generated states and messages against an own Poseidon permutation and sponge", "Explored on generated states and messages over the gadget's fields with the stand-in's round constants.")
c("std", "S03", "generated tables, queries, counts and their corruptions against membership", "Explored on generated tables over four fields; a false acceptance counts when it is repeated under a second challenge.")
c("std", "S04", "generated matrices with single and compensating corruptions against the product", "Explored on matrices up to 4 by 4 over four fields; a false acceptance counts when it is repeated under a second challenge.")
c("std", "S05", "generated operands and claims through every big-integer gadget and the RSA circuit, against integers; prover answers altered where a constraint bounds them", "Explored on generated operands. Missing 120-bit range checks and unconstrained limb comparisons are known findings.")
c("std", "S06", "generated straight-line programs over the emulated field, its tower and the curve groups, maps and pairings, against an own tower; altered claims, oversized limbs and dishonest prover answers", "Explored on short generated programs; exceptional additions are excluded. Unreduced prover answers and unbounded carries of the product check are known findings.")
c("core", "C13", "generated layered circuits and programs, statistics against a count of the expanded circuit", "Explored on generated layered circuits of up to six layers and on compiled ones; statistics of programs with sub circuits are not judged, their meaning being undocumented.")
c("core", "C14", "generated circuits taken through every intermediate form, evaluated by the form's own evaluator and by a reader of its printed text, against a reference interpreter", "Explored on circuits without verifier randomness, with the fixed hint functions and public inputs that evaluator uses; forms that do not print are only evaluated.")
c("go", "G06", "generated layered circuits printed and drawn by Go, read back and compared", "Explored on circuits of up to five layers with constant coefficients; drawings only of circuits whose layers are one circuit each, as the drawing requires.")
c("rsa", "R01", "the program run in a scratch folder; generated bases, moduli and altered traces put through the solver and circuit it leaves", "Explored on tens of claims per run; the hash part is not constrained upstream and is not judged.")
