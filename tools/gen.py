#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "deterministic simulation with fault injection: seeded search over "
TRUST = "A sample of the runs, not all of them: no violation within the explored seeds. Trusts "

P = [
 dict(id="C01", title="Deferring and fusing gates is never observable",
  st="Whatever sequence of gates, allocations, measurements and state dumps a client issues on the simulator, every answer and every dumped state equals what immediate one-by-one application of the gates to the full state vector gives, up to global phase and rounding. In particular the point at which the simulator chooses to apply, fuse, cancel or reorder pending gates (or whether an observation in between forced it to) changes nothing.",
  over=["histories","inputs"], qt="all gate sequences with arbitrary angles (including multiples of pi and angles at the rounding threshold), controls, allocations, releases and observations placed anywhere",
  why="The existing tests check some dozens of fixed circuits; which gates meet in which queue depends on the whole history, and the pairs that interact number in the thousands.",
  files=["sparsesim/src/lib.rs","sparsesim/src/matrix_testing.rs","sparsesim/src/nearly_zero.rs"],
  mech=[("gate queue, H flags, Rx and Ry queues and their flushing rules","sparsesim/src/lib.rs: flush_queue, maybe_flush, enqueue_op, apply_*")],
  state=[("op_queue, h_flag, rx_queue, ry_queue","gates issued but not yet applied","sparsesim/src/lib.rs")],
  obs=["QuantumSim::get_state, dump, measure, joint_probability"],
  tech="histories of gates, allocations and observation points (when pending gates are forced out), against a dense state-vector reference",
  note=TRUST+"the dense reference simulator and a tolerance of 4e-8 plus ten times the accumulated rounding bound; registers of at most about ten qubits."),
 dict(id="C02", title="Every QIR intrinsic does what it is specified to do",
  st="Every quantum intrinsic of the C interface (body, adjoint, controlled and controlled-adjoint versions, Exp, R, two-qubit rotations, arrays of controls, static or dynamic qubits) acts on the program's qubits exactly as its unitary definition says, and calls that take tuples or arrays neither consume nor change their arguments.",
  over=["inputs","programs"], qt="all sequences of intrinsics with any qubits, Pauli lists, angles and control lists of any length, under static and dynamic addressing",
  why="Tests call most intrinsics once or twice on basis states; phases, controlled phases and adjoints of compound gates are invisible there.",
  files=["backend/src/lib.rs","backend/src/exp.rs","sparsesim/src/exp.rs"],
  mech=[("C entry points translating arguments to simulator calls","backend/src/lib.rs"),("multi-qubit exponential","backend/src/exp.rs, sparsesim/src/exp.rs")],
  state=[("SIM_STATE","per-thread simulator, results and number of qubits known","backend/src/lib.rs")],
  obs=["capture_quantum_state, __quantum__qis__dumpmachine__body, measurement results"],
  tech="programs calling the C interface in all spellings, with seeded observation points, against a dense state-vector reference",
  note=TRUST+"the dense reference, and that one program does not mix static and dynamic qubit addressing."),
 dict(id="C03", title="Measurements follow the Born rule, collapse, and repeat",
  st="Every kind of measurement returns each outcome with the probability the state gives it, never an outcome of probability zero, and leaves the register in the normalised projection onto that outcome, so that measuring again at once gives the same answer. Joint measurement and joint probability see only the parity of the named qubits, and probability queries change nothing.",
  over=["histories","inputs"], qt="all states reachable by gate sequences, all subsets of qubits, every measuring call, and all random outcomes",
  why="Tests measure basis states and a few superpositions with loose counts; the collapsed state is rarely inspected and outcomes are random.",
  files=["sparsesim/src/lib.rs","backend/src/lib.rs"],
  mech=[("measure, joint_measure, joint_probability, collapse and normalisation","sparsesim/src/lib.rs"),("m, mz, mresetz, measure, reset","backend/src/lib.rs")],
  state=[("state","the sparse amplitudes","sparsesim/src/lib.rs")],
  obs=["measurement results; dumped states after them"],
  tech="histories whose outcomes are followed by a reference that conditions on them, plus frequency tests over the whole batch of seeds",
  note=TRUST+"the dense reference; outcome biases below six standard deviations of the batch are not seen."),
 dict(id="C04", title="The same seed gives the same run",
  st="After setting the random seed, the sequence of measurement outcomes, identifiers, records and dumped states of a program depends only on the seed and the program: not on what ran earlier in the thread or process, on memory layout, on the operating system's entropy, or on the observations inserted. Different seeds give independent outcomes, and without a seed each thread's outcomes come from the operating system's entropy.",
  over=["histories","schedules","configurations"], qt="all programs, seeds, earlier histories of the thread, interleavings with other threads and entropy behaviours",
  why="One runner test compares two runs of one program with one seed in one process; dependence on hash order, addresses or earlier history needs varied surroundings to show.",
  files=["sparsesim/src/lib.rs","backend/src/lib.rs"],
  mech=[("set_rng_seed and the simulator's generator","sparsesim/src/lib.rs, backend/src/lib.rs")],
  state=[("rng","generator kept across shots","sparsesim/src/lib.rs")],
  obs=["measurement results, identifiers, dumps"],
  tech="re-execution of seeded programs in perturbed surroundings (earlier history, other threads, entropy faults), outputs compared bit for bit",
  note=TRUST+"the perturbations tried: earlier programs, threads, entropy streams and faults, allocator placement; statistical independence only to six standard deviations."),
 dict(id="C05", title="Qubit allocation, release and reuse keep every other qubit intact",
  st="A newly allocated qubit is in the zero state, unentangled, and has an identifier no live qubit has; releasing a qubit leaves the state of all the others as a measurement of the released one would, whatever was pending on it. This holds through any history of allocations, releases, swaps and identifier exchanges, in any order, and up to the largest registers.",
  over=["histories"], qt="all histories of allocations and releases in any order interleaved with gates, entangled or not, including registers beyond 64 qubits",
  why="Tests allocate and release in stack order; gaps, reuse after gaps and releases of entangled qubits with pending gates are not reached.",
  files=["sparsesim/src/lib.rs","sparsesim/src/index_map.rs","backend/src/lib.rs"],
  mech=[("identifier map and bit locations","sparsesim/src/lib.rs: allocate, release, swap_qubit_ids"),("growth on static addressing","backend/src/lib.rs: ensure_sufficient_qubits")],
  state=[("id_map","identifier to bit location","sparsesim/src/lib.rs")],
  obs=["identifiers returned; dumped states"],
  tech="histories of allocation, release, reuse and swaps interleaved with gates, against a dense reference keyed by identifier",
  note=TRUST+"the dense reference; large registers are explored only with few superposed qubits."),
 dict(id="C06", title="A refused operation changes nothing",
  st="An operation the simulator refuses (unknown or released qubit, equal control and target, wrong matrix size, unallocated swap, duplicate identifiers) is refused at the call itself, and afterwards the state, the identifiers and all pending work are exactly as before, so that the client can go on with correct results.",
  over=["histories","inputs","fault_sequences"], qt="all histories, with invalid calls of every kind injected at every point",
  why="Tests check that a few invalid calls panic on a fresh simulator; none looks at the state afterwards.",
  files=["sparsesim/src/lib.rs"],
  mech=[("argument checks before any change","sparsesim/src/lib.rs: resolve_and_check_qubits, check_for_duplicates, assertions")],
  state=[("op_queue, rx_queue, ry_queue, h_flag, id_map","must survive a refusal","sparsesim/src/lib.rs")],
  obs=["a panic at the call; later dumps and measurements"],
  tech="histories with invalid calls injected at seeded points, state compared with the reference after each refusal",
  note=TRUST+"the dense reference; refusals are panics caught by the client (Rust interface)."),
 dict(id="C07", title="Programs in different threads and simulators do not affect each other",
  st="Programs running in different threads, and independent simulator objects in one thread, each behave exactly as if they ran alone, under every interleaving of their calls: outcomes, identifiers, result stores, states and recorded output. A thread that starts later begins with an empty runtime.",
  over=["schedules"], qt="all interleavings of the runtime calls of up to four concurrent programs, between and inside calls, with simulator objects moved between threads",
  why="No test runs two programs concurrently; a shared static or a cached location would only show under interleaving.",
  files=["backend/src/lib.rs","stdlib/src/output_recording.rs","sparsesim/src/lib.rs"],
  mech=[("thread-local runtime state","backend/src/lib.rs: SIM_STATE; stdlib/src/output_recording.rs: OUTPUT")],
  state=[("SIM_STATE, OUTPUT","per thread","backend/src/lib.rs, stdlib/src/output_recording.rs")],
  obs=["all answers of every program"],
  tech="seeded schedules of real threads taking turns, each program's history compared with its run alone",
  note=TRUST+"interleaving at the granularity of runtime calls and, inside calls, of allocations, frees, requests for entropy and lock operations; races between two plain memory accesses are not explored."),
 dict(id="C08", title="A new shot starts from nothing but the random generator",
  st="After initialisation nothing of the previous shot is visible: no qubits, no pending gates, no results, and identifiers start over; each shot's behaviour is that of a fresh runtime except that the random generator goes on, so successive shots are independent samples.",
  over=["histories","crash_points"], qt="all programs, stopped and restarted at any point, with any number of shots",
  why="Tests run a fixed program for a few shots to its end; leftovers of a shot abandoned midway (pending gates, results, released gaps) are not reached.",
  files=["backend/src/lib.rs","sparsesim/src/lib.rs"],
  mech=[("__quantum__rt__initialize","backend/src/lib.rs")],
  state=[("SIM_STATE.sim, res, max_qubit_id","reset; generator kept","backend/src/lib.rs")],
  obs=["state dumps, results and identifiers after initialisation; outcome frequencies across shots"],
  tech="histories cut off at seeded points by a new shot, continued against a fresh reference",
  note=TRUST+"the dense reference; independence of shots only statistically."),
 dict(id="C09", title="The result store holds exactly what was last written",
  st="Reading or recording a result gives the value last measured or written under that identifier in this shot, and zero if there was none, for any identifiers in any order; writing one never changes another. Dynamic results keep their value for as long as the program uses them.",
  over=["histories","inputs"], qt="all sequences of measuring into, writing, reading and recording result identifiers, sparse or dense, interleaved with everything else",
  why="Tests use result 0 and 1 in order; resizing on a read, identifiers far apart and stale values after reuse are not reached.",
  files=["backend/src/lib.rs","backend/src/result_bool.rs"],
  mech=[("bit vector of results, grown on demand","backend/src/lib.rs: mz, read_result, write_result, result_record_output")],
  state=[("SIM_STATE.res","static results","backend/src/lib.rs")],
  obs=["read_result, result records, the results line of a dump"],
  tech="histories of result operations against a map, interleaved with gates, shots and observations",
  note=TRUST+"the map model; programs that mix dynamic results with static ones are excluded."),
 dict(id="C10", title="Output is delivered exactly once, in order, under any transfer behaviour",
  st="Every byte a program records, messages or dumps appears exactly once, in order, in whichever sink (buffer or standard output) was selected when it was produced, however the operating system splits or interrupts the transfers and however the buffer is drained or read. A record is one line in the documented format, and has reached standard output when the call returns unless the system cut the transfer short.",
  over=["fault_sequences","histories","inputs"], qt="all sequences of records, messages, dumps, raw writes, sink switches, drains and reads; all labels and lengths; short and interrupted writes at every call",
  why="Tests record single values into the buffer; standard output, partial writes and reads in pieces are not exercised.",
  files=["stdlib/src/output_recording.rs","stdlib/src/lib.rs","backend/src/lib.rs"],
  mech=[("OutputRecorder with write_all and a line break at the end of each record","stdlib/src/output_recording.rs")],
  state=[("buffer, use_std_out","per-thread output","stdlib/src/output_recording.rs")],
  obs=["bytes at file descriptor 1; drained and read bytes"],
  tech="the write system call behind a seam with seeded short and interrupted transfers, byte-exact comparison after every call",
  note=TRUST+"one thread writes to standard output; the text of a dump is learnt from the runtime itself."),
 dict(id="C11", title="Runtime objects live exactly as long as they are referenced",
  st="An array, tuple, string, big integer, callable or qubit array stays intact while its reference count is positive and is freed completely when it drops to zero, for every balanced history of count changes, copies and derived objects. No call reads or writes freed memory, frees twice or leaks.",
  over=["histories"], qt="all balanced histories of creations, copies, concatenations, slices, conversions, arithmetic, alias and reference count changes of any size",
  why="Tests create, use and release single objects; leaks and use after free are silent there, and mixed alias and reference histories are not covered.",
  files=["stdlib/src/lib.rs","stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/strings.rs","stdlib/src/bigints.rs","stdlib/src/callables.rs","stdlib/src/range_support.rs","backend/src/lib.rs"],
  mech=[("reference counts kept as strong counts, alias counts as weak counts","stdlib/src/lib.rs: update_counts")],
  state=[("strong and weak counts","references and aliases","stdlib/src/lib.rs")],
  obs=["object values; the allocator: live blocks, poison, red zones"],
  tech="histories of object operations with the allocator behind a seam (tags, poison, quarantine), against a value-and-count model",
  note=TRUST+"balanced programs; reads of freed memory are seen only through the poison they return."),
 dict(id="C12", title="Copies are independent values, and sharing is only ever invisible",
  st="A copy that was forced or taken of an aliased object is a separate object with the same contents: writing to either never shows in the other. A copy that may share does, and otherwise no operation on one object ever changes the contents of another.",
  over=["histories"], qt="all histories of copies (forced or not), alias counts, element writes (also through pointers taken earlier), concatenations and slices",
  why="Tests check one copy of one small object; aliasing through kept element pointers and chains of copies is not covered.",
  files=["stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/callables.rs"],
  mech=[("copy on write decided by the alias count","stdlib/src/arrays.rs, tuples.rs, callables.rs: *_copy")],
  state=[("weak counts","aliases","stdlib/src/lib.rs")],
  obs=["contents of every object after every step"],
  tech="histories of copies and writes against a value model, allocator behind a seam",
  note=TRUST+"programs that write only to unaliased objects."),
 dict(id="C13", title="Callables compose functors, captures and controls correctly",
  st="Invoking a callable calls the function its functors select (adjoint toggles, controlled accumulates), with its own capture and with all control lists joined outermost first and the argument unchanged, and returns that function's result. This holds for copies, partial applications nested to any depth and re-entrant invocations; the caller's arguments come back untouched and nothing is leaked or freed early.",
  over=["programs","histories"], qt="all programs of callable creation, copy, functor application, partial application, nested controls and invocations from within invoked functions",
  why="Tests invoke one callable with at most two control levels; re-entrancy, kept arguments and nested partial applications are not covered.",
  files=["stdlib/src/callables.rs","stdlib/src/tuples.rs","stdlib/src/arrays.rs"],
  mech=[("function table index and collapsing of control lists","stdlib/src/callables.rs: __quantum__rt__callable_invoke")],
  state=[("is_adj, ctls_count, cap_tuple","functor state","stdlib/src/callables.rs")],
  obs=["what the invoked functions see; allocator"],
  tech="simulated generated programs with re-entrant callbacks against a pure evaluator, allocator behind a seam",
  note=TRUST+"the calling conventions of generated programs as modelled."),
 dict(id="C14", title="A failing program stops, loudly, with its finished output intact",
  st="When a program fails (an explicit failure, an invalid operation, a failed write, exhausted memory) the process ends abnormally at that call: nothing after it executes and success is never reported. Every record finished before the failure is complete at standard output, in order, followed by at most the failure message or a part of the record being written; this also holds when the process is killed at any point.",
  over=["crash_points","fault_sequences","programs"], qt="all programs, all failing calls, write errors, kills inside a write and allocation failures at any point",
  why="Tests cannot observe the death of their own process; the one failing test is ignored, and no fault is injected.",
  files=["stdlib/src/lib.rs","stdlib/src/output_recording.rs","stdlib/src/arrays.rs","stdlib/src/math.rs","backend/src/lib.rs","sparsesim/src/lib.rs"],
  mech=[("message then panic, which aborts at the C boundary","stdlib/src/lib.rs: __quantum__rt__fail"),("write errors turned into panics","stdlib/src/output_recording.rs")],
  state=[],
  obs=["how the process ends; bytes at file descriptor 1"],
  tech="forked simulated processes with seeded write errors, kills inside writes, failing allocations and program errors, judged from what survives",
  note=TRUST+"the fault model: errors at the write call, null from the allocator, SIGKILL inside write."),
 dict(id="C15", title="Every completed shot is framed exactly once in the runner's output",
  st="For every program and number of shots the runner's output is, per shot and in order, a start line, the entry point's metadata, exactly the records that shot produced, and an end line, whatever pieces the output accepts them in. If the output fails, the run stops: finished shots are complete, nothing follows a gap, and success is not reported.",
  over=["fault_sequences","programs","histories"], qt="all programs, shot counts and writer behaviours (short, interrupted, failing at any byte), with earlier runs in the same thread",
  why="Tests write to a vector that accepts everything and run one or a few shots.",
  files=["runner/src/lib.rs","stdlib/src/output_recording.rs"],
  mech=[("shot loop","runner/src/lib.rs: run_module")],
  state=[("OUTPUT","records of the current shot","stdlib/src/output_recording.rs")],
  obs=["bytes accepted by the writer; result of the run"],
  tech="generated programs run by the real runner under a JIT with a seeded faulty writer, against a predicted transcript",
  note=TRUST+"a stand-in for the inkwell crate over the installed LLVM 18, and the reference for the programs' records."),
 dict(id="C16", title="All ways of running a program agree, and seeds reproduce whole runs",
  st="Running the same program from a file, from bytes or from a stream, whatever pieces the stream delivers, gives the same output and the same acceptance or refusal. With a seed the whole multi-shot output is reproduced exactly regardless of earlier runs in the process, and shot k of a run of n shots does not depend on n.",
  over=["inputs","histories","fault_sequences"], qt="all programs, seeds, shot counts, stream behaviours (short, interrupted, failing reads) and earlier runs",
  why="Tests compare one program through two of the ways, with a stream that delivers everything at once.",
  files=["runner/src/lib.rs","backend/src/lib.rs"],
  mech=[("run_file, run_bytes, run_input, seeding before execution","runner/src/lib.rs")],
  state=[("SIM_STATE","generator carried across shots","backend/src/lib.rs")],
  obs=["writer contents; result of the run"],
  tech="generated programs run by the real runner through every way in, with a seeded faulty reader and perturbed history, outputs compared",
  note=TRUST+"a stand-in for the inkwell crate over the installed LLVM 18."),
 dict(id="C17", title="Random draws stay in range under any entropy",
  st="A classical random draw returns a value within its inclusive bounds for every pair of bounds in order, whatever the operating system's entropy delivers, and is uniform over the range when that entropy is sound. Neither new shots nor the simulation's seed affect this.",
  over=["inputs","fault_sequences"], qt="all bounds including the extremes, all entropy behaviours (short, interrupted, constant, failing)",
  why="Tests draw from one small range with sound entropy.",
  files=["stdlib/src/math.rs"],
  mech=[("random_range over inclusive bounds","stdlib/src/math.rs: drawrandomint, drawrandomdouble")],
  state=[], obs=["drawn values"],
  tech="forked simulated processes with the entropy system call behind a seam, range check per draw and frequency tests over the batch",
  note=TRUST+"the rand crate's generator; biases below six standard deviations of the batch are not seen."),
 dict(id="C18", title="Looking at the state does not disturb it",
  st="Dumping the machine, capturing the state, asking for probabilities, testing a qubit for zero and passing assertions leave the state, the identifiers, the results and the future random outcomes as they were, and report the true state, its terms in the order of their indices; assertions pass exactly when the true probability is within tolerance.",
  over=["histories"], qt="all states and histories, with observations of every kind inserted at any point",
  why="Tests dump or assert at the end of a circuit; a disturbed phase or a reordered map shows only in what follows.",
  files=["sparsesim/src/lib.rs","backend/src/lib.rs"],
  mech=[("dump, get_state, joint_probability, qubit_is_zero, basis changes and their undoing around assertions","sparsesim/src/lib.rs, backend/src/lib.rs")],
  state=[("state","amplitudes and pending gates","sparsesim/src/lib.rs")],
  obs=["dump text; later states and outcomes"],
  tech="histories dense in observations of every kind, continued against a reference that ignores them",
  note=TRUST+"the dense reference and its tolerance."),
 dict(id="C24", title="Only sound, fully linked programs are executed, and all of those",
  st="A program that is damaged or cut short in storage, does not verify, has no entry point or no single one for the name asked for, whose entry point takes parameters or returns more than a machine word, uses a function or global variable the runtime does not have or declares one with another number of parameters, has names that are not text, or mixes record styles is refused with an error, runs no shot and leaves no trace in later runs. A sound program that uses any function of the runtime is executed, whatever attributes it carries and whichever machine it was compiled for.",
  over=["programs","fault_sequences","histories"], qt="all programs over the whole runtime interface, all single defects of the kinds named, storage cut at any byte, any runs before and after in the process",
  why="Tests refuse one fixed module for each of a few defects and link only the functions five sample programs use.",
  files=["runner/src/lib.rs"],
  mech=[("verification, choice of the entry point, linking","runner/src/lib.rs: run_module, choose_entry_point, bind_functions"),("recognising bitcode and text","runner/src/lib.rs: run_bytes, load_file")],
  state=[],
  obs=["result of the run; writer contents of this run and of later ones"],
  tech="generated programs with injected defects and storage damage run by the real runner between sound ones, acceptance and all output compared with prediction",
  note=TRUST+"a stand-in for the inkwell crate over the installed LLVM 18; LLVM's own reader is not hardened against arbitrary bit errors in bitcode, and its code generator ends the process on inline assembly, collectors and intrinsics of other machines it cannot translate; both are left out."),
 dict(id="C23", title="The command line runs what its arguments ask for, or nothing",
  st="A process started with any argument vector either runs exactly the program (file, or standard input when none or - is given), entry point, number of shots and seed that the documented options name, in any documented spelling and order, with that run's output on standard output and its success as exit status; or, when an option is unknown, repeated, lacks its value or has a value out of range or of the wrong form, or the program cannot be read, it reports an error, exits with failure and runs no shot; help and version run no shot either.",
  over=["inputs","configurations","fault_sequences"], qt="all argument vectors, including ones that are not valid text; all programs in the file or on standard input; all transfers of and failures in reading the program and writing the output; with and without a terminal",
  why="Tests call the library functions; none runs the command line.",
  files=["runner/src/cli.rs","runner/src/main.rs"],
  mech=[("clap definitions and the choice between file and standard input","runner/src/cli.rs"),("exit status","runner/src/main.rs")],
  state=[],
  obs=["standard output, standard error and exit status of the process"],
  tech="generated argument vectors given to the real command line in a simulated process (files, standard input, output, terminal, entropy, death), against a reference reading of the documented usage and the library's own run",
  note=TRUST+"a stand-in for the inkwell crate over the installed LLVM 18; clap built with its default features off; the library's run_bytes, which C15, C16 and C24 judge."),
 dict(id="C25", title="The Python package passes arguments and output through unchanged",
  st="Each call of the Python package's run and run_bytes, bound by Python's rules, runs the given program with exactly the given entry point, shots and seed, and delivers all of that run's output, each piece once and in order, to the callback given (or to standard output when none is), and nowhere else; it raises an exception exactly when arguments are refused, the run fails or the callback raises. This holds in any history of calls, including calls made out of a callback and calls after ones that failed. The package's command takes its arguments from its process, and its output handlers keep every piece in order.",
  over=["inputs","histories","fault_sequences"], qt="all histories of calls with all argument combinations, right and wrong, all programs, and all callbacks: raising at any piece, calling the package again (nested), not callable",
  why="The package's tests run two sample programs with a callback that appends to a list, one call at a time.",
  files=["pip/src/python.rs","pip/qirrunner/__init__.py","runner/src/lib.rs"],
  mech=[("the output handler","pip/qirrunner/__init__.py: OutputHandler"),("argument forwarding and the callback writer","pip/src/python.rs"),("delivery of records","runner/src/lib.rs: run_module")],
  state=[("OUTPUT","where records of the current run go","stdlib/src/output_recording.rs")],
  obs=["objects given to the callback; standard output; exceptions"],
  tech="histories of calls in a simulated Python interpreter whose callbacks fault and re-enter, pieces, standard output and exceptions compared with the library's own runs",
  note=TRUST+"a stand-in for pyo3 (object model, argument binding, panics as exceptions) and one for inkwell over the installed LLVM 18; the library's run_bytes, which C15, C16 and C24 judge. Calls out of a callback are compared where the output does not depend on chance."),
]

NA = [
 dict(id="C19", title="Big integer arithmetic is exact",
  st="Every big integer operation returns the mathematically exact result for operands of any size and sign, with truncating division and remainder, and conversions to and from bytes and text are inverse to each other.",
  over=["inputs"], qt="all operands", why="Tests use a handful of small operands.",
  files=["stdlib/src/bigints.rs"], mech=[("num-bigint operations","stdlib/src/bigints.rs")], obs=["returned values"],
  reason="A pure function of its inputs: no scheduling, time, I/O, entropy or state for a simulator to control or a fault to act on (lifetimes of big integers are C11)."),
 dict(id="C20", title="Classical math intrinsics agree with IEEE arithmetic",
  st="Each math intrinsic returns the IEEE double value of its function for all arguments, including infinities and not-a-number.",
  over=["inputs"], qt="all doubles", why="Tests use a few values per function.",
  files=["stdlib/src/math.rs"], mech=[("Rust's floating-point functions","stdlib/src/math.rs")], obs=["returned values"],
  reason="Pure functions of their inputs; nothing to schedule and no fault can reach them (random draws are C17)."),
 dict(id="C21", title="Conversions to text are faithful",
  st="Every conversion of a value to a string denotes exactly that value in the documented form, for all values.",
  over=["inputs"], qt="all integers, doubles, ranges, Paulis and strings", why="Tests convert a few values.",
  files=["stdlib/src/strings.rs","stdlib/src/range_support.rs"], mech=[("formatting","stdlib/src/strings.rs")], obs=["strings"],
  reason="Pure formatting of one value; no nondeterminism or fault to simulate (string lifetimes are C11, output formats of records C10)."),
 dict(id="C22", title="Array slices select exactly the elements of the range",
  st="Slicing an array by any range with any start, step and end gives the elements the range names, in its order, and nothing else.",
  over=["inputs"], qt="all arrays and ranges", why="Tests slice one array with a few ranges.",
  files=["stdlib/src/range_support.rs"], mech=[("index computation","stdlib/src/range_support.rs")], obs=["elements of the slice"],
  reason="A pure function of array and range; a simulator adds nothing over plain input generation (slices take part in C11 and C12 as a source of objects)."),
]

def line(p):
    return dict(id=p["id"], title=p["title"], statement=p["st"],
        quantifier=dict(over=p["over"], text=p["qt"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"],
            state=[dict(name=a,meaning=b,where=c) for a,b,c in p.get("state",[])],
            mechanism=[dict(name=a,where=b) for a,b in p["mech"]],
            observe_at=p["obs"], hook_needed=None))

skip = set(sys.argv[1:])
with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
    for p in P+NA:
        assert len(p["title"])<=80, p["id"]
        f.write(json.dumps(line(p))+"\n")
man = dict(version=1, setup_cmd="bin/build.sh dst dst-runner dst-pip" if not skip else "bin/build.sh dst",
  checks=[dict(property=p["id"], quick_cmd=f"bin/check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bin/check.sh {p['id']}",
     evidence_file=f"evidence/{p['id']}.json", technique=TECH+p["tech"], level="exploration", level_note=p["note"]) for p in P if p["id"] not in skip],
  not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA]
     + [dict(property=p["id"], reason="The check is being built.") for p in P if p["id"] in skip],
  notes="No hooks are needed in /repo: every seam is an existing boundary (libc write and getrandom, the global allocator, process death, generic readers and writers, the C interface, pyo3's interface). Known findings are listed in known_findings.txt. Replay a violation with target/release/dst (C15, C16, C23, C24: dst-runner; C25: dst-pip) replay FILE.")
json.dump(man, open(os.path.join(ROOT,"MANIFEST.json"),"w"), indent=1)
open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
