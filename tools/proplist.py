prop("P07", "Runtime requests carry the operands the program computed, in the right roles",
     """Whenever simulated VHDL or Verilog code asks the run-time system for something (scheduling an
     assignment, mapping or resolving a signal, opening or writing a file, reporting a failed check), the
     run-time system receives exactly the operands the operation was built with, each in its proper role,
     none left unset, none interchanged and none truncated to fewer bits than the receiving side expects.
     A result is taken back only from requests that produce one.""",
     ["programs", "inputs"],
     "every operation in every design, whatever values its operands have and whichever tier executes it",
     """Tests exercise each request with small, often equal or symmetric values; swapped delay and reject limits,
     stale argument words or 32-bit truncation only show for particular operands.""",
     ["src/jit/jit-irgen.c", "src/jit/jit-exits.c", "src/mir/mir-node.c", "src/rt/model.c"],
     [("argument slots written before each exit", "src/jit/jit-irgen.c"),
      ("exit dispatcher reading the slots", "src/jit/jit-exits.c"),
      ("run-time services", "src/rt/model.c")],
     "provenance dataflow over both ends of the exit protocol, compared with a reviewed routing table",
     """Decides operand routing, definedness and width for every exit on every path of the generators; does not
     decide what the services then compute.""")

prop("P11", "Every operation keeps its operands and their roles through the compiler's IRs",
     """Every operation the front end emits is translated by the middle end and then by the code generator:
     none is silently dropped, and no stage reads an operand the previous one does not supply.
     Each operand keeps its role (left/right, source/destination, count, delay, locus...) on the way.""",
     ["programs"],
     "every operation kind and every operand of it, for all designs",
     """A unit test checks chosen instruction sequences; it cannot establish that all 120 operation kinds keep every
     operand role, notably rarely used ones (VHDL-2019 conversions, external names, PSL).""",
     ["src/vcode.c", "src/mir/mir-vcode.c", "src/mir/mir-node.c", "src/jit/jit-irgen.c"],
     [("operation emitters", "src/vcode.c"), ("import dispatch", "src/mir/mir-vcode.c"),
      ("node builders", "src/mir/mir-node.c"), ("translation switch", "src/jit/jit-irgen.c")],
     "provenance dataflow over emitters, importers and builders, composed and compared with a reviewed role table",
     """Decides presence of handlers and operand roles for every operation; does not decide the meaning of constants
     folded on the way.""")

prop("P25", "No design makes the tool ask a tree node for an attribute its kind lacks",
     """Every syntax-tree, type, Verilog and PSL node is only asked for the attributes that its kind of node
     has, at every place where the program text fixes what kinds the node can be (switches and tests on the
     kind, the kinds callers pass, freshly built nodes).  Asking for another one aborts analysis, elaboration
     or code generation with an internal error, whatever the rest of the design is.""",
     ["programs"],
     "every analysed or elaborated design, legal or not",
     """There are 120 node kinds and thousands of attribute accesses; each crash needs the one construct that brings
     an unusual kind to a particular access, and the tests contain only a few hundred designs.""",
     ["src/tree.c", "src/lower.c", "src/sem.c", "src/names.c", "src/parse.c", "src/simp.c", "src/vlog/vlog-node.c"],
     [("attribute table per kind", "src/tree.c"), ("kind-directed lowering", "src/lower.c"),
      ("semantic checks", "src/sem.c")],
     "interprocedural kind-state (typestate) dataflow against the has_map tables",
     """Decides accesses whose kind set is established by the program text (3,800 sites); other accesses are not
     decided.""")

prop("P34", "Objects that moved, were released or were closed are never touched again",
     """No pointer into a growable table (attribute lists, instruction and block arrays, IR node pools, layouts,
     coverage items...) is used after an operation that may have moved the table, and no heap object, stream or
     free-listed run-time object is used after it has been released, within any function or through the functions
     it calls.""",
     ["programs"],
     "every design, input size and growth pattern of the internal tables",
     """Whether a table moves depends on its size at the moment of the call: small tests never grow the tables at the
     one point where a stale pointer is live, and a stale read usually still yields the old bytes.""",
     ["src/vcode.c", "src/mir/mir-node.c", "src/cov/cov-api.c", "src/rt/model.c", "src/jit/jit-irgen.c", "src/array.h"],
     [("growable arrays", "src/array.h"), ("IR node pools", "src/mir/mir-node.c"),
      ("operation tables", "src/vcode.c"), ("run-time free lists", "src/rt/model.c")],
     "borrow/ownership dataflow: interprocedural may-move and may-release summaries against live borrows",
     """Decides borrows held in local variables within one function (callees through summaries); borrows stored in
     heap structures are not decided.""")

prop("P01", "Saved files are read back exactly as they were written",
     """Whatever is saved -- design units, the library index, identifiers, source locations, Verilog numbers, the
     coverage database, packed machine-independent bytecode -- is read back with every value in the field it
     was saved from: writer and reader agree on the order, encoding, width, bit-packing, delta-coding,
     repetition and optional parts of every record.""",
     ["programs", "files"],
     "every design, coverage database and library that can be written",
     """Round trips in the tests cover a few records; a rarely present optional part, a table longer than a test's, a
     wide field or a second delta goes wrong only for the input that has it, and then desynchronises the rest.""",
     ["src/object.c", "src/ident.c", "src/diag.c", "src/lib.c", "src/vlog/vlog-number.c", "src/cov/cov-data.c",
      "src/jit/jit-pack.c"],
     [("object graph", "src/object.c"), ("coverage database", "src/cov/cov-data.c"),
      ("packed bytecode", "src/jit/jit-pack.c"), ("library units and index", "src/lib.c")],
     "automaton inclusion: the writer's labelled I/O words against the reader's, with field provenance",
     """Decides agreement of structure, encoding and field placement; that each primitive encoder and decoder is
     inverse to the other is assumed.""")

prop("P08", "The interpreter and the compiled code compute the same thing",
     """Every operation of the machine-independent code computes the same value, the same flags (overflow,
     carry, comparison), the same memory effect and the same branch decision whether it is interpreted or
     compiled to native code, for every operand size and condition code; run-time requests made from native
     code reach the same service as the interpreter's and record the program position wherever the
     interpreter does, so errors point to the same place.""",
     ["programs", "inputs"],
     "every operation, operand size and condition code, whichever tier happens to execute the code",
     """Which tier runs a subprogram depends on hotness and on how the design was elaborated; a difference shows only
     when a rare width/condition combination meets overflowing or signed values in the less-tested tier.""",
     ["src/jit/jit-interp.c", "src/jit/jit-llvm.c", "src/jit/jit-exits.c"],
     [("interpreter", "src/jit/jit-interp.c"), ("native code generator", "src/jit/jit-llvm.c")],
     "abstract evaluation of each opcode handler in both engines into a common term language",
     """Decides agreement per opcode; the optimiser's constant folding and the disabled x86 back end are not
     decided.  NaN comparisons are a recorded finding.""")

prop("P10", "Native code standing in for library subprograms matches their VHDL declarations",
     """The C functions that replace or implement subprograms of the standard libraries -- intrinsics, foreign
     ("INTERNAL"/"GHDL") bodies, predefined operations -- agree with the VHDL text of those libraries. Every foreign symbol
     exists and is exported; every argument is read from the slot and as the kind (scalar, real, pointer, array data, array
     length) the VHDL profile passes; the result is delivered completely on every path; sizes of parameters, results
     and out objects match the VHDL types; arrays come back with the index direction and bounds of the VHDL body (so
     'left, 'right, indexing and slicing do not depend on whether the native code is used); truth tables equal those of
     the VHDL bodies, in the scalar and in the vector variants; enumerations and records shared with C (directory and
     file status codes, time records, call paths, severity levels) have the same literals and fields in the same order.""",
     ["inputs", "configurations"],
     "every value passed to the replaced subprograms, with the replacement on or off and on every CPU",
     """Tests call each subprogram with a few values and look at the value, rarely at the bounds of the result; only one of
     the scalar/vector variants ever runs on a machine; the library has 150 such functions.""",
     ["src/jit/jit-intrin.c", "src/jit/jit-ffi.c", "src/rt/standard.c", "src/rt/stdenv.c", "src/rt/fileio.c", "lib/ieee.08/std_logic_1164-body.vhdl"],
     [("intrinsics", "src/jit/jit-intrin.c"), ("foreign subprograms", "src/rt/stdenv.c"), ("predefined subprograms", "src/lower.c")],
     "dataflow over the argument vector against profiles and bodies read from the VHDL sources, table comparison",
     """The arithmetic inside an intrinsic (bit loops of addition, multiplication, conversion) is not decided.""")

prop("P16", "Data shared between threads is accessed atomically, in order, or under its lock",
     """Whatever the scheduling of worker threads, no thread sees half-initialised or freed data and none waits for ever.
     The shared tables (identifiers, concurrent hash table, MIR types, JIT functions), work queues, function states and flags are
     stored with at least release and loaded with at least acquire ordering by those who use what they announce; they are
     not accessed plainly once shared; an object is complete before it is made visible; slot data is written before the
     slot is marked valid; whoever marks something busy (a slot, a function being compiled, a table being resized) stores
     its final mark on every path; the outcome of a compare-and-swap is acted on; replaced tables are only given to the
     deferred free, after the replacement. Data that belongs to a lock (heap free lists and roots, code cache, JIT handles,
     random number state, decompressor, MIR pool, source-path cache, global task queue) is only touched with the lock held;
     locks are released on every path, never taken twice, and taken in one order; condition waits hold the mutex and have
     tested their predicate.""",
     ["schedules", "histories"],
     "every interleaving of the worker, compiler and simulation threads",
     """Tests run on one schedule of the many; on x86 weak orderings behave like strong ones, so tests pass whatever the
     ordering in the source says.""",
     ["src/thread.c", "src/hash.c", "src/ident.c", "src/mir/mir-type.c", "src/jit/jit-core.c", "src/rt/mspace.c"],
     [("concurrent hash table", "src/hash.c"), ("work queues and locks", "src/thread.c"), ("function states", "src/jit/jit-core.c")],
     "AST queries with alias resolution of places, must-lockset and claim typestate dataflow, interprocedural lock-order graph",
     """Objects of one type are not told apart; data that has neither a lock nor an atomic access in the sources is taken to be private to a thread.""")

prop("P20", "Plug-in interfaces: error protocol, object classes and stale handles",
     """A VHPI or VPI plug-in always gets a truthful answer. Every interface function first resets the recorded error, so
     that the error query describes the last call; a call that is refused (invalid handle, object of another class,
     unsupported relation or property) has recorded an error before it returns NULL or a failing status. Internally an
     object is only ever viewed as the structure it was created with or a leading part of it, every class that has
     a structure is accepted wherever that structure is asked for, and objects are allocated large enough for it.
     Lists of children that are built on demand are built before they are read. A handle that was released, is out of
     range or belongs to an earlier occupant of its slot is rejected instead of denoting another object.""",
     ["histories", "inputs"],
     "every sequence of interface calls and every object a design can contain",
     """The tests make a few hundred calls on fifteen designs; the error state, handle reuse and class checks depend on the
     history of calls and on object classes that those designs do not contain.""",
     ["src/vhpi/vhpi-model.c", "src/vhpi/vhpi-util.c", "src/vpi/vpi-model.c", "src/vpi/vpi-util.c"],
     [("VHPI model", "src/vhpi/vhpi-model.c"), ("VPI model", "src/vpi/vpi-model.c")],
     "dataflow over the error state, per-class evaluation of the conversions, structure layout",
     """Whether the information returned is right for the design, and callbacks' timing, are not decided.""")

prop("P24", "Malformed source text cannot hang the parser or exhaust its stack",
     """Whatever tokens the VHDL, PSL or Verilog source contains -- truncated anywhere, a token missing, doubled or
     misplaced -- every loop of the parsers and of the conditional-analysis preprocessor consumes a token on each
     iteration or ends, in particular at end of file, and no chain of grammar functions calls itself again
     without having consumed a token; error recovery always drops the offending token.""",
     ["source text"],
     "every token sequence, including all truncations and single-token corruptions of valid designs",
     """There are infinitely many malformed inputs and the tests hold a few hundred; a loop that waits for a token which
     never comes only hangs on the one input that ends, or goes wrong, inside that construct.""",
     ["src/parse.c", "src/vlog/vlog-parse.c", "src/scan.c"],
     [("parser", "src/parse.c"), ("Verilog parser", "src/vlog/vlog-parse.c"),
      ("preprocessor", "src/scan.c")],
     "token-progress dataflow with summaries per set of next tokens, solved over the recursive grammar",
     """Decides progress of token-driven loops and recursion; loops over trees and names inside the semantic routines
     the parser calls are not decided.""")

prop("P04", "Scopes, locks, modes and files acquired are released on every path",
     """Operations that come in pairs stay paired on every path, error paths included: name-table and elaboration
     scopes, overload resolution, the type solver's sets, locks and mutexes, stop-the-world sections, saved emitter state,
     temporary-stack marks, scanner modes and the sections of saved files are left exactly as often as they are
     entered; every file, directory or socket opened is closed or handed over before the function that opened
     it is left.""",
     ["programs", "schedules"],
     "every path through every function of the sources, including the error and end-of-input paths",
     """A missed release on an error path only shows in the design that takes that path, often much later: names resolve
     in the wrong scope, another thread waits for ever, or descriptors run out after thousands of files.""",
     ["src/parse.c", "src/sem.c", "src/names.c", "src/lower.c", "src/elab.c", "src/object.c", "src/thread.c",
      "src/rt", "src/jit", "src/lib.c", "src/cov"],
     [("name table", "src/names.c"), ("parser modes", "src/parse.c"), ("locks", "src/thread.h"),
      ("temporary stack", "src/jit/jit-interp.c"), ("files", "src/lib.c")],
     "path-sensitive typestate (pairing depth and opened resources) with interprocedural summaries",
     """Decides pairing of the named operations and descriptors; heap memory and descriptors kept in long-lived
     structures are not decided.""")

prop("P37", "Lookups that can fail are checked before their result is used",
     """No input makes the tool dereference a result that is absent: wherever a function can return NULL -- a name or
     type that does not resolve, an attribute a declaration lacks, a file that cannot be opened, a file or plug-in
     handle that is closed or invalid, a missing environment variable or symbol -- every caller tests the result before
     it dereferences it or passes it to something that needs it, and does not go on to use a pointer it has just
     found to be NULL.""",
     ["programs", "command lines", "plug-ins"],
     "every design, command line, environment and plug-in call that makes some lookup fail",
     """A lookup fails only for the odd input -- an undeclared prefix, an unwritable directory, a closed file, an empty
     string -- so a missing test passes every test that does not contain exactly that input.""",
     ["src/parse.c", "src/names.c", "src/sem.c", "src/elab.c", "src/lower.c", "src/nvc.c", "src/lib.c", "src/rt",
      "src/jit", "src/vhpi", "src/vpi", "src/cov"],
     [("name resolution", "src/names.c"), ("file handles", "src/rt/fileio.c"), ("plug-in interfaces", "src/vhpi"),
      ("libraries", "src/lib.c")],
     "disjunctive nullness dataflow with may-return-NULL and must-not-be-NULL summaries",
     """Decides results of calls and pointers the function tests itself; pointers read from structures untested, and
     functions whose NULL result a documented contract excludes (table in the check), are not decided.""")

prop("P03", "Errors are reported, counted and stop the design, never lost",
     """A design with an error is never treated as good. Every diagnostic that is created is emitted; a semantic check
     that refuses a construct has reported an error on that path; the error type, error range and error-suppression
     marks, which silence follow-on errors, are set only where an error is reported; and analysis saves a unit,
     elaboration lowers and hands out a design, and each command goes on to the next one or exits with success only
     after testing that no errors were counted. A diagnostic emitted always increments its level's count, and the
     exit status of a simulation comes from the model.""",
     ["programs", "command lines"],
     "every incorrect design and every combination of errors in it, through every checking function and command",
     """The error tests each check one known error in one construct; an error created but not emitted, a check that
     returns false silently on one path, or a command that does not look at the error count shows only for the
     particular wrong program that takes that path.""",
     ["src/sem.c", "src/names.c", "src/parse.c", "src/common.c", "src/type.c", "src/bounds.c", "src/elab.c",
      "src/diag.c", "src/util.c", "src/nvc.c", "src/rt/assert.c"],
     [("semantic checks", "src/sem.c"), ("name resolution", "src/names.c"), ("commands", "src/nvc.c"),
      ("diagnostics", "src/diag.c"), ("elaboration", "src/elab.c")],
     "ownership of diagnostics, false-implies-reported fixpoint over boolean checkers, and gate dominance on the call graph",
     """Decides that refusals are reported and gated; whether every rule of the language has a check, and the wording or
     location of messages, are not decided.""")

prop("P12", "Run-time checks precede every use of the value they protect",
     """Generated code never stores, forces, schedules, returns or uses as an index a value that is outside its subtype:
     every scalar assigned to a variable or signal, forced, used as an initial value, passed for a generic or
     parameter, returned from a function, or given to a qualified expression, subtype conversion or array aggregate
     element is range-checked against the target's subtype first; array assignments compare lengths in every dimension;
     indexes and both ends of a slice are checked against the array's bounds; divisors, integer exponents and
     dereferenced access values are tested for zero, negative and null. A check is left out only when the bounds
     are known statically and imply it or an identical check precedes it. Each check is compiled to the comparison it
     stands for, and a failing check stops the simulation with an error instead of continuing.""",
     ["programs", "inputs"],
     "every assignment, call and expression of every design, and every value computed at run time",
     """A test has a value out of range in one kind of statement; a path of the code generator that stores before, or
     without, the check, or drops it as redundant, is silent for every value that happens to be in range.""",
     ["src/lower.c", "src/vcode.c", "src/mir/mir-node.c", "src/mir/mir-vcode.c", "src/jit/jit-irgen.c",
      "src/jit/jit-exits.c"],
     [("code generator", "src/lower.c"), ("check elision", "src/vcode.c"), ("check compilation", "src/jit/jit-irgen.c"),
      ("failure handlers", "src/jit/jit-exits.c")],
     "disjunctive value-flow analysis of the code generator with per-case helper summaries; condition matching for elision",
     """Elements of record aggregates, values copied back from out parameters, and arithmetic overflow are not decided;
     the values themselves and the analyser's static bounds (bounds.c) are trusted.""")

prop("P13", "Scheduled processes, drivers and updates run once, in their simulation phase",
     """Whatever is scheduled, in whatever order, one simulation cycle goes through the standard's phases in order: time or the
     delta count advances, due events are collected, drivers update, driving values, effective values, event flags, implicit
     signals, ordinary processes, and - only when no further delta cycle follows and none can be created - postponed processes.
     Time only moves to the earliest event, and nothing that is due is left behind. A process, watch, implicit signal or nexus
     is queued exactly as often as it is marked queued and loses the mark when it runs, so that it neither runs twice nor is
     lost; a process woken early is taken off the event heap. Postponed work goes on the postponed queue; what
     is put on a delta queue causes a delta cycle; events are handled as the kind of object they were scheduled for; a changed
     effective value is an event that records time and delta together. A request with a negative delay, a delta cycle
     requested by a postponed process, or a pulse rejection limit above the delay is refused.""",
     ["histories", "inputs"],
     "every design and every sequence of assignments, waits, forces, releases and timeouts",
     """The order of phases and the balance of marks only matter for combinations (a signal split in the cycle of its
     event, a process woken while it waits for a timeout, a request from a postponed process) that few tests contain.""",
     ["src/rt/model.c"],
     [("simulation cycle", "src/rt/model.c"), ("wakeups and queues", "src/rt/model.c"), ("schedule requests", "src/rt/model.c"), ("VHPI updates", "src/vhpi/vhpi-model.c")],
     "path-sensitive abstract interpretation with inlining and uninterpreted terms: phase automaton, mark/queue balance, request guards",
     """Order of events with equal keys, driver waveform editing and resolution values are not decided; initialisation is outside the cycle.""")

prop("P14", "Constant folding and simplification keep the value",
     """Simplification in the intermediate representation never changes what a program computes. A constant folded from
     known operands, an operand handed back in place of an operation, and an operation of another kind put in its
     place all equal the operation asked for, for every value the operands can have: arithmetic, logic, comparison,
     selection, cast, null range and range length. An operation checked for overflow is replaced by an unchecked
     one only where no overflow is possible; the bounds recorded for a result contain every value it can take; an
     earlier operation is reused only if kind, operands, dimension and other fields are the same; the left, right,
     direction and data of an array descriptor are those of the dimension asked for; and a load or store is not
     answered from, or dropped because of, an earlier one across an operation that may access the same place.""",
     ["programs", "inputs"],
     "every operand value, bound and operation sequence that any design can produce",
     """A wrong fold needs exactly the operand values, bounds or neighbouring operations that trigger it; the tests fold
     a few dozen constants.""",
     ["src/vcode.c", "src/mir/mir-node.c", "src/mir/mir-type.c"],
     [("vcode builders", "src/vcode.c"), ("MIR builders", "src/mir/mir-node.c"), ("MIR ranges", "src/mir/mir-type.c")],
     "path-wise symbolic terms over the syntax tree compared in normal form (no solver)",
     """Each builder is decided alone, given correct bounds of its operands; the interpreter's and code generators'
     implementation of the operations, LLVM's optimisations and the folding of whole function calls at analysis time
     are not decided.""")
