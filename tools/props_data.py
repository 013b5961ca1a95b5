TRUST = "Random search, not proof. Trusts the reference interpreter in src/ref.cpp, the generator's AST printer and g++."

prop("C01", "Compiled programs compute what the language says",
 "Every program accepted by the compiler, with the optimiser on or off, runs exactly as the language's evaluation rules say: the values it passes to host functions and their order, its return value, and whether and with which thread error it ends. This covers expressions with precedence and left to right evaluation, short of no operator, scopes, branches, loops, calls, recursion, arrays, strings, constants and global initialisers.",
 ["programs", "inputs"], "all source programs of the language that the compiler accepts, any nesting of its statements and expressions, any values",
 "The existing tests run some 300 fixed programs whose result is mostly one number; a miscompilation needs one particular nesting of constructs or one particular value.",
 [COMP+"parser.cpp", COMP+"sema.cpp", COMP+"codegen.cpp", COMP+"pre_codegen.cpp", VM+"thread.cpp", "LanguageRef.md"],
 [("recursive descent parser and expression stack", COMP+"parser.cpp"), ("stack offsets and frame sizes", COMP+"sema.cpp, "+COMP+"pre_codegen.cpp"), ("instruction emission", COMP+"codegen.cpp"), ("instruction execution", VM+"thread.cpp")],
 ["host function arguments", "thread return value", "thread error"],
 "property-based testing: generated programs against a reference interpreter", TRUST)

prop("C02", "The optimiser never changes what a program does",
 "A program compiled with the optimiser on shows the same outputs, return value, thread error and error line as the same program compiled with it off. Neither constant folding nor the removal of dead code may be visible.",
 ["programs"], "all accepted programs in which no constant expression divides by zero",
 "Tests run each program once, at one optimisation setting; folding errors need particular operator and value combinations (overflow, negative remainders, mixed types) in particular contexts.",
 [COMP+"optimize.cpp"],
 [("constant folding, if removal, return elimination", COMP+"optimize.cpp")],
 ["host function arguments", "thread return value", "thread error and line"],
 "property-based testing: differential, optimiser on against off", "Random search. The unoptimised compilation is the oracle (itself compared with the reference interpreter by C01).")

prop("C03", "Garbage collection is invisible to programs",
 "At whatever points collections happen and however often, every value reachable from globals, stacks of all threads and array elements keeps its contents and identity (shared and cyclic arrays stay shared and cyclic), and programs whose live data is small run on however much they allocate in total.",
 ["programs", "schedules", "histories"], "all programs with live data well below the heap size, all collection points, any number of threads",
 "Tests allocate too little to collect more than a few times and never choose the collection point; a lost root needs a collection at one particular instruction.",
 [VM+"vm_gc.cpp", VM+"vm.cpp", VM+"thread.cpp"],
 [("copying collector with two spaces", VM+"vm_gc.cpp"), ("root enumeration: globals, thread stacks", VM+"vm.cpp, "+VM+"thread.cpp"), ("collection trigger", VM+"vm_gc.cpp should_collect")],
 ["host function arguments", "thread return value"],
 "property-based testing: generated allocation histories under generated collection schedules, against a non-collecting model", TRUST + " Live data below 120 KB of a 1 MB arena.")

prop("C04", "Threads run to schedule and do not disturb each other",
 "Each thread shows exactly what it would show alone, whatever the interleaving and time slices, unless it shares globals or arrays with another; threads started by a program get their arguments intact, wait(n) suspends for n rounds of the vm and nothing else, no time slice runs more instructions than the host asked for, and the vm resumes every live thread each round and forgets finished ones.",
 ["schedules", "programs", "histories"], "all programs with several threads, all interleavings, quanta and step kinds chosen by the host",
 "Tests run one thread to completion in one call; interleavings are unbounded.",
 [VM+"thread.cpp", VM+"vm.cpp", L+"lib_builtins/builtin.cpp"],
 [("per thread stacks and frames", VM+"thread.h"), ("round robin resume", VM+"vm.cpp"), ("new_thread and wait", L+"lib_builtins/builtin.cpp")],
 ["host function arguments per thread", "thread finished and error flags", "threads known to the vm"],
 "stateful property-based testing over generated schedules against a coroutine model", TRUST)

prop("C05", "Run time faults end only the faulting thread, with a true report",
 "An operation the language does not define (wrong types, bad index, division by zero, wrong argument counts, bad arguments to built in functions, calling what cannot be called) stops the thread with the right error code and the source line of the faulting operation, never harms the host process, keeps all effects made before it and none after, and leaves the vm usable for later calls.",
 ["programs", "inputs", "histories"], "all programs and all faults at any point and call depth, all ways to run a thread, any sequence of later calls",
 "Tests check only that a handful of programs fail at all, not which error, at which line, or what happens to the vm afterwards.",
 [VM+"thread.cpp", VM+"thread_error.cpp", VM+"vm.cpp", L+"lib_common/program.cpp"],
 [("raise_error and error state", VM+"thread.cpp"), ("pc to line table", L+"lib_common/program.cpp"), ("call_once", VM+"vm.cpp")],
 ["thread error code", "source line", "outputs", "later calls"],
 "property-based testing: fault injection into generated programs against a reference interpreter", TRUST + " Heap exhaustion is a recorded finding.")

prop("C06", "The compiler survives any source text",
 "For any text, compilation ends in success or in an error with a non-empty message and a line inside the text; it never crashes, hangs, or reads or writes out of bounds, and what it accepts can be executed without corrupting the host.",
 ["inputs"], "all source texts without NUL bytes up to a few thousand characters, nesting up to 400",
 "Tests hold a few dozen malformed programs; the space of malformed texts is unbounded and memory errors mostly stay silent without instrumentation.",
 [COMP+"lexer.cpp", COMP+"parser.cpp", COMP+"sema.cpp", COMP+"nano.cpp", COMP+"errors.cpp"],
 [("lexer bounds", COMP+"lexer.cpp"), ("error exceptions", COMP+"errors.cpp"), ("build boundary", COMP+"nano.cpp")],
 ["result and error of a build", "AddressSanitizer reports", "termination"],
 "structure-aware fuzzing of source texts under AddressSanitizer", "Random search; texts made by mutation, token soup and nesting. Very deep nesting is a recorded finding.")

prop("C07", "Exactly the programs that break a static rule are rejected",
 "A program with an undeclared or out of scope name, a doubly declared name, a wrong argument count to a known function, a write to a constant or function, a constant division by zero in a place where it must be evaluated at compile time, or broken syntax is rejected with the line and name of the fault; a program that breaks no rule is accepted.",
 ["programs"], "all programs with at most one broken rule, at any position",
 "Tests check that some fixed programs are rejected, not where and why, and miss rules that fail only in particular scopes or positions.",
 [COMP+"sema.cpp", COMP+"parser.cpp", COMP+"errors.cpp", COMP+"optimize.cpp"],
 [("declaration and scope checks", COMP+"sema.cpp"), ("syntax errors", COMP+"parser.cpp")],
 ["result, message and line of a build"],
 "property-based testing: faults planted into generated valid programs", "Random search; the generator's own scoping rules are the oracle.")

prop("C08", "How a program is written down does not change what it does",
 "White space, comments, blank lines, keyword case, redundant parentheses, consistent renaming and the order of function definitions do not change behaviour; formatting alone does not even change the emitted code, and line numbers in errors move with the text.",
 ["programs"], "all accepted programs and all such rewritings",
 "Tests fix one spelling per program.",
 [COMP+"lexer.cpp", COMP+"parser.cpp", COMP+"sema.cpp", COMP+"codegen.cpp"],
 [("lexer", COMP+"lexer.cpp"), ("name resolution", COMP+"sema.cpp")],
 ["emitted program tables", "host function arguments", "error line"],
 "metamorphic property-based testing", "Random search; relation between two compilations, no model needed.")

prop("C09", "Saved programs load back identical and damaged ones are refused safely",
 "Loading a saved program gives one with the same code, strings, functions, host function names and line table, which behaves identically; a truncated file is refused, any other damaged file is refused or loaded without crashing or reading out of bounds; a save that cannot be written completely reports failure.",
 ["programs", "inputs", "crash_points", "fault_sequences"], "all programs, all truncation points, random damage, write failures at any byte",
 "No existing test saves or loads a program at all.",
 [L+"lib_common/program.cpp", L+"lib_common/file.h"],
 [("serial_save and serial_load", L+"lib_common/program.cpp")],
 ["tables of the loaded program", "outputs of both programs", "result of save and load"],
 "property-based testing: round trips, file damage and injected write faults under AddressSanitizer", "Random search.")

prop("C10", "Stepping by line visits the lines a program executes",
 "Stepping a thread line by line stops once at every source line the program enters, in execution order and nowhere else, with exactly the effects of the lines before it done; stepping changes no result.",
 ["programs", "histories"], "all programs, every step of their execution",
 "No existing test steps a thread.",
 [VM+"thread.cpp", L+"lib_common/program.cpp", COMP+"codegen.cpp"],
 [("step_line", VM+"thread.cpp"), ("line table emission", COMP+"codegen.cpp")],
 ["current source line after each step", "outputs so far"],
 "property-based testing: line traces against a reference interpreter", TRUST)

prop("C11", "Breakpoints halt at every entry of their line and nowhere else",
 "With any history of adding, removing and clearing breakpoints, running and stepping, a thread halts exactly when execution enters a line that has a breakpoint at that moment, before any effect of that line, and continues from there as if it had not halted.",
 ["programs", "histories"], "all programs, all breakpoint sets and histories",
 "No existing test sets a breakpoint.",
 [VM+"thread.cpp", VM+"thread.h"],
 [("breakpoint set and check in resume", VM+"thread.cpp")],
 ["halted flag, line and outputs at each halt"],
 "stateful property-based testing against the line trace of a reference interpreter", TRUST)

prop("C12", "Operators and built in functions are right on every value",
 "Every operator, index, call, condition and built in function, on operands of every type and value (extreme integers, special floats, any strings, nested and cyclic arrays, none, functions), gives the result the language defines or the thread error it defines, whether operands are constants or run time values, and never corrupts memory.",
 ["inputs"], "all combinations of operator or built in function and operand values",
 "Tests use small positive numbers and short strings, mostly one type per operator.",
 [VM+"thread.cpp", VM+"value.cpp", L+"lib_builtins/builtin.cpp", COMP+"optimize.cpp"],
 [("operator instructions", VM+"thread.cpp"), ("built in functions", L+"lib_builtins/builtin.cpp"), ("folding", COMP+"optimize.cpp")],
 ["host function arguments", "thread error"],
 "property-based testing under AddressSanitizer against a value level model", TRUST)

prop("C13", "A program split over imported files is one program",
 "Splitting a program over files that import each other, in any import graph (repeated, circular, self and nested directories), gives the program of the joined texts, each file read once in order of first import relative to its importer's directory (a file already read is recognised in other letter case and with other slashes); errors, at compile time and at run time, name the right file and line, whose text the host can show, and a missing import is an error.",
 ["programs", "configurations"], "all splits of a program and all import graphs over them",
 "Existing tests compile single files.",
 [L+"lib_common/source.cpp", COMP+"nano.cpp", COMP+"parser.cpp"],
 [("source manager: load, import paths, duplicate detection", L+"lib_common/source.cpp"), ("import statement", COMP+"parser.cpp")],
 ["files loaded", "outputs", "file and line of errors"],
 "property-based testing over generated file trees against a reference interpreter", TRUST)

prop("C14", "Host and program exchange values faithfully through the embedding API",
 "Arguments reach host functions complete, in order and with their count, and host results, handler results (operators, members, elements, thread events), arguments and return values of calls made by the host, and globals looked up by name are exactly what the other side gave; handlers are consulted only where the language leaves an operation open; a host error or halt acts at once; two vms over one program, and a vm after reset, share nothing.",
 ["programs", "histories"], "all programs with host functions and handlers, all sequences of calls, resets, handler changes and vms",
 "Tests use one host function, one call and one vm per program, and no operation handlers.",
 [VM+"vm.h", VM+"vm.cpp", VM+"thread.cpp", VM+"thread.h", "source/nanoscript.h"],
 [("host function calls", VM+"thread.cpp do_INS_SCALL_"), ("operation handlers", VM+"vm.h handlers_t"), ("call_once, call_init, reset, globals", VM+"vm.cpp")],
 ["host function arguments and counts", "thread return value", "thread error", "globals", "handler event counts"],
 "stateful property-based testing of the embedding API against a reference interpreter", TRUST)

prop("C15", "Emitted code is well formed and its tables and listing describe it",
 "For every accepted program the emitted code is a sequence of whole instructions, partitioned into the listed functions; jumps, calls, string, host function, local and global operands are in range and call the right number of arguments; the stack depth at each instruction is the same on every path, never falls below the frame and returns drop exactly the frame; execution keeps to these depths; the function, argument, local, global and line tables describe the code; and the disassembler shows every instruction exactly once, as it is, under its function and line.",
 ["programs", "inputs"], "all accepted programs, with the optimiser on or off, and every path through their code",
 "No existing test looks at the emitted code or at the disassembler; a wrong operand on a path that is not taken shows in no result.",
 [COMP+"codegen.cpp", COMP+"pre_codegen.cpp", COMP+"disassembler.cpp", L+"lib_common/instructions.cpp", COMP+"program_builder.h", VM+"thread.cpp"],
 [("emission and fixups", COMP+"codegen.cpp"), ("slots and frame sizes", COMP+"pre_codegen.cpp"), ("disassembler", COMP+"disassembler.cpp"), ("instruction metadata", L+"lib_common/instructions.cpp")],
 ["program code and tables", "disassembler output", "thread stack depth"],
 "property-based testing: generated programs against a bytecode verifier, under AddressSanitizer", "Random search. Trusts the verifier in src/c15.cpp and the instruction set as described in instructions.h.")

prop("C16", "The command line programs report faithfully",
 "nano_driver runs the program made of the files given: what the program prints (puts, print, putc), what it reads (gets, getc), the numbers from rand and its result appear exactly as the language defines, effects made before an error included; its exit status tells success, missing files, compile errors (with file, line and message), a missing main, failing initialisers and run time errors apart; the program it saves is the one it ran. nano_comp writes exactly the requested code, listing and syntax tree files of the program, at the requested optimisation, and reports failure when it cannot compile or cannot write.",
 ["programs", "inputs", "configurations"], "all programs, inputs, sets of files and options",
 "No existing test runs either program.",
 ["source/driver/driver.cpp", "source/comp/driver.cpp", COMP+"disassembler.cpp"],
 [("console functions and result printing", "source/driver/driver.cpp"), ("options and output files", "source/comp/driver.cpp")],
 ["exit status", "stdout and stderr", "files written"],
 "property-based testing of the built programs against a reference interpreter and in-process compilation", TRUST)

prop("C17", "Drawing programs show exactly what they draw",
 "Every frame shown by the SDL driver is, dot by dot, the picture made by the dots, lines, circles, colours and clears before it, clipped to the screen, tripled in both directions, on screens of every allowed size; drawing never touches memory outside the screen, also when a screen cannot be created or is replaced; wrong arguments draw nothing; sleep delays at least as asked, keydown tells the state of the key, and the exit status tells whether the program failed.",
 ["programs", "inputs", "fault_sequences"], "all drawing programs with coordinates within 16383 of the origin, screen sizes up to 4096, any failing window or surface",
 "No existing test covers the SDL driver; clipping and strides only fail at particular coordinates and screen shapes.",
 ["source/driver_sdl/driver.cpp"],
 [("drawing functions", "source/driver_sdl/driver.cpp"), ("frame copy", "source/driver_sdl/driver.cpp vm_flip"), ("main loop", "source/driver_sdl/driver.cpp main")],
 ["window surface at each update", "exit status", "time between frames", "AddressSanitizer reports"],
 "property-based testing with a recording stand-in for SDL, against a model canvas, under AddressSanitizer", TRUST + " SDL itself is replaced by src/sdlstub.")

prop("C18", "A build depends on its inputs alone",
 "What a build gives - acceptance, the message, file and line of a rejection, and every table of the program - is a function of the source texts, the registered host functions and the options; it does not change with earlier builds of the same compiler (successful or failed, in any phase, followed by a reset), with a program or source manager used before, with other compilers at work, or with the layout of memory; and a build leaves programs made by other compilers alone.",
 ["histories", "programs"], "all histories of builds and resets over all sets of source texts",
 "Each existing test uses a fresh compiler for one build.",
 [COMP+"nano.cpp", COMP+"parser.cpp", COMP+"ast.cpp", L+"lib_common/program.cpp", L+"lib_common/source.cpp"],
 [("nano_t::reset and build", COMP+"nano.cpp"), ("program_t::reset", L+"lib_common/program.cpp"), ("parser_t::reset", COMP+"parser.cpp")],
 ["result and error of a build", "program tables"],
 "stateful property-based testing: build histories, differential against a fresh compiler", "Random search; a fresh compiler in the same process is the oracle.")

prop("C19", "A debugger sees the program's true state",
 "Whenever a thread stands at a line or calls a host function, with the optimiser on or off and also inside initialisers, its frames name exactly the active functions from innermost to outermost; every argument, and every variable in scope, of each active call is listed under its name with a slot that holds its current value; the globals listed by the program hold their current values; and each value's text shows it.",
 ["programs", "histories"], "all programs, at every line entered and every host function called",
 "No existing test looks at frames, slots or identifier tables; a wrong slot shows in no result.",
 [COMP+"pre_codegen.cpp", COMP+"codegen.cpp", VM+"thread.cpp", VM+"thread.h", VM+"value.cpp", "source/lib_common/types.h", "source/lib_common/program.h", "examples/ide/main.cpp"],
 [("identifier tables", COMP+"pre_codegen.cpp pregen_functions_t"), ("frames", VM+"thread.cpp enter_, leave_"), ("value_t::to_string", VM+"value.cpp")],
 ["thread frames, stack and pc", "function, argument, local and global tables", "vm globals"],
 "property-based testing: state at every stop against the state of a reference interpreter", TRUST)

prop("C20", "Literals and names mean what is written",
 "An integer, float, string or none literal has the value its spelling denotes wherever it may stand (arguments, initial values, constants, elements, results, conditions, operands), however many digits, bytes or other literals there are; and every legal name, however long, close to a keyword or close to another name, is a name of its own that keeps its own value, with the optimiser on or off and after saving and loading.",
 ["inputs", "programs"], "all literals (integers to 2147483647, floats to a hundred digits, any bytes but quote and newline in strings) and names in all positions",
 "Tests use a few short literals and names; confusions need particular digits, bytes, prefixes or table sizes.",
 [COMP+"lexer.cpp", COMP+"token.cpp", COMP+"parser.cpp", COMP+"codegen.cpp", COMP+"optimize.cpp", "source/lib_common/program.cpp", VM+"thread.cpp"],
 [("number and string scanning", COMP+"lexer.cpp push_val_, push_string_"), ("string table", COMP+"program_builder.cpp"), ("keyword matching", COMP+"lexer.cpp munch")],
 ["values passed to host functions"],
 "property-based testing: generated literals and names against the value each spelling denotes", "Random search. Trusts strtof and the oracle in src/c20.cpp.")

prop("C21", "Size does not change what a program does",
 "A program with many or large parts - lines, functions, globals, locals, constants, arguments, statements within a branch or loop, operators in one expression, nested blocks, array elements, string bytes and literals, calls, iterations, call levels, live threads, long names - compiles and does what its meaning says, exactly as a small one does, with the error of a failing part on its true line, with the optimiser on or off and after saving and loading, as long as its live data fits the heap.",
 ["inputs", "programs"], "all programs whose live data fits in a quarter of the heap and whose calls nest less than 800 levels, of up to 140000 lines and hundreds of kilobytes of code",
 "Tests are small programs; a count, offset or line kept in too few bits, a fixed size table or a growing container that moves shows only above some size.",
 [COMP+"lexer.cpp", COMP+"parser.cpp", COMP+"sema.cpp", COMP+"pre_codegen.cpp", COMP+"codegen.cpp", COMP+"program_builder.cpp", "source/lib_common/program.cpp", VM+"thread.cpp", VM+"value.h", VM+"vm.cpp", VM+"vm_gc.cpp"],
 [("operands and jump targets", COMP+"codegen.cpp emit, rewrite"), ("frames and stack", VM+"thread.cpp enter_, leave_; "+VM+"value.h value_stack_t"), ("line table", "source/lib_common/program.cpp")],
 ["outputs, results and errors of runs"],
 "property-based testing: generated programs blown up in 18 ways against a reference interpreter", "Random search over sizes next to powers of two. Trusts src/ref.cpp.")

prop("C22", "The syntax tree shown is the structure of the source",
 "After a successful build the syntax tree the compiler shows (nano_comp -a, ast().dump) has the source's declarations once each, in order, over all its files. With the optimiser off it is the source's structure node for node: every statement in its block, both branches, loop bounds, call arguments and callee, operators grouped by precedence and left to right, brackets and spelling without effect, compound assignments spelled out, constants as their values. With the optimiser on it is still a well formed tree. Showing it changes nothing and reads no freed node.",
 ["programs", "inputs"], "all accepted programs, any nesting of statements and expressions, any spelling, string literals without line breaks",
 "No test looks at the tree; a wrong grouping or a lost node needs one particular combination of operators, brackets and nesting, and may still give the same value.",
 [COMP+"ast.h", COMP+"ast.cpp", COMP+"parser.cpp", COMP+"sema.cpp", COMP+"optimize.cpp"],
 [("expression stack and precedence", COMP+"parser.cpp"), ("tree printer", COMP+"ast.h ast_printer_t"), ("collection of unused nodes", COMP+"ast.cpp gc"), ("constant substitution", COMP+"sema.cpp")],
 ["text of ast().dump after a build", "AddressSanitizer reports"],
 "property-based testing: generated syntax trees, printed and parsed back (round trip), under AddressSanitizer", "Random search. Trusts the AST printer in src/lang.cpp.")

prop("C23", "What a host used is given back",
 "Whatever a host does with compilers, programs, source managers and vms - builds that succeed or are rejected in any phase, resets, saves and loads of good, damaged or missing files, vms and threads that run, wait, fail, are never resumed or are refused - all memory and every file they used is given back when they are destroyed, and objects that are reset or used again do not grow with each use.",
 ["histories", "programs", "fault_sequences"], "all histories of builds, resets, saves, loads and runs over all source texts, repeated any number of times",
 "No existing test repeats a use or looks at memory or open files; a leak shows in no result and only on one path (an error in one phase, a thread that failed, a file cut short).",
 [COMP+"ast.cpp", COMP+"nano.cpp", COMP+"nano.h", VM+"vm.cpp", VM+"thread.h", "source/lib_common/program.cpp", "source/lib_common/source.h", "source/lib_common/file.h"],
 [("ownership of syntax nodes", COMP+"ast.cpp gc, reset, ~ast_t"), ("ownership of threads", VM+"vm.cpp reset, resume, new_thread"), ("file handles", "source/lib_common/program.cpp serial_save, serial_load; source/lib_common/file.h")],
 ["bytes the allocator has handed out", "lowest free file descriptor"],
 "stateful property-based testing: a generated life repeated, with memory and files compared between repetitions", "Random search. Memory is what AddressSanitizer's allocator counts as handed out.")

prop("C24", "Separate instances know nothing of each other",
 "Compilers, source managers, programs and vms that share no object do in parallel threads of the host, and nested inside each other's host functions, exactly what each does alone: the same acceptance or error message, program, syntax tree, listing, saved file, outputs, errors and results; they share no hidden mutable state, so no schedule of the host's threads can make one disturb another.",
 ["schedules", "programs"], "all sets of instances without a common object, each used by one host thread at a time, under all schedules",
 "Every existing test uses one instance in one thread; a shared static buffer or cache shows only under particular interleavings.",
 [COMP+"nano.cpp", COMP+"errors.cpp", COMP+"parser.cpp", COMP+"codegen.cpp", COMP+"disassembler.cpp", VM+"thread.cpp", VM+"vm.cpp", VM+"vm_gc.cpp", VM+"value.cpp", "source/lib_common/program.cpp", "source/lib_common/source.cpp", "source/lib_builtins/builtin.cpp"],
 [("per instance state", COMP+"nano.h nano_t; "+VM+"vm.h vm_t"), ("builtins without state", "source/lib_builtins/builtin.cpp"), ("message buffer", COMP+"errors.cpp on_error_")],
 ["outcome, error, tables, tree and listing of a build", "outputs, errors and results of runs", "ThreadSanitizer reports"],
 "property-based testing: generated instances run alone, nested and in parallel threads, logs compared, under ThreadSanitizer", "Random search over programs; schedules are the system's, but a race is reported whenever two threads touch the same state unordered, whatever the schedule.")
