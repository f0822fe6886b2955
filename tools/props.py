# The properties, and how each is decided. tools/gen.py turns this into
# properties.jsonl and MANIFEST.json.

NOTES = ("C01-C09 explore thread schedules of an instrumented copy of /repo made afresh by every run (cmd/instr); "
         "C10 and up drive the plain package from /repo. No hooks in /repo are needed. See DESIGN.md.")

STATELESS = "stateless model checking of the real code: every schedule up to a bound on preemptions under a controlled scheduler, with race detection"
CNOTE = ("Exhaustive over the stated programs and the stated number of deviations (preemptions, clock steps) from the default schedule, on an instrumented copy generated from /repo by every run; "
         "trusts the scheduler's models of Go's locks, channels, timers and atomics, and sequentially consistent memory. ")

ENUM = "explicit-state model checking against a reference model: every program of bounded families is run on the real package and on an independent reference interpreter (mc/ref), and results, effects and final state are compared"
ENOTE = ("Exhaustive over the enumerated programs (templates, alphabets and lengths in mc/cmd/mcseq), all run on the real code of /repo's current tree; trusts the reference interpreter in mc/ref, which was written from the documentation and the Scheme it follows. Programs whose meaning the statement leaves open are skipped and counted. ")

PROPS = [
 dict(id="C01", title="Frames shared by threads behave as if each operation were atomic",
  statement="When several processes operate on the same frames at once (reading, setting, removing and testing slots, also inherited ones, by primitive or a: a:! a:? shortcut; calling methods; copying, cloning, comparing, measuring, listing or converting whole frames), the results and the final slots are those of some order of the operations in which an operation that ended before another began comes first. "
            "No combination of such operations crashes the interpreter, loses or tears a slot, or leaves processes waiting for each other for ever.",
  over=["schedules"], quant="all interleavings of 2 to 4 threads of frame operations",
  why="The tests run every frame operation from one thread; nothing exercises two at once, let alone every interleaving.",
  mechanism=[("reader/writer lock of a frame", "frame.go:23"), ("slot lookup through parents under the locks", "frame.go:110"), ("ordered locking when two frames are compared", "data.go:870"), ("locked iteration for copying, printing and JSON", "json_frame_support.go:230")],
  observe=["results of get-slot, set-slot!, has-slot?, remove-slot!, send, clone, copy, equal?, frame-keys, lisp->json"],
  technique=STATELESS + "; outcomes checked for linearizability against all sequential orders", note=CNOTE + "set! on a slot variable inside a method that races with the slot's removal is left out."),
 dict(id="C02", title="Environments shared by threads keep their bindings intact",
  statement="When several processes define, assign, look up, list and test bindings in environments they share, the results and final bindings are those of some order of the operations that respects which ended before which began. "
            "No definition is lost, no lookup finds half a binding, and nothing crashes or waits for ever.",
  over=["schedules"], quant="all interleavings of 2 to 3 threads of environment operations, nested scopes included",
  why="The tests touch environments from one thread only.",
  mechanism=[("reader/writer lock of an environment", "symbol_table_frame.go:178"), ("locked listing of bindings", "prim_environment.go:30"), ("registry of top-level environments", "symbol_table_frame.go:146")],
  observe=["results of define, set!, symbol evaluation, environment-bound?, environment-bound-names, environment-assign!, environment-define"],
  technique=STATELESS + "; outcomes checked for linearizability against all sequential orders", note=CNOTE),
 dict(id="C03", title="One name is one symbol, and gensym never repeats, whatever the threads do",
  statement="Reading or interning the same name, however often and from however many threads at once, gives the same symbol. "
            "Every gensym and gensym-naked result differs from all earlier and concurrent ones, per prefix, and none is lost or skipped; nothing crashes.",
  over=["schedules", "inputs"], quant="all interleavings of 2 to 4 threads interning and generating symbols",
  why="Symbol tests are single-threaded and try a handful of names.",
  mechanism=[("locked table of interned symbols", "symbol_table_frame.go:49"), ("locked counters of gensym", "prim_system.go:200")],
  observe=["identity of the results of intern, read and parse", "names from gensym"],
  technique=STATELESS, note=CNOTE),
 dict(id="C04", title="Atomics are linearizable 64-bit integers",
  statement="atomic-load, atomic-store!, atomic-add!, atomic-swap! and atomic-compare-and-swap! on one atomic, from any number of threads, give the results of some order of the operations that respects which ended before which began, over the full range of 64-bit integers with wrap-around: add gives the new value, swap the old one, and compare-and-swap says whether it stored. "
            "Calls with wrong arguments are errors and change nothing, and an atomic is independent of the value it was made from.",
  over=["schedules", "inputs"], quant="all interleavings of 2 to 4 threads of atomic operations; all short operation sequences over boundary values",
  why="The tests run each atomic primitive a few times from one thread with small integers.",
  mechanism=[("atomic primitives", "prim_concurrency.go:290")],
  observe=["results of the atomic-* primitives"],
  technique=STATELESS + "; linearizability against all sequential orders and a reference model of a 64-bit cell", note=CNOTE),
 dict(id="C05", title="Channels are bounded FIFO queues with blocking and closing",
  statement="A channel delivers every written value exactly once and in order of writing; a write blocks exactly while the buffer is full (with no buffer: until a reader takes the value), a read exactly while it is empty and open, and the try- operations never block and say truthfully whether they did something. "
            "After closing, the buffered values can still be read, then reads tell that the channel is closed; writing to or closing a closed channel is an error, also for writers already waiting, and never a crash.",
  over=["schedules", "histories"], quant="all interleavings of 2 to 3 threads with 1 to 4 channel operations each, and all single-thread sequences of up to 5 operations, for several capacities",
  why="The tests run fixed sequences with one scheduling each.",
  mechanism=[("channel primitives", "prim_channel.go:20")],
  observe=["results of make-channel, channel-write, channel-read, channel-try-write, channel-try-read, close-channel, c<-, <-c"],
  technique=STATELESS + "; outcomes compared with all runs of an explicit-state FIFO channel model", note=CNOTE),
 dict(id="C06", title="fork runs a function once in its own process; join delivers its result once",
  statement="fork returns at once and the function runs exactly once with its process and the arguments as they were; join waits for it and gives the value it returned, or () if it failed with an error or a panic, after everything it did has become visible, to exactly one joiner, and every other join is an error. "
            "A process that joins itself, directly or from functions it calls, gets () and goes on, even when the same function has been forked several times; a failing process disturbs no other, and a wrong function, arity or object is an error.",
  over=["schedules", "programs"], quant="all interleavings of programs with 1 to 4 processes and up to 3 joiners",
  why="The tests fork two trivial functions and observe one schedule.",
  mechanism=[("fork", "prim_concurrency.go:60"), ("join", "prim_concurrency.go:280"), ("process a call runs in", "function.go:118"), ("panic containment", "prim_concurrency.go:430")],
  observe=["results of fork and join", "side effects of forked functions"],
  technique=STATELESS + "; outcomes compared with those the contract allows", note=CNOTE),
 dict(id="C07", title="Scheduled processes run once when due unless abandoned; resets postpone",
  statement="A scheduled function runs at most once and never before its delay has passed since it was scheduled, or since a reset-timeout that came before it was due; if it is abandoned before it is due it never runs and join gives (), otherwise it runs exactly once, as soon as it is due, and join gives its value (or () after an error or panic). "
            "reset-timeout answers OK before the task is due and that it was already completed or abandoned once it has run, however many resets were made; wrong arguments are errors.",
  over=["schedules", "histories"], quant="all interleavings, in virtual time, of a scheduled process with 1 to 3 threads of resets, abandons and joins at times before, at and after the due time",
  why="The tests schedule one empty function with delay 0.",
  mechanism=[("waiting for timer, abandon or reset", "prim_concurrency.go:190"), ("reset-timeout", "prim_concurrency.go:250"), ("abandon", "prim_concurrency.go:230")],
  observe=["when and how often the function runs", "results of reset-timeout, abandon and join"],
  technique=STATELESS + " in virtual time; timing predicates and reference outcomes on every execution", note=CNOTE + "Both the old and the new behaviour of Go's timers are explored."),
 dict(id="C08", title="wake and proc-sleep: one pending wake, none lost, sleeps last",
  statement="proc-sleep gives #t when its process is woken, also by a wake that came before it slept, and #f when the time asked for has passed without; it never comes back earlier without a wake and, if nothing is held up, not later. "
            "Wakes of one process that nobody has consumed count as one, are consumed by exactly one sleep, and never reach another process; sleep lasts at least the time asked for.",
  over=["schedules", "histories"], quant="all interleavings, in virtual time, of 2 to 4 threads of wakes and sleeps, and all single-thread sequences of up to 4",
  why="No test sleeps or wakes a process.",
  mechanism=[("proc-sleep", "prim_concurrency.go:100"), ("wake", "prim_concurrency.go:130"), ("sleep", "prim_system.go:60")],
  observe=["results and virtual durations of proc-sleep, sleep and wake"],
  technique=STATELESS + " in virtual time; outcomes compared with all runs of a timed one-token model", note=CNOTE),
 dict(id="C09", title="Programs in different threads that share only code do not affect each other",
  statement="Programs evaluated at the same time in separate environments, sharing functions, closures, macros, parent frames and constants that none of them changes, each give exactly the result and effects they give alone. "
            "No interleaving of them crashes the interpreter, races on its internal state or blocks.",
  over=["schedules", "programs"], quant="all interleavings of every pair, and chosen triples, of 30 programs that cover the evaluator, macros, frames, lists, JSON, formatting and errors",
  why="Tests run one program at a time.",
  mechanism=[("fresh local environment per call", "function.go:99"), ("slot function marking", "symbol_table_frame.go:296"), ("macro expansion in a fresh environment", "macro.go:81")],
  observe=["results of the programs"],
  technique=STATELESS + "; each result compared with the program run alone", note=CNOTE),

 dict(id="C10", title="Evaluation follows the language definition for every program",
  statement="Every program of the core language (quote, if, cond, case, and, or, not, when, unless, begin, let, let*, letrec, named let, do, lambda, named-lambda, define, set!, apply, map, for-each, eval, -> and =>, calls of functions and closures with fixed and rest parameters) gives the value the language defines: arguments are evaluated once each, left to right, and nothing else is; only () and #f are false; names are resolved lexically, with each call and each scope getting bindings of its own that closures keep; set! changes the nearest binding and fails if there is none; a wrong number of arguments, an unbound function or calling something that is no function is an error. "
            "This holds at any nesting, number of arguments, bindings, clauses, body forms and iterations, and for recursion thousands of calls deep.",
  over=["programs", "inputs"], quant="all programs of two nested forms (three in the thorough tier) from 100 templates over a set of leaves with observable effects, and every form at sizes up to 130",
  why="The tests evaluate a few hundred fixed expressions and never count or order effects.",
  mechanism=[("evaluator", "data.go:1154"), ("binding of parameters", "function.go:51"), ("special forms", "prim_special_forms.go:225"), ("environments", "symbol_table_frame.go:200"), ("argument evaluation of primitives", "primitive_function.go:226")],
  observe=["value or error of each program", "order and number of effects", "bindings afterwards"], technique=ENUM, note=ENOTE + "Left open: improper argument lists in code, and -> whose value would have to be quoted."),
 dict(id="C11", title="An error stops exactly what encloses it and reaches the innermost on-error",
  statement="When evaluating anything, anywhere in a program, fails (error, wrong arguments, unbound function), nothing after it inside the enclosing on-error body is evaluated, what was done before stays done, and the handler of the innermost enclosing on-error is called exactly once, outside that on-error's own protection, with the message as a string that contains the text given to error; its value is the value of on-error. "
            "Without an error the handler is not called and on-error gives the value of the body, or of calling the third argument; without an on-error the whole evaluation is an error. Bindings, scopes and data structures stay usable afterwards, whatever forms, functions, callbacks of library functions, methods or macro expansions the error passed through.",
  over=["programs", "crash points"], quant="an error of each of three kinds in every hole of every context, contexts nested two deep (three in the thorough tier), with handlers of all kinds nested up to three deep",
  why="The tests have a dozen on-error examples with the error directly in the body.",
  mechanism=[("on-error", "prim_system.go:81"), ("error propagation in the evaluator", "data.go:1200"), ("errors in function bodies", "function.go:145")],
  observe=["value or error", "effects before and after the error", "argument of the handler", "bindings and structures afterwards"], technique=ENUM, note=ENOTE),
 dict(id="C12", title="Protected bindings can never be changed",
  statement="No program and no host call of BindTo, SetTo or BindLocallyTo changes the binding of a protected name (every primitive, nil, and whatever the host binds with BindToProtected, in any environment): define, set!, defmacro, environment-assign!, environment-define, eval and everything built on them give an error when they would, from whatever scope or function, and the binding keeps its value and its protection. "
            "Inner scopes may shadow such a name by parameter, let, do or an inner define; that changes nothing outside and ends with the scope.",
  over=["programs", "inputs"], quant="38 ways to change a binding and 18 ways to shadow one, for every protected name of the system, at top level and in inner scopes, and for host-protected values of every type",
  why="One test tries to redefine one protected name.",
  mechanism=[("protection flag", "binding.go:10"), ("checks before a binding changes", "symbol_table_frame.go:233"), ("environment primitives", "prim_environment.go:246")],
  observe=["values and protection of bindings after each attempt", "whether the attempt is an error"], technique=ENUM + "; every protected binding of the system is compared with its snapshot after every program", note=ENOTE),
 dict(id="C13", title="Restricted code cannot reach restricted primitives",
  statement="Code in an environment that was restricted (restrict-environment), or in any scope, function, closure, method or macro use created below it afterwards, cannot call any of the restricted primitives (load, global-eval, exec, panic!, open-input-file, open-output-file, close-port, write-bytes, environment-parent, system-global-environment, make-top-level-environment, find-top-level-environment, debug, debug-on-error, add-debug-on-entry), by name, apply, map, an alias, eval, a frame slot, a process or a function called from outside later: each attempt is an error without effect. "
            "Everything else gives in restricted code what it gives elsewhere, and environments outside stay unrestricted.",
  over=["programs"], quant="every restricted primitive in 50 calling forms from 4 kinds of restricted scope and called from outside, and in every hole of every pair of nested contexts of the language",
  why="The tests call two restricted primitives directly.",
  mechanism=[("check before a restricted primitive runs", "primitive_function.go:235"), ("restriction inherited by inner environments", "symbol_table_frame.go:110"), ("restrict-environment", "prim_environment.go:390")],
  observe=["whether the primitive ran", "results of other code"], technique=ENUM, note=ENOTE + "Functions that unrestricted code defined keep the rights of where they were defined; closures made in an inner scope before the restriction are left open. exec runs only the command true, and files are in a scratch directory."),
 dict(id="C14", title="Quasiquotation and macros expand as defined",
  statement="A quasiquoted template gives its structure with each unquoted expression evaluated once, left to right, in the current scope and put in place, and each unquote-splicing list spliced in place, at any position and depth, also as the tail of a dotted list and with nested quasiquotes, where only the innermost matching level is evaluated; the template itself is never changed. "
            "A macro call binds the unevaluated arguments, evaluates the body once to get the expansion and evaluates that once where the call stands; expand gives the expansion without evaluating it; a wrong number of arguments is an error, macros can be redefined, nested, recursive and local, and using one many times gives the same each time.",
  over=["programs", "inputs"], quant="all templates of up to 3 items (4 in the thorough tier) from 15 leaves, two levels deep, and 150 macro definitions called with up to 3 arguments of 12 kinds in 12 contexts",
  why="The tests expand a dozen fixed templates and macros.",
  mechanism=[("quasiquote", "prim_macros.go:30"), ("expansion", "macro.go:84"), ("expand", "prim_macros.go:119")],
  observe=["value of templates and macro calls", "order and number of effects", "result of expand"], technique=ENUM, note=ENOTE + "Left open: templates with frames in them, and splicing something that is no proper list."),
 dict(id="C15", title="Frames: slots, parents and methods behave as prototype objects",
  statement="A slot is looked up in the frame, then in its parents (slots whose names end in *), depth first, each frame at most once, so that also cyclic parents end; setting a slot always sets it in the frame itself and removing removes it only there; has-slot?, get-slot (an error if missing), get-slot-or-nil and the shortcuts a: a:! a:? a:> agree with that. "
            "A method called with send, a:>, or apply-slot runs with self and the slots of the receiver in scope, inherited ones included, set! on a slot variable changing the receiver's slot; parameters and local variables come first, then slots, then the scope where the method was written. send-super and apply-slot-super call the next method of that name in the receiver's parents. make-frame, frame literals, clone (sharing slot values), copy, frame-keys, frame-values and length agree with the slots set.",
  over=["programs", "inputs", "histories"], quant="all histories of up to 3 slot operations (4 in the thorough tier) on frames with parents, 50 method bodies by 5 receivers by 15 ways to call, and sizes and chains up to 130",
  why="The tests use a few two-slot frames with one parent.",
  mechanism=[("slot lookup", "frame.go:110"), ("methods with the receiver's slots in scope", "function.go:102"), ("send and super", "prim_frame.go:151"), ("slot variables", "symbol_table_frame.go:296")],
  observe=["results of slot primitives and shortcuts", "results and effects of methods", "slots afterwards"], technique=ENUM, note=ENOTE + "Left open: the same slot in several parents of one frame (the order of parents is not defined), and what a method finds when reached through send-super: that it has neither self nor slots is a known finding."),
 dict(id="C19", title="Equality is structural and consistent everywhere",
  statement="==, eq?, eqv? and equal? are the same relation: integers, floats, strings, symbols, booleans and byte arrays are equal exactly if they are of the same type and value (an integer and a float are never equal), lists and dotted pairs if they have equal elements in the same order, association lists if they hold equal pairs whatever the order, frames if they have equal values in the same slots, other objects only if they are the same one; != and neq? are its negation. "
            "It holds at any size and depth, wherever the difference sits, follows every mutation, and is what member, memq, assoc, rassoc, case, union, intersection and complement use.",
  over=["inputs", "histories"], quant="all pairs of 75 values of every type, frames with parents and functions among them, all pairs of lists of up to 3 elements, a difference at every position of structures of sizes up to 130, nesting up to 130",
  why="The tests compare a few dozen pairs.",
  mechanism=[("structural comparison", "data.go:829"), ("equality primitives", "prim_relative_logical.go:30"), ("membership by equality", "prim_list_access.go:200")],
  observe=["results of the equality primitives and of the functions that use them"], technique=ENUM, note=ENOTE + "Left open: association lists with improper or repeated entries."),
 dict(id="C20", title="Copies share nothing, and only in-place operations change a value",
  statement="copy gives an equal structure that shares no list cell, byte array, frame or association list with the original, at any depth, so that no later change of either shows in the other. "
            "No library function other than the in-place ones (names ending in !, acons on a non-empty association list) changes its arguments, and the results of append, reverse, map, filter, sublist, list-head, take, sort, union and the like are fresh lists except for a last or only argument they keep by definition (cdr, list-tail, cons, memq and the like share on purpose); an in-place change shows through every name of that object and nowhere else. Rest parameters are fresh lists for every call.",
  over=["histories", "inputs"], quant="all pairs of 96 in-place changes (triples in the thorough tier) after every kind of copy of 23 structures, and all pairs of changes to the argument and the result of 60 library functions; sizes up to 130",
  why="The tests check one mutation after one copy.",
  mechanism=[("Copy", "data.go:774"), ("in-place primitives", "prim_mutators.go:20"), ("list construction", "prim_list_manipulation.go:30")],
  observe=["every variable after every history"], technique=ENUM + " of a heap with sharing", note=ENOTE + "union may copy the elements of its first list; closures and the strings in copied structures stay shared as the reference has it."),
 dict(id="C21", title="List functions compute what they are defined to",
  statement="The list library (cons, list, cons*, make-list, interval, car to cddddr, first to tenth, nth, list-ref, list-head, list-tail, take, drop, sublist, last-pair, length, reverse, append, append!, flatten, flatten*, copy, set-car!, set-cdr!, set-nth!, memq, memv, member, memp, find, find-tail, filter, remove, partition, map, for-each, any, every, reduce, reduce-left, reduce-right, fold-left, fold-right, sort, union, intersection, complement) gives the defined result for every list and index, whatever the length, nesting and duplicates, with wrong types, indices and functions reported as errors where defined so. "
            "Functions given as arguments are called on the defined elements in order, no more often than defined, and their errors end the call; sort is stable and sorts any list of comparable elements.",
  over=["inputs", "histories"], quant="every function over all lists of up to 3 elements (4 in the thorough tier) of 6 kinds, sizes up to 130, boundary indices and 18 kinds of function argument; all permutations of up to 6 (8) elements for sort; functions that print alike as elements; histories of 3 (4) operations",
  why="The tests use one or two lists per function.",
  mechanism=[("list construction and access", "prim_list_manipulation.go:30"), ("list access", "prim_list_access.go:30"), ("higher-order functions", "prim_list_functions.go:30"), ("sets", "prim_list_set.go:29")],
  observe=["value or error of every call", "calls of function arguments", "arguments afterwards"], technique=ENUM, note=ENOTE + "Left open: improper lists, and how often sort compares."),
 dict(id="C22", title="Association lists map keys to values",
  statement="assq, assv and assoc give the first pair with an equal key and rassoc the first with an equal value, or (); dissoc removes the pairs with that key, acons and pairlis add pairs, alist makes an association list of a list of pairs, for keys and values of any type and association lists of any size, and lookups after any history of additions, removals and in-place changes see exactly the pairs that are there. Entries that are not pairs are errors.",
  over=["inputs", "histories"], quant="every function over all lists of up to 3 (4) entries of 6 kinds with 17 keys, sizes up to 130, and all histories of 3 (4) operations",
  why="The tests look up a few keys in one list.",
  mechanism=[("lookup", "data.go:744"), ("association list primitives", "prim_alist.go:30")],
  observe=["results of the association list primitives"], technique=ENUM, note=ENOTE + "Left open: the order in which dissoc and acons leave the pairs where the reference has none."),
 dict(id="C23", title="Byte arrays hold exactly the bytes put in them",
  statement="list->bytearray, literals, bytearray->list, extract-byte, extract-bytes, replace-byte, append-bytes and their in-place forms give exactly the defined bytes for arrays of any length and all values 0 to 255; every other value (negative, above 255, not an integer) and every index or range outside the array is an error that changes nothing. "
            "The forms ending in ! change the array itself, seen through every name of it; the others give a new array and leave their arguments alone.",
  over=["inputs", "histories"], quant="all arrays of up to 3 (4) bytes from 5 boundary values, lengths to 257, boundary indices, ranges and values, and all histories of 3 (4) operations on aliased arrays",
  why="The tests use one or two small arrays per primitive.",
  mechanism=[("byte array primitives", "prim_bytearray.go:30"), ("literals", "parser.go:134")],
  observe=["results of the byte array primitives", "contents afterwards"], technique=ENUM, note=ENOTE + "Left open: append-bytes of an empty list."),
 dict(id="C25", title="Integer arithmetic is exact in 64 bits; comparison is true to value",
  statement="+, -, *, quotient, /, %, modulo, succ, pred, abs, sign, min and max of lists, shifts and bit operations on integers give the exact result modulo 2^64 as a signed 64-bit integer, for every value and any number of arguments (a single argument of -, / or quotient is given back, division truncates, dividing by zero is an error); with a float among the arguments the result is a single-precision float. "
            "<, >, <=, >=, ==, !=, zero?, positive?, negative?, even? and odd? are right for every pair of integers, also beyond 2^24 and 2^53; integer literals, number->string and string->number in bases 2, 8, 10 and 16 keep every 64-bit integer exactly; an argument that is no number is an error of the arithmetic operations and comparisons.",
  over=["inputs"], quant="all pairs of 42 boundary integers and 8 floats and of -17 to 17 for 22 functions, triples to quintuples of a smaller set, up to 130 arguments, text in all bases",
  why="The tests use small numbers.",
  mechanism=[("arithmetic", "prim_math.go:148"), ("comparison", "prim_relative_logical.go:30"), ("bit operations", "prim_binary.go:20"), ("literals", "parser.go:20")],
  observe=["results of the arithmetic, comparison and conversion primitives"], technique=ENUM, note=ENOTE + "Left open: (- x) of one argument, pow with a negative exponent, text of floats."),
 dict(id="C26", title="String functions compute what they are defined to",
  statement="string-upcase, -downcase, -capitalize and their in-place forms, string-length, string-null?, substring, substring?, string-prefix?, string-suffix?, string-split, string-join, string-trim, -trim-left, -trim-right, the comparisons string=? to string-ci>=?, intern, str and parse give the defined result for every string, of any length and content including quotes, backslashes, white space and letters outside ASCII; wrong types and ranges are errors. "
            "Only the forms ending in ! change a string, and then for every name of it.",
  over=["inputs", "histories"], quant="every function over all strings of up to 3 (5) characters of small alphabets, 25 unusual strings, letters with unusual cases in the ci comparisons, lengths to 130, all pairs of them, and all histories of 3 operations on aliased strings",
  why="The tests use one or two strings per function.",
  mechanism=[("string primitives", "prim_string.go:60")],
  observe=["results of the string primitives", "strings afterwards"], technique=ENUM, note=ENOTE + "Left open: substrings that cut a character of several bytes."),
 dict(id="C29", title="Environment operations see and change exactly the named binding",
  statement="the-environment, procedure-environment, environment-parent, make-top-level-environment and find-top-level-environment give the environment they name; environment-bound?, -assigned?, -lookup, -lookup-macro, -assignable?, -definable?, -reference-type, -bound-names, -macro-names and -bindings tell exactly what is bound there (and, where defined so, in its parents); environment-assign! changes the nearest existing binding (and does nothing without one), environment-define binds in that environment only, and eval with an environment evaluates there, each visible to the code whose scope it is and to no other. Wrong arguments are errors.",
  over=["histories", "inputs"], quant="all pairs of 65 changes (triples in the thorough tier) to five related environments, each followed by 13 kinds of question asked of all of them; sizes up to 130",
  why="The tests ask one or two questions of one environment.",
  mechanism=[("environment primitives", "prim_environment.go:43"), ("lookup and binding", "symbol_table_frame.go:200"), ("eval in an environment", "prim_system.go:60")],
  observe=["results of the environment primitives", "what code in those environments sees"], technique=ENUM, note=ENOTE + "Left open: whether a name bound to () counts as assigned."),
 dict(id="C16", title="Every call ends with a value or an error, never a crash",
  statement="Whatever an evaluation is given (any primitive or special form with any number and kind of arguments, malformed syntax, dotted argument lists, calls of things that are no functions, arbitrary text), it ends with a value or with an error returned to the caller: no Go panic leaves the interpreter, the process does not die and no call that has nothing to wait for hangs. "
            "Exempt are what is meant to stop (quit, panic!, the debugger), recursion and loops without end written by the program, structures that contain themselves, and requests too large for memory.",
  over=["inputs", "programs"], quant="every primitive with all combinations of up to 3 arguments from 27 values of every kind and longer ones from a smaller set, every special form with all combinations of up to 3 of 30 pieces of syntax, all texts of up to 5 (6) of 22 tokens",
  why="The tests call primitives with the right arguments and a few wrong ones.",
  mechanism=[("type and range checks of the primitives", "prim_math.go:30"), ("argument counts", "primitive_function.go:195"), ("evaluation of malformed code", "data.go:1154"), ("reader errors", "parser.go:206")],
  observe=["whether the evaluation returns a value or an error, panics, ends the process or does not end"], technique="explicit-state model checking of the real package: every call and text of bounded families is evaluated in a monitored process and must return", note="Exhaustive over the enumerated calls and texts, all run on the real code of /repo's current tree; a crash or hang of the worker process is detected by its parent. File and process primitives work in a scratch directory."),
 dict(id="C17", title="Values print as text that reads back as the same value",
  statement="str, write-line, format ~s and the Go function String print integers, floats, booleans, strings (quoted, with quotes and backslashes escaped), symbols, lists, dotted pairs, nested structures, byte arrays and frames in the syntax the reader accepts, and reading that text gives an equal value of the same type: every 64-bit integer, every finite single-precision float (with a decimal point, so that it reads as a float), every string of any characters but NUL, any nesting and size. PrintString differs only in giving a string without quotes and escapes.",
  over=["inputs"], quant="floats at and around every power of two and a range of significands for every exponent (thorough: all 2^32 of them), boundary integers, all strings of one character and of up to 3 (5) unusual ones, all lists of up to 4 elements of all types, nesting and sizes to 130",
  why="The tests print a dozen values.",
  mechanism=[("printing", "data.go:970"), ("number and string syntax of the reader", "parser.go:20"), ("tokens", "tokenizer.go:237")],
  observe=["text from str and String", "value and type of what parse and the Go function Parse give for it"], technique=ENUM, note=ENOTE + "Left open: infinite and not-a-number floats, symbols whose names are no symbol syntax, functions and other objects, cyclic data, NUL characters."),
 dict(id="C18", title="The reader gives each text the data the grammar says",
  statement="Parse, ParseAll, parse and read turn any text into exactly the data it denotes: integers in decimal, 0x/#x hexadecimal and #b binary over the whole 64-bit range, floats, strings with their escapes, symbols of any letters, #t and #f, lists, dotted pairs, byte arrays [..], frames {..}, quote, quasiquote, unquote and unquote-splicing abbreviations, with white space and ; comments anywhere between tokens. "
            "What is no datum (a number out of range, a # or 0x with no digits or letter of its kind after it, a missing closing bracket, a mismatched one, a byte outside 0 to 255) is an error, and nothing after it is read; no text makes the reader crash or loop.",
  over=["inputs"], quant="all texts of up to 6 (8) characters of the syntax, all words of up to 4 (5) tokens with all separators, all characters of the basic plane in strings and symbols, all boundary integers, sizes to 130",
  why="The tests read a few dozen texts.",
  mechanism=[("tokens", "tokenizer.go:237"), ("data from tokens", "parser.go:206"), ("number syntax", "parser.go:20")],
  observe=["data and errors of Parse, ParseAll and parse"], technique=ENUM, note=ENOTE + "Left open: a closing bracket where a datum is expected, a quote or string left unfinished at the end of the text, a dot not between data, NUL characters."),
 dict(id="C24", title="JSON converts to lisp and back without loss",
  statement="json->lisp (and JsonStringToLispWithFrames) gives for every JSON text: objects as frames whose slots are the keys with a colon, arrays as lists, strings as strings, numbers without fraction as integers, exact over 64 bits, others as floats, true and false as #t and #f, null and [] as (); text that is not exactly one JSON value gives an empty frame, and an argument that is no string is an error. lisp->json writes the JSON value of any nesting of numbers, strings, symbols, booleans, lists, byte arrays and frames (leaving out functions in frames) and changes nothing, so that a JSON text converted to lisp and back is the same JSON value ([] and null, and 1 and 1.0, being the same here). "
            "JsonToLispWithFrames of Go values (structs with json tags, maps, slices, arrays, pointers, numbers) gives what their encoding by encoding/json stands for.",
  over=["inputs"], quant="all pairs of 33 scalars in three spacings, all pairs (triples) of 150 nested values, all words of up to 5 (6) JSON tokens, all characters to U+3000 in strings and keys, boundary numbers, sizes to 130, and all two-field structs of 19 types with 11 kinds of tag",
  why="The tests convert a handful of documents.",
  mechanism=[("JSON to frames", "json_frame_support.go:32"), ("frames to JSON", "json_frame_support.go:217"), ("primitives", "prim_frame.go:349")],
  observe=["results of json->lisp, lisp->json, JsonStringToLispWithFrames and JsonToLispWithFrames"], technique=ENUM, note=ENOTE + "Go's encoding/json decides what is JSON. Left open: integers beyond 64 bits, the older association-list conversion, []byte, nil maps and embedded fields of Go structs."),
 dict(id="C27", title="format fills control strings exactly, or fails and writes nothing",
  statement="(format dest control args...) gives the control string with ~a replaced by the next argument as displayed, ~s by the next argument as written (strings quoted), each padded with spaces on the right, or with @ on the left, to the width given as ~n, ~v (the next argument, an integer) or ~# (the number of arguments left); ~% is a newline and ~~ a tilde, n of them with a width; ~ before the end of a line drops the newline and the white space that follows, with @ only the white space. Letters are accepted in either case. "
            "dest #f returns the text as a string, #t writes it to standard output, a port to the port. Too few or too many arguments, any other directive, one left unfinished at the end, a ~v argument that is no integer, a control string that is no string or a destination of another kind are errors, and then nothing is written.",
  over=["inputs"], quant="all control strings of up to 5 (6) of 12 characters with 7 argument lists, all words of up to 3 (4) of 20 directives with one argument too few, enough and one too many, all widths to 130 with all lengths to 70, every kind of value, sizes to 130, every destination",
  why="The tests format a few strings with the expected arguments.",
  mechanism=[("format", "prim_io.go:200")],
  observe=["string, output or error of format", "contents of the file written to"], technique=ENUM, note=ENOTE + "Left open: widths of text outside ASCII, ~% and ~~ with @ or a width below 1."),
 dict(id="C28", title="Ports read and write files exactly",
  statement="open-output-file creates or empties a file, with a true second argument it adds at the end; open-input-file opens one for reading and fails if there is none. write-string, write, newline, write-bytes and format put exactly their text or bytes in the file in order, of any length and content; read gives the data in the file one by one, whatever their size and wherever they lie in the file, and then the end-of-file object, which alone satisfies eof-object?, as often as asked; what write wrote reads back as an equal value. close-port ends the use of a port: writing to it or to an input port is an error and changes no file, and so are arguments of the wrong type. "
            "Several ports on the same or on different files do not disturb each other. Without a port, writing goes to standard output. list-directory gives the paths of the entries of a directory that match the pattern (all without one).",
  over=["histories", "inputs"], quant="all histories of up to 5 of 13 operations (19 in the thorough tier) on two files, all write-append-read histories, all 256 bytes, data at every offset around buffer boundaries from 512 to 65536, files of up to 5000 data, all directories of subsets of 6 names",
  why="The tests do not touch files.",
  mechanism=[("ports", "prim_io.go:31"), ("reading a port datum by datum", "parser.go:386"), ("one tokenizer for each port", "tokenizer.go:70")],
  observe=["results of the port primitives", "contents of the files afterwards"], technique=ENUM + " of a file system", note=ENOTE + "All files are in a scratch directory. Left open: reading a closed port or an output port, reading while the file is being changed, closing twice, directories whose names hold pattern characters."),
 dict(id="C30", title="Source text is evaluated form by form, in order, up to the first error",
  statement="load, ProcessFile, ProcessFileInEnvironment, ParseAndEvalAll and ParseAndEvalAllInEnvironment evaluate every form of a text once, in order, each before the next is read, in the given environment (load and ProcessFile: the global one), and give the value of the last, () for a text without any. At the first form that fails or cannot be read they stop and return that error: what came before has taken effect, nothing after it is evaluated. It makes no difference how the forms are laid out, with comments, on lines or without any space between lists, how many there are, or whether the file is loaded by another one. ParseAndEval and ParseAndEvalInEnvironment evaluate exactly the first form. A file that is missing or cannot be read is an error.",
  over=["programs", "inputs"], quant="all texts of up to 4 (5) of 16 forms (definitions, effects, errors, unreadable text), all pairs of forms with all separators, sizes to 3000 forms, all pairs of files that load one another",
  why="The tests load well-formed files and look at the outcome of their assertions only.",
  mechanism=[("form by form evaluation", "parser.go:351"), ("load", "prim_system.go:47"), ("reading a file", "parser.go:320")],
  observe=["value or error", "effects of the forms", "bindings afterwards"], technique=ENUM, note=ENOTE + "Files are in a scratch directory. Left open: a closing bracket where a form is expected."),
 dict(id="C31", title="Functions take exactly the arguments they are defined for, each evaluated once",
  statement="A primitive, special form, function, method or macro called with a number of arguments it is not defined for (directly, with apply, with send or by a shortcut) gives an error before any argument is evaluated; with a number it is defined for, every argument is evaluated exactly once, from left to right, also when one expression object stands in several places (special forms and macros: not at all), and the first that fails ends the call. "
            "Each primitive takes the numbers of arguments it is documented with (for example if 2 or 3, substring 3, map at least 2, format at least 2, open-output-file 1 or 2). Primitives a host program adds with MakePrimitiveFunction or MakeSpecialForm take what their specification says (n, n|m, >=n, (n,m), *, and alternatives of these), get their arguments evaluated or, for a special form, as they are written, with the environment of the call, and give their value or error to the caller.",
  over=["inputs"], quant="all 300 primitives with 0 to 8 (40) and around 64, 128 and 256 arguments, all functions and macros of up to 5 parameters with and without a rest parameter in 12 kinds of call, all host specifications of up to 3 of 16 terms with 0 to 14 arguments",
  why="The tests try a few wrong argument counts.",
  mechanism=[("argument specification", "primitive_function.go:71"), ("argument count and evaluation", "primitive_function.go:195"), ("parameters of functions", "function.go:51"), ("macros", "macro.go:33")],
  observe=["value or error of the call", "which arguments were evaluated, in which order", "what the host function is given"], technique=ENUM, note=ENOTE + "The numbers of arguments of the primitives are stated in a table. Dotted argument lists are left open."),
 dict(id="C32", title="The Go functions on values agree with the language",
  statement="What a host program does through the exported Go functions agrees with the language: Cons, Car to Cdddr, WalkList, Nth, First to Tenth, SetNth, Length, Reverse, Append, AppendList, AppendBang, AppendBangList, RemoveFromListBang, Flatten, RecursiveFlatten, Assoc, Dissoc, Acons, Copy, IsEqual, QuoteIt, QuoteAll, ArrayToList, ArrayToListWithTail, InternalMakeList and ToArray compute what the corresponding list operations do, for lists of any length, and only those named Bang, SetNth and Acons change their arguments; the type predicates hold for exactly their type, and the value functions give back what a value was made from, or the zero value for another type; Apply calls any function on forms it evaluates, ApplyWithoutEval on values. "
            "FrameMap's Get, Lookup, HasSlot, Set, Remove, Clone, Keys, Values and Parents treat slots as the frame primitives do, parents included; SymbolTableFrame's BindTo (the nearest binding, or a new one here), SetTo (here, then a slot of the environment's frame, then the nearest binding, else an error), BindLocallyTo, BindToProtected, DeleteBinding, ValueOf, FindBindingFor and BindingNamed treat bindings as evaluation does, after any history of such calls.",
  over=["inputs", "histories"], quant="all lists of up to 3 (4) elements of 7 kinds and sizes to 130 for every function, all pairs of 19 values of every type, all paths of up to 6 steps, all histories of up to 4 (5) of 30 operations on three environments with and without frames and of 33 operations on three frames",
  why="The Go tests call a few of these functions on one or two lists.",
  mechanism=[("values and lists", "data.go:85"), ("list access", "list_access.go:12"), ("arrays and lists", "util.go:9"), ("frames", "frame.go:96"), ("environments", "symbol_table_frame.go:178")],
  observe=["results of the Go functions", "values, frames and environments afterwards"], technique=ENUM, note=ENOTE + "Left open: improper lists in list functions, and a slot that several parents of one frame have."),
 dict(id="C33", title="Observing a program does not change it, and a profile is exactly its calls",
  statement="(profile e), (time e) and evaluation with lisp-trace on have the effects of e, and profile and the trace its value or error (time gives the milliseconds taken, no fewer than the program sleeps, or e's error). (profile e file) writes to the file one enter record when a function's body, a primitive or a special form starts, its arguments evaluated, and one exit record when it ends, also by an error: the records of e's calls and no others, in the order in which they happen and properly nested, "
            "one per line as {time: guid: mode: type: name:}, with the same guid in the two records of a call and different, increasing guids for different calls. Anything can be in a name. (definition-of f) is the source that f was made from: evaluated it makes a function that does the same. Profiling is off afterwards; a file name that is no string or cannot be opened is an error, and then e is not evaluated. lisp/profiling.lsp reads such a file back into the tree of the calls and counts them by name.",
  over=["inputs", "histories"], quant="every expression of two levels over 44 templates and every pair of 62 programs (errors, handlers, macros, methods, loops, recursion, closures, unusual names), under profile to a file, profile to the output, time and trace; recursion to a depth of 1000, 20000 calls, processes; the definitions of 64 functions evaluated as data and as text",
  why="The tests never profile or trace a program.",
  mechanism=[("profile records", "profiling.go:41"), ("calls of primitives", "primitive_function.go:226"), ("calls of functions", "function.go:102"), ("profile and time", "prim_system.go:254"), ("definition-of", "prim_special_forms.go:531"), ("analysis", "lisp/profiling.lsp:15")],
  observe=["results and effects with and without observation", "the records in the profile", "call trees and reports made from them"], technique=ENUM, note=ENOTE + "Records of quote are ignored: applying a primitive to values may quote them. profile inside of profile is left open."),
 dict(id="C34", title="Streams compute their elements when they are needed, and once",
  statement="With lisp/streams.lsp loaded, the stream functions have exactly the elements of the sequences they stand for: stream-cons, stream-car, stream-cdr, stream-null?, stream-ref (() beyond the end), stream-filter, stream-map over one or more streams of the same length, stream-for-each, stream-enumerate-interval, add-streams (to the shorter), scale-stream, partial-sums, merge of increasing streams without repetitions, and the infinite zeros, ones, twos, odds, integers, fib and h (the numbers without prime factors other than 2, 3 and 5). "
            "The first element of a stream-cons is evaluated at once and the rest when it is first needed, in the environment of the expression, and only once however often and from wherever it is used, unless its evaluation ended in an error, in which case the next use evaluates it again; delay and force behave the same for single values.",
  over=["inputs", "histories"], quant="all streams of up to 3 (5) elements, all pairs of streams of up to 2 (4) for functions of two, all pairs of increasing streams over 1..5, all sequences of 3 (4) uses of a stream whose parts record their evaluation, 40 (85) elements of every infinite stream",
  why="The tests force a few streams; they do not see what is evaluated when.",
  mechanism=[("delay and force", "lisp/streams.lsp:5"), ("streams", "lisp/streams.lsp:22"), ("closures and macros", "function.go:102")],
  observe=["elements of streams", "which parts are evaluated at each use"], technique=ENUM, note=ENOTE + "The expected sequences are computed by the harness."),
 dict(id="C35", title="A test run counts every assertion exactly once and fails if one does",
  statement="With lisp/testing.lsp loaded, a context runs its setup before every it clause and the clauses in order; every assertion evaluated counts as one pass or one failure as its name says (assert-true, -false, -nil, -not-nil, -eq, -neq, -error, -nerror, -memq), and an error ends its clause, not the ones after it, and counts as one error. Afterwards number-of-passes, number-of-failures and number-of-errors are those counts, failure-messages and error-messages have one message per failure and error, latest first, that begins with the context and clause, "
            "and dump-summary is true exactly if nothing failed; run-test does this for one file and run-all-tests for all files *_test.lsp of a directory, starting from zero.",
  over=["inputs", "histories"], quant="all contexts of up to 3 of 27 assertions in up to 3 clauses, quiet and verbose, runs of 200 assertions, all directories of 2 test files with one of 27 assertions each and 729 of 3",
  why="The test suite is run by this code: what it loses is not noticed.",
  mechanism=[("contexts and clauses", "lisp/testing.lsp:47"), ("assertions", "lisp/testing.lsp:70"), ("runs of files", "lisp/testing.lsp:161"), ("error handlers", "prim_system.go:81")],
  observe=["counts and messages after a run", "result of the run"], technique=ENUM, note=ENOTE + "The outcome of every assertion is stated in the harness."),
 dict(id="C36", title="Float functions and arithmetic give the single-precision result",
  statement="acos to y1 (acos, acosh, asin, asinh, atan, atanh, cbrt, cos, cosh, erf, erfc, exp, exp2, expm1, gamma, j0, j1, log, log10, log1p, log2, logb, sin, sinh, sqrt, tan, tanh, y0, y1), floor, ceiling and float give for every number, an integer being taken as the nearest float, the value of the function they name as Go's math package computes it in double precision, rounded to a float; what is no number is an error. pi, e, phi, sqrt2, sqrte, sqrtpi, sqrtphi, ln2, log2e, ln10, log10e, nan, +inf and -inf are those constants. "
            "+, -, *, / and quotient with a float among their arguments compute from left to right in single precision, a zero divisor being an error; pow is Go's Pow rounded; <, >, <=, >=, ==, !=, min and max of a list and sort order floats by value, and <, >, <=, >= also floats and integers that are exactly floats; zero?, positive?, negative?, sign, abs, inf? and nan? are right for every float; integer drops the fraction; float->bits and bits->float are the IEEE bits and their inverse.",
  over=["inputs"], quant="about 8800 (40000) floats covering every exponent and sign with 9 (73) mantissas, halves to 350 and multiples of pi/12, and integers next to the middle of two floats at every exponent for 32 functions and 13 tests; all pairs of 57 edge floats and 22 integers and (all) triples for arithmetic, pow and comparison",
  why="The tests compute a few values of a few of the functions.",
  mechanism=[("float functions and constants", "prim_math.go:49"), ("arithmetic", "prim_math.go:148"), ("pow and tests", "prim_math.go:676"), ("comparison", "prim_relative_logical.go:30"), ("number conversion", "data.go:460")],
  observe=["results of the primitives"], technique=ENUM, note=ENOTE + "Left open: the sign of a zero, (- x) of one argument, ==, != and min and max with a nan, integer of floats beyond 2^62, floats and integers that no float equals."),
 dict(id="C37", title="Every value is of one kind, and the predicates tell it",
  statement="Of the kinds integer, float, string, symbol (naked or not), boolean, empty list, list, association list, byte array, frame, function, primitive, macro, environment, port and other object every value is of exactly one, and atom?, list?, pair?, alist?, nil?, null?, notnil?, notnull?, symbol?, string?, integer?, number?, float?, function?, macro?, frame?, bytearray?, port?, boolean?, environment? and eof-object? are #t exactly for the kinds they name (atom? for numbers, symbols, strings and booleans; list? and pair? for lists and the empty list; function? for functions and primitives; eof-object? for what read gives at the end of a file), as are the Go predicates PairP, SymbolP and so on and TypeName of TypeOf. "
            "A value keeps its kind wherever it goes: through variables, arguments, results, lists, slots, association lists, environments, channels, processes, macros, eval and copy.",
  over=["inputs", "histories"], quant="101 values of 18 kinds, made in the different ways there are, each through 25 ways of handing it on and the 100 (625) pairs of those",
  why="The tests ask some predicates about some values.",
  mechanism=[("type predicates", "prim_type_predicates.go:10"), ("Go predicates and type names", "data.go:90")],
  observe=["results of the lisp and Go predicates"], technique=ENUM, note=ENOTE + "Left open: the cells of an association list, what kind of list an empty one is in Go, and list predicates of the empty association list."),
]
