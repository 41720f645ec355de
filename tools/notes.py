# technique, oracle and limits of each property: used for MANIFEST.json and DESIGN.md
DIFF="property-based differential testing: random programs run on the interpreter and on an independent reference interpreter, with shrinking"
HIST="model-based (stateful) property testing: random operation histories against a model, with shrinking"
ROUND="property-based testing: generated data and texts, round trip and independent printer/reader as oracle, with shrinking"
META="property-based testing: metamorphic and differential relations over generated inputs, with shrinking"
REFO="The oracle is the reference interpreter of harness/ref.go, written from the documentation: a small call-by-value evaluator with explicit environments, cells, exits as Go panics and traces of effects. It shares no code with /repo. Compared are the value, the error class and its data, the trace of effects, the handler calls, and (where stated) the data reachable afterwards. Programs outside its subset stop the comparison (label 'stopped')"
NOTES={
"C01":(ROUND,""),"C02":(ROUND+"; mutated and truncated texts for the negative half",""),
"C03":(DIFF,""),"C04":(DIFF,""),"C05":(DIFF,""),"C06":(DIFF+"; injected cancellation",""),"C07":(DIFF,""),"C08":(DIFF+"; generated failing calls against a table",""),"C09":(DIFF+"; generated calls of all built-in functions against a table",""),
"C10":(DIFF+"; generated templates against an independent expander",""),
"C11":("property-based testing: generated operands against math/big, with shrinking",""),"C12":("property-based testing: generated operands against exact rationals, with shrinking",""),
"C13":(META,""),"C14":(HIST,""),"C15":(HIST,""),"C16":(HIST,""),"C17":(HIST,""),"C18":(HIST,""),"C19":(HIST,""),
"C20":("property-based testing: generated class hierarchies and generic functions against a model of inheritance and dispatch, with shrinking",""),
"C21":("property-based testing: generated format strings, arguments and destinations against an independent formatter, with shrinking",""),
"C22":(HIST,""),"C23":("generation-based fuzzing (calls of everything with everything, mutated programs, token soup, deep nesting) with crash, probe and differential oracles, with shrinking",""),
"C24":("fault injection by generation: cancellation at every kind of point of generated programs, against the reference and against the trace of effects, with shrinking",""),
"C25":(META,""),"C26":(DIFF+"; place histories against a model",""),"C27":(DIFF,""),"C28":(DIFF+"; generated wrong calls of all built-in functions",""),
"C29":("property-based testing: generated texts and values against a hand-written recogniser, a table of conversions and inverse laws, with shrinking",""),
"C30":("model-based property testing of the built command: generated scripts against a model of output and exit status, with shrinking",""),
"C31":("property-based differential testing against the host's regexp, path matching and a tree model, with shrinking",""),
"C32":("property-based testing: generated nestings of host and program scopes against a model of the visible bindings, with shrinking",""),
"C34":("property-based testing: metamorphic comparison of one generated program over several fresh interpreters, and an invariant over printed objects, with shrinking",""),
"C35":(META+"; also against the reference interpreter",""),
"C36":("property-based testing: generated sequences of commands against a model of their output, with shrinking",""),
"C33":("property-based testing: generated sequences of readings against the host's clock, with shrinking",""),
}
# per property: (what is generated, oracle, why beyond the tests, limits)
DESIGN={
"C01":("Data of every readable type through the host API: integers to the 64-bit limits, floats over all exponents and neighbours of powers, characters by name, code and letter, strings with escapes and any Unicode, symbols of any characters (also such that look like numbers, contain bars, spaces, semicolons or are empty), keywords, proper and dotted lists nested up to a depth, quotes, empty vectors, vectors and arrays up to rank 4; for `sequence`, several data in one stream.",
 "Round trip: three printers (~s, format-object, GoString) and three readers (host reader, read on a string stream, quote in a program) must give one datum of the same type and equal structure, compared by the harness' own structural comparison and not by the interpreter's equal; sequences must be read back one by one.",
 "A test shows chosen data; whether a symbol's name is escaped depends on every character of it.",
 "Arrays with a zero dimension have no notation that keeps their shape and are left out, as are NaN and invalid UTF-8. A bare float has no GoString."),
"C02":("(1) data written in random equivalent notations with random layout; (2) the same texts cut at every kind of place; (3) token soup with unbalanced brackets, odd dispatch characters and nested comments.",
 "(1) the datum the text was written from; (2) inside a structure, string, comment or after a quote an error, between data exactly the complete ones; (3) no panic, an end within the watchdog's time, and what is accepted prints and reads back.",
 "Tokens are delimited by neighbours: faults need particular pairs, such as a comment that ends in bars.",
 "Adjacent tokens without a delimiter (`\"a\"\"b\"`) and comments within a token are unspecified and not generated."),
"C03":("Typed random programs with small name pools, so that shadowing happens all the time: let, let*, flet, labels, lambda, parameters, globals, closures stored, passed and called after their scope ended, setq through several closures, closures made in loops.",REFO+".",
 "Scope errors need particular combinations of names that are equal and scopes that are nested in one of many ways.","Functions of an flet have no block; duplicate names within one let are not generated."),
"C04":("Functions that call themselves in tail position of random nestings of if, cond, let, let*, progn, case, when, unless, and, or, flet, labels and block, with effects, assignments, rest parameters, wrong argument counts and closures over the parameters of each activation; loops of 300 000 and more iterations for the stack.",
 REFO+"; `tail-loops` compares with a direct model and the same function whose self call is hidden from the tail call optimisation (a metamorphic relation); stack use is observed as success of a loop longer than the interpreter's depth limit.",
 "The optimisation rewrites calls into a loop: errors show only when closures or effects observe the reuse.","Constant stack is claimed for if, cond, let, let* and progn only, as documented."),
"C05":("Nested block, catch and tagbody of the same few names, exits from calls, closures, loops and mapping, exits stored in closures and taken from another activation, tags computed, tagbodies with several tags and jumps both ways, exits to what is no longer active.",REFO+".",
 "Exits cross every construct of the language; the tests use one block each.","Duplicate tags within a tagbody are not generated."),
"C06":("unwind-protect inside of everything and around every kind of exit, cleanups nested in cleanups, exits that begin in cleanups of other exits, errors in and exits out of cleanups (`nested-cleanups`); `cancelled` cancels the context at a random look or effect and checks the cleanups entered.",
 REFO+"; for cancellation the trace must be a prefix of the uncancelled one followed by the cleanups of the unwind-protects entered, innermost first, each once.",
 "Exactly-once needs every way out of every construct, and counts.","What a cleanup that itself exits does to the exit in progress is only compared where the reference defines it."),
"C07":("defdynamic, nested dynamic-let of several variables, set-dynamic, reads through calls and closures, names that are unbound, nil values, and every kind of exit out of the binding forms.",REFO+".",
 "Restoration on each way out, for each previous state (bound, nil, unbound).",""),
"C08":("Failing operations of every class in programs (`handlers`), in a table with their conditions' data (`condition-table`), every built-in function with one argument of a wrong class (`builtin-conditions`), names that are bound in another namespace (`names`); handlers that return-from, throw, go, continue, fail, signal again, below outer handlers.",
 REFO+"; the tables state class and accessor values; counters in the handlers give exactly-once.",
 "The class and data of a condition differ for each operation and each calling way.","Errors the interpreter raises without the handler mechanism (unbound variable, undefined function, arity, control) call the handler after the body's cleanups were run: programs in which that order could be observed are not compared."),
"C09":("Programs whose argument forms are traced or assign what other argument forms read; every function of a table of ~190 built-in and library functions with traced arguments of admissible classes (symbols and lists that look like variables and calls among them), by direct call, funcall, apply, mapcar.",
 REFO+"; for built-ins: the trace must be the arguments in order, once each; the result and the arguments afterwards must be those of a call with the values given by quote.",
 "Functions of one, two or more arguments have their own evaluation paths, and library functions are macros or Lisp.",""),
"C10":("Macro definitions with templates (unquote, splice, nested templates), computed bodies, macros using macros, called at top level, in function bodies, loops, lambdas and other macro calls, with locals named like globals used in the macro body; definitions of the same name as macro, function and generic function in turn; `expansion` compares macroexpand with an independent expander.",
 REFO+"; the expander in p_macro.go.",
 "Expansion happens at definition or at call time, in one of two scopes: only combinations tell.","Macros in function bodies are expanded at definition time (documented); locally shadowed macros are not generated. `,@` splices symbols only."),
"C11":("One operator on random operands: small, boundary and random 64-bit integers, floats of all magnitudes, halves, zero divisors, and operands that are no numbers.","math/big and IEEE operations of the host, with the class and data of the error for failures; no handler may be called for a value.",
 "Wrap-around, rounding of halves and mixed operands are each a few inputs of 2^128.",""),
"C12":("Comparisons of 2 to 5 numbers, often neighbours, predicates on numbers and other data.","Exact rationals (big.Rat); trichotomy of every pair; agreement of the n-ary with the adjacent pairs.",
 "Neighbouring values at the edge of float precision.","Integers of 54 bits and more compared with floats are left out of the statement."),
"C13":("Three data of any type, integers beyond 64 bits among them, derived from each other by copying, sharing, changing one leaf, changing a type, changing the case, reordering tables.","A structural model for each predicate, and the laws (reflexive, symmetric, transitive, eq implies eql implies equal implies equalp).",
 "Transitivity is a law of triples.","Condition objects (whose classes live per World) and NaN are left out."),
"C14":("Histories of list operations over several variables that alias each other.","A heap of cons cells with identity: after each operation the result, the identity of its cells and all variables are compared.",
 "Sharing shows only when a later operation changes what is shared.","Circular lists are not built."),
"C15":("The six mapping functions with one to four lists of different lengths, dotted elements, functions that log, fail, or change their own captured state, given as lambda, #'name, closures.","A direct model: calls, their order, their arguments (by identity for tails), result and unchanged arguments.",
 "Every combination of function and number and length of lists.","Strings as arguments of mapping functions are unspecified."),
"C16":("Histories of string operations on multi-byte strings, indexes in and out of range.","Sequences of code points.", "Byte and character indexes agree on ASCII, which tests use.","subseq beyond the end truncates (documented behaviour is not stated; left open)."),
"C17":("Histories of create-array, vector, aref, set-aref, setf, elt, partial indexing, with indexes in range, at the edge, negative and so large that products overflow.","A model of cells per index tuple with shared sub-arrays.",
 "Aliasing of sub-arrays and overflow of index arithmetic need particular dimensions.",""),
"C18":("Histories on several tables with keys of every type that print alike (1, 1.0, \"1\", #\\1, |1|), and property lists.","Finite maps in the harness.", "Keys of different types with equal text.",
 "Keys are strings, symbols, keywords, integers, floats and characters; others are unspecified."),
"C19":("Random class declarations with inheritance, initargs, initforms with effects, readers, writers, accessors and boundp functions; histories of create and slot operations, initialize-object methods.","A model of slots per instance.", "Inheritance of each option, per slot, over several levels.",
 "Order of evaluation among initforms is unspecified, as is sharing of one initarg by several slots."),
"C20":("Random class graphs (multiple inheritance), generic functions with methods on user and built-in classes and typed rest parameters, calls with all kinds of values, new methods between calls; a table of definitions and calls with something else in the place of a class or initarg name.","A model of the order and of the set of applicable methods; the unique most specific one is run.",
 "Most-specific selection needs several applicable methods in every order of definition.","Calls without a unique most specific method are left open."),
"C21":("Format strings of text and directives with parameters, values of every type, destinations nil, t, string stream, file, several of them mixed in a history with other writes.","An independent formatter (p_fmt.go) with column tracking per destination.",
 "~& and paddings depend on what was written before and on the width of characters.","~a of functions and objects prints pointers or unordered slots: only their places are checked."),
"C22":("Texts (with CR LF, without a final newline, multi-byte) on string streams, files, standard input; interleaved read-char, read-line, read; file writes by every output function, exits out of with-open forms, two streams on one file, reassigned stream variables, missing and refused files.","A cursor model for input; a file-system model for output; /proc/self/fd for open files after each step.",
 "Interleavings and exits.","Raw carriage returns: the statement follows the code (they are not delivered)."),
"C23":("`calls`: every operator with arguments of every class, in random places; `abuse`: mutated and failing programs followed by a program compared with the reference; `text`: token soup evaluated; `deep`: recursion through 45 contexts to random depths or without end, endless macro expansion, handlers and methods, texts and values nested up to millions deep.",
 "No panic (a worker process that dies is a violation with the case that was running), a usable value or error, an end within the time limit, then probe programs with known values, and reads of the standard streams and handlers.",
 "All operators with all shapes of arguments.","Memory exhaustion by size arguments, circular data, and cleanups that do not end are excepted; harmful functions run in a scratch directory with file arguments rewritten."),
"C24":("Generated programs cancelled at the k-th look at the context or from inside the k-th effect, endless evaluations of every loop and recursion inside of random constructs, and the very first evaluations of an interpreter.",
 "The trace must be a prefix of the uncancelled one (plus entered cleanups), the error wraps the context's, at most a bounded number of further looks happen, and the interpreter passes probes and reference programs afterwards.",
 "Every point of every program is a cancellation point.","Cleanups run with a context that cannot be cancelled (documented)."),
"C25":("Two programs interleaved in two interpreters from inside each other's events; one program in five groupings of Interpret, InterpretBytes, Eval; definitions in three interpreters compared; host scopes (Let, Flet) with assignments.",
 "Each must behave as when alone (metamorphic), and as on the reference.","Sharing of state through library functions loaded on demand depends on the order of first uses.","Global variables and class names are process-wide by design and are named apart. Goroutine concurrency is not claimed by the project and not tested."),
"C26":("Programs that assign through setf, incf, decf to places nested in each other; `place-history` on one set of data with all kinds of places.",REFO+"; a model of places for the histories, all data compared after each step.","Nesting of places and aliasing.","Effects in the subforms of a place are unspecified (evaluated more than once)."),
"C27":("Nested conditionals and loops with effects in tests, steps and bodies; case over keys of every type; for with parallel steps.",REFO+".","Order and number of evaluations in each construct.","The value of dotimes, and a clause of case-using without a body, are left open."),
"C28":("Calls with too few and too many arguments of user functions with and without &rest by every calling way; every built-in function of the table with wrong counts and with one argument of a wrong class; parameter lists with a name twice, in every form that has one.",REFO+"; for built-ins the handler must get exactly one condition of the class, nothing is written and the arguments stay as they are.",
 "Each function checks its own arguments.","Predicates and comparisons of a single argument accept anything (documented by their use)."),
"C29":("Texts of numbers in every notation about all limits, damaged ones, random ones; every class to every class conversions; chains of conversions that are the identity.","A hand-written recogniser, a table of conversions, inverse laws.","Edges of notations.",""),
"C30":("Scripts of up to seven forms that write, read standard input and arguments, fail, abort, quit at random places, run from file or -e, with a first line to skip, unreadable endings.","A model of output and exit status; the command is built from the tree for each check.","Order of output and failure at each place.","Output on standard error is only required to be there."),
"C31":("Histories of patterns and subjects through all calling ways in two Worlds; files created and removed under patterns; trees with shared subtrees and all kinds of old items.","Go's regexp on the same text, a directory walk with path.Match on single names, a tree model by identity.","Caches and mutation of shared results appear only in histories.",""),
"C32":("Globals, host scopes (maps, pairs, function scopes) and binding forms nested in each other over six names, with assignments at each level and a place to stop.","A stack of maps; the enumeration is taken inside of the innermost form by a host function and by the text (gmn:dump-session) prints.","Shadowing across host and program scopes, and stopping in an outer scope.","The order of the enumeration is left open. The values of lists are compared through World.Range only."),
"C33":("Sequences of readings with pauses, in two interpreters.","The host's clock read before and after.","Nothing else reads the clock.","What does not fit is measured again up to five times, so that a clock that is adjusted meanwhile raises no alarm; the epoch of the internal clocks is left open."),
"C34":("Random programs with class definitions (several superclasses, shared slot names and initargs, initforms that write and fail) and creations, in four new interpreters each; hash tables after insertions and removals, printed in three.","The runs must agree with each other; the printed text must consist of exactly the slots or keys that have a value, each once.","Iteration over Go maps is random per run: a unit test of one run passes.","The order itself is left open, and addresses in printed functions are masked."),
"C35":("Random programs with trace, expand-defun, evaluation of what it printed, and load of forms from files, at random places.","The reference interpreter on the program without these operations.","Calls while traced, tail calls and non-local exits among them, and round trips of whole definitions through the printer and reader.","What a trace writes is left open (standard error is discarded in the meantime). The top level only: closures are not replaced."),
"C36":("Sequences of calls by all ways of calling, arguments with the characters a shell interprets, statuses, missing programs, standard error, a context that ends, text between.","The expected output, from printf of each argument in angle brackets.","Quoting, order and statuses: no test runs a program.","Programs run are printf, sh with fixed texts, and sleep. Standard input is the process' own and left open."),
}

