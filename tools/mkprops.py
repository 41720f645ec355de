#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the statements can be reviewed and edited in one place.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or ["World.Interpret result","trace of a host function called by the program"],hook_needed=None)))

p("C01","Printing a datum readably and reading it back gives an equal datum",
 "For every datum built from integers, finite floats, characters, strings, symbols (whatever characters their names contain), keywords, nil, t, proper and dotted lists, vectors (also empty ones) and multi-dimensional arrays of non-zero dimensions, the readable printed form (format ~s, format-object with a true escape flag, and the host API's GoString of data other than a bare float) is read back by the reader as exactly one datum of the same type that is equal to the original. The readable form of the datum read back is again the same text.",
 ["inputs"],"all data structures of those types, nested to any depth, all string contents including control characters, quotes and backslashes",
 "tests print a few literals; round trip quantifies over all nestings and all character contents",
 ["cons.go","atom.go","string.go","number.go","array.go","format.go","pkg/parser/main.go","pkg/parser/tokenize.go"],
 [("PrintTo / GoString / String of every node type","cons.go, string.go, atom.go, array.go, number.go"),("tokenizer and reader","pkg/parser")])
p("C02","The reader is total, layout-insensitive and rejects truncated input",
 "For every text the reader either returns data or reports an error: it never crashes and never loops. Changing only the layout between tokens (spaces, tabs, newlines, ; comments, nested #| |# comments) never changes the data that are read, and every documented notation (decimal, #x #o #b integers, floats with exponents, characters by name or code, strings with escapes, |symbols|, quote, backquote, comma, #', dotted pairs, vectors and #na arrays) denotes the datum it stands for. A text that stops inside a list, vector, string, |symbol| or after a quote prefix is an error and is not accepted as a shorter datum or as nothing.",
 ["inputs"],"all texts; all ways of laying out a given token sequence; all truncation points",
 "parser tests read a dozen fixed literals; the property is over every text and every truncation point",
 ["pkg/parser/main.go","pkg/parser/tokenize.go","parse.go","world.go"],
 [("readToken/readtokenWord","pkg/parser/tokenize.go"),("ReadNode, readUntilCloseParen, readArray","pkg/parser/main.go")])
p("C03","Variables and local functions are lexically scoped; closures keep bindings",
 "A variable reference, setq or local function call always denotes the innermost lexically enclosing binding of that name at the place where the code was written (parameters, let, let*, flet, labels, method parameters, globals), regardless of who calls the code and what they have bound. Every evaluation of a binding form makes fresh bindings; closures share the binding they captured with other closures of the same evaluation, see later assignments through it, and keep it alive after the form is left. let evaluates its initialisers before binding, let* sequentially, labels functions see each other and flet functions do not.",
 ["programs"],"all programs built from binding forms, assignment, closures, local and global functions and methods",
 "unit tests use a handful of two-level programs; shadowing and escaping closures need arbitrary nesting and call histories",
 ["world.go","lambda.go","setq.go","functionref.go","generic.go"],
 [("World parent chain, Let/Flet","world.go"),("_Lambda.Call","lambda.go"),("cmdLet, cmdLetX, cmdFlet, cmdLabels","setq.go, functionref.go")])
p("C04","Self tail calls run in constant stack and mean the same as ordinary calls",
 "A function that calls itself in tail position (through if, cond, let, let*, progn, nested in any combination) computes exactly what the same definition computes when the self call is an ordinary call: same value, same order of effects, fresh parameter and local bindings in every call (closures made in one call are not disturbed by later calls), rest parameters rebuilt, and wrong argument counts rejected. Such a call consumes no stack, so the number of iterations is not limited by the stack.",
 ["programs"],"all tail-recursive definitions over those forms, argument values and iteration counts",
 "the tests run two or three tail recursive functions with small counters and no captured bindings",
 ["lambda.go","progn.go","setq.go"],
 [("_ErrTailRecOpt loop in _Lambda.Call","lambda.go"),("evalWithTailRecOpt and the WithTailRecOpt variants","lambda.go, progn.go, setq.go")])
p("C05","block, catch and tagbody exits reach the right target with the right value",
 "return-from/return, throw and go transfer control to the innermost established target of that name or tag, from any depth of calls, loops and mapping functions between them: the forms in between are abandoned, the value given is the value of the block or catch, and execution of a tagbody resumes right after the tag. A form that is left normally yields its last value, and an exit to a block name, catch tag or go tag that is not active is reported as a <control-error> without being taken for another target.",
 ["programs"],"all nestings of blocks, catches, tagbodies, function calls and loops, and all exits between them",
 "tests cover single-level uses; interactions between nested targets, recursion and mapping functions are not reached",
 ["progn.go","lambda.go","embed/dolist.lsp"],
 [("_ErrEarlyReturns/_ErrThrown/_ErrTagBody propagated as errors","progn.go"),("active name tables blockName, catchTag, goTag","progn.go")])
p("C06","unwind-protect runs its cleanup exactly once on every way out",
 "However the protected form of unwind-protect ends (normally, by return-from, throw, go, a signalled error or a cancelled evaluation), all its cleanup forms are run exactly once, in order, innermost first, before control reaches the target, and with the exit's target and value unchanged. On normal completion the value of unwind-protect is the value of the protected form. An exit (return-from, throw, go) out of a cleanup form is a control error, an error in a cleanup form replaces the exit in progress and goes to the handler, and the cleanup forms further out run in either case.",
 ["programs"],"all nestings of unwind-protect with exits, errors, handlers and calls",
 "tests try one exit kind at one nesting level",
 ["progn.go"],[("cmdUnwindProtect","progn.go")])
p("C07","dynamic bindings are visible to callees and undone on every exit",
 "(dynamic x) yields the value of the most recent active dynamic-let of x in the call history, or else the defdynamic value, independent of lexical scope. dynamic-let evaluates its initialisers before binding anything, and when it is left in any way (normally, by non-local exit or by an error) every variable it bound has exactly the value it had before, or is again unbound; set-dynamic changes only the current binding.",
 ["programs"],"all nestings of dynamic-let, defdynamic, set-dynamic, calls and exits",
 "tests have one dynamic-let with a normal exit",
 ["setq.go","embed/set-dynamic.lsp"],[("Dynamics backup/restore","setq.go")])
p("C08","Errors reach the active handler once, with the right condition",
 "Every failing operation delivers to the innermost active with-handler a condition of the documented class (domain, division-by-zero, unbound variable, undefined function, program, control, parse, end-of-stream or user condition) whose accessors return the offending object, expected class, name, operands or string; a handler runs exactly once for a condition, also when it fails or leaves by a non-local exit, with the handler established before it active meanwhile, and operations that succeed never call it. ignore-errors returns nil for errors of its forms without calling the handlers outside of it. continue-condition makes the signal of that condition (and continuable errors) return its value, the previous handler is active again after with-handler however it is left, and without a handler the error is returned to the host.",
 ["programs"],"all failing operations in all nestings of handlers, calls and exits",
 "tests check a few errors one level deep and never count handler calls",
 ["cond.go","error.go","number.go","cmds.go","startup.lsp","embed/error.lsp"],
 [("cmdWithHandler, funSignalCondition, cmdContinueCondition","cond.go"),("callHandler, ExpectClass","error.go")])
p("C09","Arguments are evaluated exactly once, left to right, before the call",
 "In every function call, funcall, apply, and call of a built-in, library, generic or user function, each argument form is evaluated exactly once, from left to right, before the body runs, and the values received are those values whatever they are (symbols and lists are not evaluated again). Forms a special form or standard macro does not select are not evaluated at all, and those it selects are evaluated once in the documented order.",
 ["programs"],"all call forms, argument counts and values, including symbols, lists and quoted code as argument values",
 "tests only look at results of pure arguments; double or reordered evaluation needs effects in every position",
 ["lambda.go","generic.go","operator.go","sequence.go","world.go"],
 [("ShiftAndEvalCar, Function/Function1/Function2.Call, _Lambda.Call, _Generic.Call","lambda.go, generic.go, world.go")])
p("C10","Macros and quasiquote build exactly the code they describe",
 "Calling a macro is equivalent to evaluating, in the caller's environment, the form its body returns for the unevaluated arguments, each time it is called and wherever it is called (top level, function bodies, nested in other macro calls, loops), and macroexpand returns that form. A quasiquoted template yields a list with the template's structure in which each unquoted place is replaced by the value of its form, evaluated once, left to right, with &rest arguments spliced by ,@.",
 ["programs"],"all macro definitions and uses, all templates",
 "the tests expand a few fixed macros",
 ["macro.go","cmds.go","lambda.go"],
 [("_Macro.expand, expandJoinedForm","macro.go"),("quasiQuote","cmds.go"),("expandMacroInList","lambda.go")])
p("C11","Integer and float arithmetic follow their mathematical definitions",
 "For all operands, + - * on integers are exact modulo 64-bit wrap-around, on floats are IEEE double operations, and mixed operands are computed as floats; / with two or more operands truncates on integers; mod has the sign of the divisor and rem that of the dividend with (= a (+ (* (/ a b) b) (rem a b))); floor, ceiling, truncate and round (to even) give the nearest integer in their direction, or an error when it is outside of 64 bits; 1+, 1-, max, min, incf and decf agree with them. Dividing by zero with / mod or rem is a <division-by-zero> error and an operand that is neither a number nor (for +) a string or character is an error; no operation changes its operands or crashes.",
 ["inputs"],"all integer and float operand lists including negatives, zero and the extreme values",
 "tests use small positive operands",
 ["operator.go","number.go","embed/max.lsp","embed/min.lsp","embed/1+.lsp"],
 [("funAdd..funDevide, floatToInteger, funMod, funRem","operator.go"),("Integer/Float methods","number.go")])
p("C12","Numeric comparisons and number predicates are a consistent total order",
 "For all numbers, < <= > >= = /= agree with the mathematical order whatever mix of integers and floats is given (integers mixed with floats having less than 54 bits): exactly one of a<b, a=b, a>b holds, the others are derived from it, and a comparison of several arguments is true exactly when it is true for every adjacent pair. zerop, plusp, minusp, evenp, oddp, numberp, integerp, floatp agree with value and type for negatives too; the predicates on the value are false for other objects or an error.",
 ["inputs"],"all operand lists of integers (of magnitude exactly representable) and floats",
 "tests compare a few small positive pairs",
 ["operator.go","number.go","cmds.go"],[("funLessThan family","operator.go"),("xxxxP, funOddp, funEvenp","cmds.go")])
p("C13","eq, eql, equal are equivalence relations, each coarser than the previous",
 "On all data other than condition objects, eq, eql and equal are reflexive, symmetric and transitive, eq implies eql implies equal, and they return without error whatever the types: eql is identity for conses, arrays, hash tables, objects, functions and streams and same-type same-value for numbers, characters, strings and symbols, while equal compares conses and arrays element by element to any depth. equalp additionally identifies numbers by value across types and ignores case of characters and strings.",
 ["inputs"],"all pairs and triples of data of every type",
 "tests compare a dozen literal pairs",
 ["cmds.go","cons.go","array.go","string.go","number.go","atom.go","hash.go","class.go","functionref.go"],
 [("Node.Equals of every type with modes STRICT/EQUAL/EQUALP","every node type"),("funEq, funEql, funEqual","cmds.go")])
p("C14","List functions return what the list model says and alter nothing else",
 "For all lists, cons car cdr list append reverse nreverse length elt nth nthcdr last member assoc subseq create-list first..third c[ad]+r and subst return what the mathematical list of elements dictates, with append sharing only its last argument and member/assoc/nthcdr returning the identical tail or pair. No function other than set-car, set-cdr, nreverse and setf changes any existing list, and those change exactly the addressed cell so that every alias sees it.",
 ["inputs","histories"],"all lists and all sequences of list operations with aliasing",
 "tests call each function on one or two short constant lists",
 ["list.go","sequence.go","embed/nthcdr.lsp","pkg/subst/main.go"],
 [("funAppend, ListBuilder","list.go, sequence.go"),("SeqEach, funElt, funSubSeq, funMember, Reverse","sequence.go")])
p("C15","mapcar mapc maplist mapl mapcan mapcon call in order and stop at shortest",
 "For every function and every one or more lists, mapcar and mapc call it on successive elements, maplist and mapl on successive tails, mapcan and mapcon likewise, from left to right, once per position, and exactly as many times as the shortest list has elements (never for an empty list). mapcar/maplist return the list of results in order, mapcan/mapcon their concatenation, mapc/mapl the first list itself; the argument lists are not changed and symbols or lists as elements are passed as they are.",
 ["inputs","programs"],"all functions with effects, all tuples of lists of any lengths",
 "tests use one list of three numbers for each",
 ["sequence.go"],[("MapCar, mapList","sequence.go")])
p("C16","Strings are sequences of Unicode characters; operations agree with that model",
 "For all strings, length, elt, subseq, string-append, reverse conversions (convert to and from lists and vectors), create-string, char-index and string-index (with start indexes that are not negative) count and locate characters, not bytes, and return what the sequence of characters dictates; string and character comparisons give the code-point lexicographic order and agree with one another. No operation changes its operands and an index outside the string is an error or an absent result, never a crash or a wrong character.",
 ["inputs"],"all strings of arbitrary Unicode characters, all indexes and lengths",
 "tests use short ASCII strings",
 ["string.go","sequence.go","atom.go","convert.go","embed/swap-elt.lsp","embed/swap-subseq.lsp"],
 [("String.FirstAndRest, funStringIndex, funSubSeq, funElt","string.go, sequence.go"),("compareString, compareRune","string.go, atom.go")])
p("C17","Arrays hold one independent cell per index tuple within their dimensions",
 "After any history of create-array, vector, set-aref and setf (aref ...), aref at an index tuple returns the last value stored at that tuple, or the initial element, and no other cell of that or any other array is affected; partial indexing with aref and elt yields the sub-array sharing those cells, and array-dimensions and elt agree. An index outside the dimensions, in any position, is an error and changes nothing.",
 ["histories"],"all histories over arrays of one to four dimensions",
 "tests store one or two cells",
 ["array.go","sequence.go","embed/set-elt.lsp"],
 [("funCreateArray, funAref, funSetAref, Array.Elt","array.go")])
p("C18","Hash tables and symbol properties behave as finite maps",
 "After any history of set-gethash, setf gethash, remhash and clrhash on several tables, gethash returns the last value stored under the key and not removed, or nil, and hash-table-count is the number of such keys; keys of different types are different keys and tables do not affect each other. Likewise property returns the last value given by set-property for that symbol and name and not removed, remove-property removes only that one, and asking for an absent property is an error.",
 ["histories"],"all histories of operations over keys of every supported type, tables, symbols and names",
 "tests store and fetch one or two keys",
 ["hash.go","startup.lsp"],[("_Hash map and funSetHash/funGetHash/funRemoveHash","hash.go"),("property alist closures","startup.lsp")])
p("C19","Objects: slots are per instance, initialised and inherited as declared",
 "create yields an instance with all slots of its class and superclasses, each initialised by its initarg if given, otherwise by the initform of the most specific class that declares one (evaluated afresh per instance), otherwise unbound as its boundp function tells. Readers, writers and accessors get and set exactly that slot of exactly that instance, also for instances of subclasses, initialize-object methods are used by create, and instances are eql only to themselves.",
 ["programs","histories"],"all class hierarchies (in which no class is inherited twice), slot declarations and histories of creation and access",
 "tests define one small class",
 ["class.go","generic.go"],[("cmdDefClass, newGetter/newSetter/newBoundp, callInitArg/callInitForm, funCreate","class.go")])
p("C20","Class membership is a partial order; generic calls use the most specific method",
 "instancep, subclassp and class-of agree: an object is an instance of its class and of every class that one inherits from and of no other user class, subclassp is transitive and irreflexive, and built-in values belong to their built-in class, its documented superclasses and <object>. A generic function call runs exactly one method: the applicable one whose parameter classes are most specific for the arguments (calls for which no single method is the most specific in every position are left open), whatever the order of definition (a later definition with the same classes replaces the earlier one), with the body in its own lexical scope; if none applies the call is an error. What is no class in the place of one (a superclass, a parameter class, the argument of create, instancep, subclassp and class), and an initarg that is no symbol, and a malformed slot or class definition, is rejected with an error that calls the handler once, and defines no class and changes no method that applies to anything.",
 ["programs"],"all class hierarchies, method sets, definition orders and argument tuples including built-in values",
 "tests dispatch among disjoint classes with one argument",
 ["generic.go","class.go","builtinclass.go"],[("_Generic.Call, canCallWith","generic.go"),("InstanceP/InheritP/subClassP","class.go, builtinclass.go")])
p("C21","format and the format-* functions write exactly what the directives say",
 "For all format strings built from text and the directives ~a ~s ~d ~b ~o ~x ~f ~e ~g ~% ~& ~~ with widths and paddings, and all arguments, the output is the text with each directive replaced by its argument's rendering (printed as data, readable form, radix, padded to the width and never truncated); ~& starts a new line only if the column is not already zero. The same characters go to whichever destination is given (nil returns them, t, a string stream or a file stream receives them, in order), format-object/char/integer/float agree with the directives, and too few arguments or a wrong type (for ~d a string, say) is an error. Superfluous arguments, a single ~ at the end, and floats given to ~d are left open.",
 ["inputs","histories"],"all format strings, arguments and sequences of writes to all destinations",
 "tests format a handful of constant cases to one destination",
 ["format.go","io.go"],[("formatSub, printInt, printFloat, tAndNilToWriter","format.go"),("_WriterNode column tracking","world.go")])
p("C22","Streams deliver their characters once, in order; files keep what was written",
 "For every text and every mix of read-char, read-line and read calls on a string stream, file stream or standard input, the calls consume the text (without carriage returns) from left to right without loss or repetition, read taking at most the one white-space character that ends its token, and at the end yield the given end-of-stream value or signal <end-of-stream>. What a program writes to an output file or string stream is what is read back, with-open-input-file/with-open-output-file close the file (flushing it) however they are left, and with-standard-input and standard streams are restored afterwards, however it is left.",
 ["inputs","histories"],"all texts (with and without final newline, multi-byte characters) and all interleavings of read operations and exits",
 "tests read two-line constants with one operation",
 ["io.go","world.go","parse.go"],[("newStreamInput, funReadLine, funReadChar, funRead","io.go"),("cmdWithOpenInputFile/OutputFile, cmdWithStandardInput","io.go")])
p("C23","No program can crash the host or leave the interpreter unusable",
 "Evaluating any program text — well-formed or not, calling any built-in or library function or special form with any number of arguments of any types — either returns a usable value or returns an error to the host; it never panics (exhaustion of memory, circular data and endless cleanup forms excepted). Endless recursion and endless macro expansion end in an error, as do texts and values nested too deeply to read or print, and recursion through any construct to a depth of some thousands of calls gives what it gives for small depths. After any such evaluation the same interpreter still evaluates other programs correctly: no handler, dynamic binding, block, catch or go tag, standard stream or function definition is left behind or damaged by the failure.",
 ["programs","histories"],"all calls of all operators with all argument shapes (circular data and memory-exhausting sizes excepted), and all histories of failing evaluations",
 "tests call each function with the right arguments",
 ["world.go","lambda.go","io.go","array.go","hash.go","progn.go","cmds.go"],
 [("type checks via ExpectClass and arity checks in Function*.Call","error.go, lambda.go")])
p("C24","Cancelling the context stops any evaluation promptly, and only then",
 "When the host cancels the context, an evaluation that is running loops, recursion, tail recursion, mapping functions or function calls stops and returns an error that wraps the context's error: no function call or loop step begins after the cancellation, except in the cleanup forms of unwind-protect forms entered before, and no Lisp-level construct (ignore-errors, with-handler, catch, block) can turn the cancellation into normal completion. With a context that is not cancelled the result does not depend on the context, and the interpreter remains usable after a cancellation.",
 ["programs","fault_sequences"],"all programs and all cancellation points",
 "no test cancels at more than one point",
 ["utils.go","lambda.go","progn.go"],[("checkContext in calls and loops","utils.go, lambda.go, progn.go")])
p("C25","Interpreter instances are independent; results do not depend on history",
 "Functions, macros, methods, properties, dynamic variables, handlers and standard streams (not global variables and class names, which are process-wide) defined or set in one interpreter instance are not visible in and have no effect on another, whatever order they are created and used in, including through library functions both have used. Evaluating a program in pieces through several Interpret calls gives the same values as in one call, InterpretBytes agrees with Interpret, host scopes given with Let and Flet are visible to the program and only there, and assignments go to them.",
 ["histories","programs"],"all interleavings of evaluations over several instances; all splits of a program",
 "tests use one instance per case",
 ["world.go","lambda.go","generic.go"],[("New, shared, _RootWorld autoload","world.go"),("LispString compile cache","lambda.go")])
p("C26","setf, incf and decf update the place they name and yield the new value",
 "For every supported place (variable, car cdr first second third cadr caddr cadddr cddr cdddr elt aref gethash dynamic assoc nth subseq property and slot accessors, nested in any way), (setf place v) makes a subsequent read of that place yield v, changes nothing else reachable, and evaluates the value form once; incf and decf add or subtract the delta (default 1).",
 ["histories","programs"],"all places, nestings and histories of updates with aliasing",
 "tests set each place once on a fresh structure",
 ["embed/setf.lsp","embed/set-elt.lsp","embed/swap-subseq.lsp","embed/incf.lsp","embed/set-nthcdr.lsp","list.go"],
 [("setf macro and set-* functions","embed")])
p("C27","Conditionals and iteration run exactly the selected forms",
 "if cond case case-using and or when unless not progn prog1 prog2 while for dolist dotimes evaluate their tests in order, each at most once per step, run the body of the first success only, iterate exactly as often as their tests, lists or counts dictate with the loop variables they document (for steps in parallel), and yield the documented value. Any value other than nil counts as true.",
 ["programs"],"all nestings of these forms with effects in every position",
 "tests run one instance of each form",
 ["progn.go","operator.go","embed/for.lsp","embed/dolist.lsp","embed/dotimes.lsp","embed/case-using.lsp","embed/prog1.lsp"],
 [("cmdIf, cmdCond, cmdCase, cmdWhile, cmdAnd, cmdOr","progn.go, operator.go"),("library macros","embed")])
p("C28","Calls with wrong argument counts or types are rejected, never half done",
 "A user-defined, local or anonymous function, and each built-in function with a fixed or bounded number of parameters, called with too few or too many arguments, through a direct call, funcall, apply or a mapping function, is rejected with an error that a handler sees as a <program-error>, and the function's body does not run; required, &rest/:rest and local (/) parameters are bound as declared otherwise. A parameter list that has a name twice is rejected, and defines nothing. A built-in function that checks the class of an argument signals an error that a handler sees when the argument is of another class, and changes none of its arguments; it is a <domain-error> naming that object and the class expected where one class is expected (not for streams, class arguments, dimensions and the lists given to append, reverse, assoc and mapping functions).",
 ["programs","inputs"],"all functions, argument counts and argument types",
 "tests call functions with the right number of arguments only",
 ["lambda.go","error.go"],[("_Lambda.Call, Function*.Call","lambda.go"),("ExpectClass","error.go")])
p("C29","Conversions and number parsing agree with the notations and invert",
 "convert between characters, integers, floats, strings, symbols, lists and vectors, and parse-number, denote the same value as the reader's notation for it, and each invertible pair of conversions is the identity when composed. A string that is not a number, or an unsupported pair, is an error (a <parse-error> for number syntax) and never a wrong value. What the reader takes as symbols but numbers elsewhere (+1, .5), symbols named nil or t, and conversions of a vector or symbol to its own class are left open.",
 ["inputs"],"all values of the supported types, all strings",
 "tests convert one constant for each pair",
 ["convert.go","cmds.go","pkg/parser/main.go"],[("cmdConvert","convert.go"),("funParseNumber, tryParseAsNumber","cmds.go, pkg/parser")])
p("C30","The command runs its program in order and reports failure by exit status",
 "For every script file or non-empty -e text, the command evaluates the forms in order, with *posix-argv* holding the remaining arguments and a first line starting with # or @ skipped in a file, writes exactly what the program writes, and exits 0 when all forms evaluate or the program quits (outside of handlers), and non-zero with a message on standard error and no further form evaluated when a form fails, aborts or the text cannot be read.",
 ["programs","inputs"],"all programs, failure positions and argument lists",
 "no Go test runs the command; the Lisp tests only run succeeding scripts",
 ["cmd/gmnlisp/main.go","io.go"],[("mains, setArgv","cmd/gmnlisp/main.go")],observe=["exit status","stdout","stderr"])
p("C31","Extension functions =~ =~i wildcard and subst agree with their host model",
 "For all patterns and subjects, =~ and =~i return every leftmost non-overlapping match with its groups (text and byte offsets respectively) as the host regular-expression engine defines them, nil when there is none and an error for a bad pattern, independent of earlier calls; wildcard returns exactly the matching paths (an error or nothing for a bad pattern); subst replaces every occurrence of the old item in a tree and shares nothing it changes.",
 ["inputs","histories"],"all patterns, subjects, directory contents and trees",
 "one test per function",
 ["pkg/regexp/main.go","pkg/wildcard/main.go","pkg/subst/main.go"],
 [("funFindAllStringSubmatch(Index)","pkg/regexp/main.go"),("funWildcard","pkg/wildcard/main.go"),("subst","pkg/subst/main.go")])
p("C32","The visible variables are enumerated once each with their current values",
 "At every point of a program, World.Range called with the interpreter's current scope, World.Get and (gmn:dump-session) show each variable that is visible there (globals, host scopes given with Let, variables of let, let*, lambda, flet, labels and for) exactly once, with the value of the innermost binding including assignments made to it, show no variable whose scope is not entered or has ended, and World.Range stops when its function returns false. World.Set assigns the innermost binding of a variable and fails for a name that has none.",
 ["programs","histories"],"all nestings of host scopes and binding forms with shadowing and assignments, and all points to stop at",
 "no test enumerates variables in nested scopes",
 ["world.go"],[("World.Range, World.Get, World.Set, funDumpSession","world.go")],observe=["values","stdout"])
p("C33","The clock functions agree with the host's clock",
 "(get-universal-time) is the number of seconds since 1900-01-01 00:00 UTC, and the difference of two readings of (get-internal-real-time) or (get-internal-run-time) divided by (internal-time-units-per-second), which is constant and positive, is the time that has passed between them, in every interpreter and by every way to call them.",
 ["histories"],"all sequences of readings",
 "no test reads the clock",
 ["misc.go"],[("funUniversalTime, funInternalRealTime, funInternalTimeUnitPerSecond","misc.go")])
p("C34","A program does the same in each fresh interpreter; objects print what they hold",
 "The same program evaluated in a fresh interpreter gives the same values, errors, effects and output each time, the initforms of an instance being evaluated in one fixed order. An instance prints as the name of its class and, in braces, each slot that has a value, with the value, once, and a hash table as each key with its value once, in braces, the same way each time.",
 ["programs","histories"],"all programs, class definitions, creations, and contents of hash tables",
 "a test runs a program once; an order that is random shows only in some runs",
 ["class.go","hash.go","world.go"],[("eachSlot, _StandardObject.PrintTo, defaultInitializeObject","class.go"),("_Hash.PrintTo","hash.go")],observe=["values","effects","stdout"])
p("C35","trace, expand-defun and load of a program's text do not change what it does",
 "A program whose functions are traced or no longer traced, or whose definitions are printed by expand-defun, at any places between its forms, and one in which some forms are loaded from files, gives the same values, errors, effects and output as without (a trace writes to standard error only); and the text that expand-defun prints, evaluated at the top level, defines a function that behaves as the one printed. expand-defun of what is no user-defined function, and trace of what is no symbol, is an error.",
 ["programs","histories"],"all programs and all sequences of these operations between their forms",
 "no test traces functions, or evaluates what expand-defun prints",
 ["lambda.go","cmds.go"],[("cmdTrace, _Lambda.Call, cmdExpandDefun","lambda.go"),("funLoad","cmds.go")],observe=["values","effects","stdout"])
p("C36","command runs a program with exactly the given arguments and reports its failure",
 "(command program arg…), called in any way, runs the program directly, not through a shell, with the text of each argument (as ~a writes it) as one argument, whatever characters it has; what the program writes appears on the standard output and error output of the interpreter, in order with what the Lisp program writes before and after (~& included); the value is nil, and a program that cannot be started, exits with a status other than zero, or is still running when the evaluation's context ends (it is ended then), is an error.",
 ["programs","histories","cancellation"],"all argument texts, exit statuses and sequences of commands and output",
 "no test runs the command function",
 ["pkg/command/main.go"],[("funCommand","pkg/command/main.go")],observe=["values","stdout","stderr"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
