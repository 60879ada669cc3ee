#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand; output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=hook)))

prop("C01", "No program or source text can crash the embedding process",
 "Whatever source text, program or argument values a script supplies, interpreting it ends with a value or an ordinary error: it never panics, never aborts the host process, never loops without evaluating anything, and never hands the host a missing (Go nil) value. This covers every built-in called with any number and any kinds of arguments, and printing or comparing any value so obtained. Recursion depth and total allocation are assumed to stay within what the host can supply, and the data not to be circular.",
 ["inputs", "programs"], "every source text (well-formed or not) and every call of every function bound in a fresh interpreter, on arguments of every data type",
 "The tests call each built-in with a handful of well-typed arguments; the space is all texts and all built-in x argument-type combinations.",
 ["world.go", "lambda.go", "cons.go", "pkg/parser/main.go", "pkg/parser/tokenize.go", "hash.go", "array.go", "class.go", "functionref.go", "io.go"],
 [("type-checked argument access", "error.go ExpectClass"), ("reader error returns", "pkg/parser"), ("nil-safe list access", "utils.go Shift")],
 ["World.Interpret result", "process exit"])

prop("C02", "Printing with ~s and reading back reproduces the value",
 "For every datum built from integers, floats, strings, characters, symbols, keywords, nil, t, lists (proper and dotted), vectors and arrays, the text printed by ~s is read back as a datum of the same type and structure, and printing that datum again yields the same text. ~a prints strings and characters as their bare content.",
 ["inputs"], "all finite data of those types, including every character in strings and symbol names, every float and arbitrary nesting",
 "Tests compare a few literals; round-tripping must hold for all characters, floats, symbol names and nesting shapes.",
 ["cons.go", "string.go", "atom.go", "number.go", "array.go", "format.go", "pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go"],
 [("printer", "cons.go PrintTo / GoString methods"), ("reader", "pkg/parser")], ["format ~s / ~a output", "read / ReadAll result"])

prop("C03", "The reader maps text to exactly the data the syntax denotes",
 "Reading a text yields exactly the sequence of data its tokens denote, independently of how much white space, which line comments and which (nested) block comments separate the tokens, and regardless of how the text is chunked by the underlying reader. A text that ends inside a list, vector, string, quoted symbol or block comment, or after a quote prefix, is reported as an error and never silently taken as complete; reading one datum consumes no more than that datum and at most its terminator, so successive reads see the following data.",
 ["inputs"], "all token sequences x all layouts x all truncation points",
 "Tests parse a few fixed strings; layouts and truncation points are combinatorial.",
 ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go", "io.go"],
 [("tokenizer", "pkg/parser/tokenize.go"), ("recursive descent", "pkg/parser/main.go ReadNode")], ["ReadAll result", "parser.Read with a host factory", "(read stream)"])

prop("C04", "Variables and functions are lexically scoped; closures keep their bindings",
 "Every variable or function reference denotes the innermost textually enclosing binding (let, let*, parameter, flet, labels, loop variable) or else the global one, whoever calls the code and whenever. Each entry to a binding form or call creates fresh bindings that closures created there share and keep, and assignment changes exactly that binding and no other of the same name. The optional and remaining parameters of a call receive exactly the corresponding argument values, and a call with too few or too many arguments is an error.",
 ["programs"], "all programs built from binding forms, closures, assignments, loops, recursion and calls",
 "Tests sample a few nestings; shadowing, capture and re-entry patterns are unbounded.",
 ["lambda.go", "functionref.go", "setq.go", "world.go", "progn.go"],
 [("environment chain", "world.go Get/Set/GetFunc"), ("closure call", "lambda.go _Lambda.Call"), ("let/let*", "setq.go")], ["values and event traces of programs"])

prop("C05", "Tail calls run in constant stack and are otherwise unobservable",
 "A function that calls itself in tail position (through if, cond, progn, let and let* branches) can iterate without bound in constant stack space. Whether or not a call is in tail position changes nothing else: argument evaluation and order, argument-count errors, fresh parameter bindings per call (including those captured by closures and :rest lists), results and errors are those of an ordinary call.",
 ["programs", "histories"], "all self-recursive functions and iteration counts",
 "Tests run one or two tail-recursive functions; the optimisation must be transparent for every parameter list and body shape.",
 ["lambda.go", "progn.go", "setq.go"],
 [("tail-call trampoline", "lambda.go _Lambda.Call / evalWithTailRecOpt")], ["values and event traces", "process survival under a small stack limit"])

prop("C06", "Non-local exits reach exactly their target and run every cleanup once",
 "return-from, return, throw and go transfer control to exactly the matching enclosing block, catch or tag that is still active, abandoning everything in between and delivering the carried value; a transfer whose target does not exist or has already been left is an error. Each unwind-protect cleanup runs exactly once, innermost first, on every way out of its form (normal, exit or error), after which the original value, exit or error proceeds.",
 ["programs", "histories"], "all nestings of exit points, exits, loops, closures, errors and cleanups",
 "Tests exercise isolated forms; interactions of nested exits with cleanups, closures and handlers are combinatorial.",
 ["progn.go", "lambda.go", "cond.go"],
 [("error-value based unwinding", "progn.go"), ("cleanup", "progn.go cmdUnwindProtect")], ["event traces and values"])

prop("C07", "Dynamic bindings last exactly as long as their form",
 "(dynamic x) yields the most recent still-active dynamic-let binding of x, or the global defdynamic value, in whatever function it is evaluated. All dynamic bindings, and the standard input redirected by with-standard-input, are back to what they were once their form is left in any way: normally, by an exit or by an error. All initial values of one dynamic-let are computed before any of its bindings takes effect.",
 ["programs", "histories"], "all nestings of dynamic-let / with-standard-input with calls, exits and errors",
 "Tests bind one variable and return normally; restoration must hold on every exit path and nesting.",
 ["setq.go", "io.go"], [("save/restore table", "setq.go Dynamics"), ("stdin swap", "io.go cmdWithStandardInput")], ["values and event traces", "(dynamic x) after the form"])

prop("C08", "A condition is delivered once, to the right handler, where it was raised",
 "When an error occurs or a condition is signalled, the innermost active handler is called exactly once with that condition, before anything is unwound and with itself no longer active; a non-local exit from it takes effect, continue-condition resumes a continuable condition with the given value, and if it returns the error goes on to the next outer handler and finally out to the caller. The condition's class and data (expected class and object, operands, undefined name, format string and arguments) identify what went wrong, and leaving with-handler in any way reinstates the outer handler.",
 ["programs", "histories", "fault_sequences"], "all nestings of handlers, all kinds of errors and all handler actions",
 "Tests install one handler at a time; delivery order and count under nesting and re-signalling is untested.",
 ["cond.go", "error.go", "cons.go", "embed/error.lsp", "embed/cerror.lsp", "startup.lsp"],
 [("handler call at raise point", "error.go callHandler"), ("handler binding", "cond.go cmdWithHandler")], ["event traces and values", "errors returned by Interpret"])

prop("C09", "Arithmetic and numeric comparison agree with exact mathematics",
 "On integers within the 64-bit range +, -, *, rem, mod, max, min, 1+ and 1- give the exact result whenever it fits, integer / truncates towards zero, mod has the divisor's sign and rem the dividend's; with a float argument the IEEE double result is given, and floor, ceiling, truncate and round (ties to even) give the integer their names say. Comparison chains are true exactly when every adjacent pair is in the stated order, for any mix of integers and floats. Division by zero and non-numeric operands raise the corresponding error, and no handler runs when nothing is wrong. The constants pi, most-positive-fixnum and most-negative-fixnum have the values their names say.",
 ["inputs"], "all argument lists of integers and floats, including extremes, signs and mixed types",
 "Tests use a few small numbers; signs, mixed types, chain lengths and extremes are unsampled.",
 ["number.go", "operator.go", "cmds.go", "embed/max.lsp", "embed/min.lsp", "embed/1+.lsp", "embed/1-.lsp"],
 [("type dispatch per operand", "number.go"), ("left fold", "world.go inject")], ["values", "error classes", "handler events"])

prop("C10", "List operations compute their results without disturbing their arguments",
 "cons, car, cdr, list, append, reverse, length, elt/nth/nthcdr, last, member, assoc, subseq, create-list and the map family (mapcar, mapc, mapcan, maplist, mapl, mapcon) return what the abstract list algebra prescribes for every list, stopping at the shortest argument, and call the given function exactly once per position in order; a map with no list is an error. Only set-car, set-cdr, nreverse, setf and destructive setters change an existing list; every other operation leaves all arguments unchanged and append shares only its last argument.",
 ["inputs"], "all finite lists, index values and function arguments",
 "Tests use two or three lists; element-wise laws, laziness of termination and argument preservation are universal.",
 ["list.go", "sequence.go", "cons.go", "embed/nthcdr.lsp"],
 [("list builder", "sequence.go ListBuilder"), ("map loops", "sequence.go MapCar / mapList")], ["values", "argument snapshots", "call traces"])

prop("C11", "Arrays store exactly what was last written at each index",
 "An array of any rank created with given dimensions has exactly those dimensions, every element initially the initial value, and thereafter each element reads as the value last stored at exactly that index tuple, whatever other elements are written and through whichever accessor. An index outside the bounds, more indices than dimensions or a non-positive dimension is an error that changes nothing (fewer indices denote a row). The predicates basic-array-p, basic-array*-p and general-array*-p tell arrays of each kind from every other object.",
 ["histories", "inputs"], "all ranks, dimensions, index tuples and write histories",
 "Tests touch one small array; index arithmetic must be right for all shapes.",
 ["array.go", "embed/set-elt.lsp", "embed/setf.lsp"], [("row-major slicing", "array.go funAref / funSetAref")], ["aref / elt / array-dimensions results", "printed form"])

prop("C12", "String and character operations count and compare characters, not bytes",
 "length, elt, subseq, string-append, create-string, string-index, char-index, mapcar over strings and convert treat a string as its sequence of Unicode characters: indices and lengths are in characters and no operation ever splits or alters one. String comparison is lexicographic by character code and mutually consistent (trichotomy), searches return the first match at or after the start position, and conversions between strings, symbols, characters, lists, vectors and numbers are exact or an error (an integer becomes the nearest float).",
 ["inputs"], "all strings over all characters (1 to 4 byte encodings), all index values",
 "Tests use short ASCII strings mostly; offsets in mixed-width text are unsampled.",
 ["string.go", "atom.go", "sequence.go", "convert.go"], [("rune decoding", "string.go FirstAndRest"), ("conversions", "convert.go")], ["values"])

prop("C13", "A hash table behaves as a finite map",
 "After any sequence of stores, removals and clears, a lookup returns the value last stored under that key and nil for a key not present, the count is the number of keys present, and distinct tables and distinct keys never affect each other. Keys of different types never collide, and an unsupported key is an error that leaves the table unchanged.",
 ["histories"], "all operation histories over all key types and several tables",
 "Tests run one short history.", ["hash.go"], [("Go map keyed by node value", "hash.go")], ["gethash / hash-table-count results"])

prop("C14", "Objects hold each slot's own value as their class prescribes",
 "create gives every slot of the class and of all its superclasses the value of the matching initarg, else of the most specific :initform (evaluated once per creation in its defining environment), else leaves it unbound; readers, writers, accessors and boundp functions then see exactly that slot of exactly that object. class-of, instancep, subclassp and assure agree with the declared class graph for user-defined and built-in classes and so do the type predicates such as integerp, atom or listp (subclassing is a transitive strict order with <object> at the top; metaclasses are left aside).",
 ["programs", "histories"], "all class graphs, slot options, creation arguments and access histories",
 "Tests define one or two classes; inheritance depth, shadowed slots and aliasing between instances are unsampled.",
 ["class.go", "builtinclass.go"], [("slot maps and initforms", "class.go"), ("class predicates", "builtinclass.go")], ["slot reads", "predicates"])

prop("C15", "A generic call runs exactly the most specific applicable method",
 "Calling a generic function evaluates its arguments once and runs exactly one method: the applicable one whose parameter classes are the most specific, in left-to-right argument order, independently of the order in which methods were defined; redefining a method for the same classes replaces it. If no method applies, an undefined-function error naming the generic is raised (methods which differ only in the class of an empty :rest tie, and are left aside), and methods never leak between generics or interpreters.",
 ["programs"], "all class hierarchies, method sets, definition orders and argument tuples",
 "Tests define methods in one convenient order.", ["generic.go", "class.go", "builtinclass.go"],
 [("method selection", "generic.go _Generic.Call")], ["which method ran (trace)", "error class"])

prop("C16", "The equality predicates form a consistent hierarchy",
 "On all values but NaN and circular data, eq implies eql, eql implies equal and equal implies equalp; each is reflexive and symmetric, and none ever fails or raises an error. eql never equates numbers of different type or distinct mutable objects, equal compares lists, strings and arrays by structure, equalp at every depth disregards in addition the case of letters in strings and characters and the type of numbers, and member, assoc, case and catch select by the documented predicate.",
 ["inputs"], "all pairs of values of all types", "Tests compare a few pairs; the lattice is universal over pairs of all types.",
 ["cmds.go", "cons.go", "array.go", "string.go", "number.go", "functionref.go", "progn.go"],
 [("Equals with mode", "*.go Equals methods")], ["predicate results"])

prop("C17", "Macros and quasiquotation build exactly the form their template denotes",
 "A macro receives its argument forms unevaluated, its expansion replaces the call and is evaluated in the caller's environment, and code behaves the same whether a macro call is expanded when a function is defined or when it runs. Quasiquotation copies its template, replacing each unquoted part by its value evaluated exactly once left to right, and a macro's ,@rest splices the remaining argument forms in order. gensym never returns a symbol that has been seen before, so the library macros (when, unless, for, dolist, dotimes, case-using, prog1, prog2, incf, decf) never capture or re-evaluate user code unexpectedly.",
 ["programs"], "all macro definitions, templates, call sites and argument forms",
 "Tests expand a few macros in one context.", ["macro.go", "lambda.go", "cmds.go", "atom.go", "embed/for.lsp", "embed/dolist.lsp", "embed/dotimes.lsp", "embed/prog1.lsp", "embed/prog2.lsp", "embed/case-using.lsp", "embed/when.lsp", "embed/unless.lsp"],
 [("expander", "macro.go expand"), ("definition-time expansion", "lambda.go expandMacroInList"), ("quasiquote", "cmds.go")], ["values, traces, macroexpand output"])

prop("C18", "Cancelling the context stops any program promptly with the context's error",
 "Once the host's context is done, evaluation of any program, including infinite loops, infinite tail recursion and mutual recursion, stops within a bounded number of further evaluation steps and returns the context's error, whatever handlers, ignore-errors, catch or cleanup forms surround it. No further user-visible effect happens after that bound, and the interpreter remains usable with a fresh context with its dynamic bindings, handlers and exit points as they were before.",
 ["programs", "fault_sequences", "histories"], "all programs and all cancellation instants (every evaluation step)",
 "Tests cancel one loop once.", ["utils.go", "lambda.go", "progn.go", "world.go"], [("context polling", "utils.go checkContext in calls and loops")], ["error returned", "event count after cancellation", "later evaluations"])

prop("C19", "Streams deliver exactly the data written, and losses are reported",
 "Reading a file or string stream by any mix of read-char, read-line and read yields exactly its content once and in order, then end-of-stream as requested (error, or the given value); output written to a file or string stream is stored completely and in order by the time it is closed or its form is left in any way. A read, write or close that fails is reported as an error, file-length and probe-file agree with the file system, and every file opened by a with-open form is closed when the form is left.",
 ["histories", "inputs", "fault_sequences"], "all contents, read/write interleavings, exit paths and I/O faults",
 "Tests read small files without faults or early exits.", ["io.go", "world.go", "format.go"],
 [("buffered streams", "io.go"), ("deferred close", "io.go cmdWithOpen*")], ["stream results", "file bytes", "open descriptors", "errors"])

prop("C20", "format writes exactly what each directive prescribes",
 "format and the format-* functions write literal text unchanged and for each directive (~a ~s ~d ~b ~o ~x ~f ~e ~g ~% ~& ~~ with numeric, v and # parameters) exactly its prescribed text, consuming exactly one argument where due, to exactly the chosen destination (nil returns the text). ~& starts a new line if and only if the last character sent to that destination, by any earlier call, was not a newline; missing arguments or an unknown directive are errors.",
 ["inputs", "histories"], "all control strings, arguments, radices, widths and output histories",
 "Tests format a few fixed strings.", ["format.go", "world.go"], [("directive interpreter", "format.go formatSub"), ("column tracking", "world.go _WriterNode")], ["bytes written per destination"])

prop("C21", "Interpreters are independent, and loading library code lazily is unobservable",
 "Functions, macros, generic methods, dynamic variables, properties, handlers, standard streams and exit points of one interpreter never affect another used in the same goroutine (global variables, classes included, are deliberately shared), and evaluating the same program in a fresh interpreter gives the same result whatever other interpreters did before. A library function or macro behaves the same whenever, wherever and by whichever interpreter it is first used, whatever local bindings surround that first use, unless that interpreter redefined it.",
 ["histories", "programs"], "all interleavings of programs over several interpreters and all first-use sites",
 "Tests use one interpreter per test and a single first use.", ["world.go", "lambda.go", "cond.go", "startup.lsp"],
 [("per-World tables", "world.go shared/_RootWorld"), ("lazy library", "lambda.go LispString")], ["results per interpreter"])

prop("C22", "setf stores into the named place and nothing else",
 "After (setf place value) the place reads as the value and setf's other observable places are unchanged, for variables, car, cdr and their compositions, first, second, third, elt, nth, nthcdr, aref, subseq, gethash, assoc, dynamic, property-like user setters and slot accessors; incf and decf change the place by exactly the delta. A string is changed by storing a new one into the variable that names it; the sub-forms of the place and the value are evaluated as the program text says and the same result is obtained from the corresponding setter called directly.",
 ["programs", "inputs"], "all supported places, container contents, indices and values",
 "Tests store to a few places.", ["embed/setf.lsp", "embed/set-elt.lsp", "embed/swap-elt.lsp", "embed/swap-subseq.lsp", "embed/set-nthcdr.lsp", "embed/incf.lsp", "embed/decf.lsp", "list.go", "hash.go", "array.go"],
 [("setter table", "embed/setf.lsp")], ["container snapshots before/after"])

prop("C23", "Forms evaluate exactly the sub-forms they should, once, in order",
 "Every function call evaluates its operator and then each argument exactly once from left to right before the body runs; and, or, if, cond, case, when, unless, while, progn, let, let*, setq, psetq evaluate exactly the sub-forms their meaning selects, in order, and yield the prescribed value. An error in a sub-form stops the evaluation right there: no later sub-form is evaluated and the called function does not run.",
 ["programs", "fault_sequences"], "all nestings of calls and special forms and all error positions",
 "Tests check results, hardly ever which sub-forms were evaluated and how often.",
 ["lambda.go", "progn.go", "operator.go", "setq.go", "cons.go"], [("argument loop", "lambda.go Function.Call and friends"), ("special forms", "progn.go, operator.go")], ["event traces", "values"])

prop("C24", "Symbol properties behave as a map from (symbol, name) to value",
 "After any history of set-property and remove-property, property returns the value last set for exactly that symbol and name, and reports an error when none is set; other symbols and names are never affected.",
 ["histories"], "all operation histories over several symbols and names",
 "Tests run one short history.", ["startup.lsp"], [("association list held in a closure", "startup.lsp")], ["property results"])

prop("C25", "The Go embedding API exposes exactly the bindings and results the host asked for",
 "A host function registered with arity limits is called only with an argument count within them and receives exactly the evaluated arguments in order; its result and its error (recoverable with errors.Is/As) reach the caller unchanged. Variables and functions supplied by Let, Flet and custom scopes are visible to, and assignable by, exactly the code interpreted in that derived interpreter and shadow outer ones, successive Interpret calls share definitions, and output goes exactly to the writers set by the host.",
 ["programs", "histories", "inputs"], "all arity limits, argument counts, scope nestings and call sequences",
 "Tests cover one Let, one Flet and one function.", ["world.go", "lambda.go"], [("arity checks", "lambda.go Function*.Call"), ("derived worlds", "world.go Let/Flet")], ["host callbacks", "Interpret results", "scope contents"])

prop("C26", "The command runs scripts and expressions faithfully and reports failure",
 "gmnlisp SCRIPT ARGS... evaluates every form of the file in order (ignoring a leading #! or @ line), with the script's arguments available unchanged in *posix-argv* (without the script's own name), and -e evaluates the given text; everything the program wrote to standard output is delivered in order. The exit status is zero exactly when the program completes or quits, an error stops the script at that point with a message on standard error and a non-zero status, and no output produced before it is lost.",
 ["inputs", "programs", "configurations"], "all scripts, arguments, line endings and failure points",
 "The command has no tests.", ["cmd/gmnlisp/main.go", "world.go"], [("script loader", "cmd/gmnlisp/main.go")], ["stdout, stderr, exit status of the process"])

prop("C27", "The add-on functions compute what their Go counterparts define",
 "=~ and =~i return, for every pattern and text, exactly the list of all matches with their sub-matches (texts, respectively offsets) and nil when there is none, an invalid pattern being an error; subst replaces every occurrence (compared as by eql) and nothing else without changing its argument; wildcard lists exactly the matching files; command runs the named program with exactly the given arguments, sends its output to the interpreter's streams and reports a failing program as an error.",
 ["inputs", "histories"], "all patterns, texts, trees, directory contents and argument vectors",
 "Only subst has a test.", ["pkg/regexp/main.go", "pkg/subst/main.go", "pkg/wildcard/main.go", "pkg/command/main.go"],
 [("Go regexp wrapper", "pkg/regexp"), ("tree walk", "pkg/subst")], ["values", "child process arguments"])

prop("C28", "Interpreters in different goroutines do not race or interfere",
 "A Go program may use any number of interpreters at the same time, each from one goroutine, without locks of its own: there is no data race, crash or deadlock whatever they evaluate, every evaluation gives the values, output and errors it gives alone (global variables and classes of different names being defined), a name denotes one symbol in all of them, gensyms are never made twice, a traced function is traced in its interpreter only, and an evaluation stops when another goroutine cancels its context. Code parsed once may be evaluated by several interpreters, and a global variable that one sets while others read it is read as one of the values it was given, never an older one than before.",
 ["schedules", "programs", "histories"], "all programs, numbers of goroutines and interleavings",
 "Tests use one interpreter in one goroutine.", ["atom.go", "world.go", "class.go", "lambda.go", "format.go", "pkg/regexp/main.go", "pkg/parser/main.go"],
 [("tables shared by all interpreters", "atom.go idMap, world.go globalVars, class.go classCounter"), ("first-use initialisation", "lambda.go LispString, world.go startup")], ["race detector reports", "results beside other goroutines and alone", "symbol identities"])

prop("C29", "An interactive session evaluates each text once and survives its errors",
 "At a terminal, gmnlisp evaluates each submitted text exactly once, all in one session where definitions, variables and state persist. A text whose parentheses are not balanced yet is not evaluated but continued on further lines, which are then taken together as typed (line ends and comments kept). The output, then the value of the last form (nothing for nil) are shown; an error, or a text that cannot be read, is reported on standard error and the session goes on in the state the error left, with no handler, binding or exit of the failed text still active; a recalled text runs again as submitted; and quit ends the process with status zero.",
 ["histories", "programs"], "all sessions: sequences of texts, their division into lines, errors at any point",
 "The command has no tests and needs a terminal.", ["cmd/gmnlisp/main.go", "world.go"], [("read-eval-print loop", "cmd/gmnlisp/main.go interactive"), ("completeness of a text", "cmd/gmnlisp/main.go SubmitOnEnterWhen")], ["terminal output", "standard error", "exit status"])

prop("C30", "The tools for looking at programs are faithful and change nothing",
 "Using trace, gmn:dump-session, expand-defun or the clocks never changes what a program evaluates to, in which order its effects happen or what it raises. trace reports every call of exactly the functions named by the last use of trace, with their argument values, nested as they were called, and reports a result only for a call that returned, that result. expand-defun shows a definition (all its parameters, :rest included) which evaluates to an equivalent function. gmn:dump-session shows each visible variable once, with the value it has at that point. get-universal-time is the time since 1900 in seconds, the real time follows the clock and the run time never decreases. load evaluates the forms of a file in order as if they stood in the program, nothing of a file that cannot be read, and reports a file that does not exist.",
 ["programs", "inputs"], "all programs, calls, definitions, environments and file contents",
 "Tests check that trace and load do not fail; that nothing else changes is universal over programs.", ["lambda.go", "world.go", "misc.go", "cmds.go"], [("trace", "lambda.go _Lambda.call"), ("expand-defun", "lambda.go cmdExpandDefun"), ("dump-session", "world.go funDumpSession"), ("load", "cmds.go funLoad")], ["values", "effect order", "standard error", "shown definitions"])

prop("C31", "The Go helpers for Lisp data agree with the Lisp functions",
 "List, Shift, ListToArray, Reverse, NReverse, Assoc, SeqEach, MapCar, NewVector and the list, vector and string builders give a Go program the objects which the Lisp operation of that meaning gives (the same elements, cells and order, sharing and changing exactly what it shares and changes), whatever the Lisp program does with the data in between; a wrong number of elements or a wrong type is an error, and an error of a callback stops the iteration and is returned. The methods Add, Sub, Multi, Divide and LessThan of numbers agree with + - * / <. Dynamics bind, and Close restores, dynamic variables as dynamic-let does; functions given to Export or ExportRange are available in every interpreter, except where a program defines the name itself; Assert is silent exactly when the value is equal to the expected one. PrintTo, String and GoString of data give the text of ~a and ~s; PrintTo returns how many bytes it wrote and the writer's error.",
 ["histories", "inputs"], "all sequences of helper calls and Lisp operations on shared data",
 "Tests use List and Assert only; identity and sharing are never looked at.", ["utils.go", "sequence.go", "array.go", "list.go", "number.go", "setq.go", "world.go"], [("list helpers", "utils.go, sequence.go"), ("builders", "sequence.go, array.go"), ("dynamics", "setq.go Dynamics"), ("export", "world.go Export, _RootWorld")], ["objects reachable from Go and from Lisp", "errors of helpers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
