#!/usr/bin/env python3
# Writes known_findings.jsonl: defects repaired in /repo (they suppress nothing) and known ones.
import json, os
rows = []
def fixed(commit, *pw):
    for p, w in pw:
        rows.append(dict(property=p, status="fixed", sig="", commit=commit, what="fixed: property=%s %s %s" % (p, commit, w)))
fixed("a4c80c1", ("C09", "(+ 1 2.0) called the active handler although nothing was wrong"), ("C08", "(< 1 2.0) inside with-handler ran the handler"))
fixed("d8d05b0", ("C09", "(< 1 3 2) was true: only some adjacent pairs of a comparison chain were compared"))
fixed("6575682", ("C09", "(mod -7 -2), (rem 7.5 2), (round 2.5), (floor -0.5), (- 5), (/ 2), (max) computed wrong values or crashed"))
fixed("4b4c5ff", ("C23", "(and), (or), (cond (x)) and case with float, string or character keys gave wrong values"))
fixed("7b3ef9c", ("C22", "(setf (elt \"abc\" 1) #\\x), (setf (nthcdr 0 x) v), (setf (assoc k l) v) did not store"))
fixed("5215143", ("C17", "for, case-using, incf and decf evaluated user forms twice or in the wrong order"), ("C23", "(incf (car (f))) called f twice"))
fixed("c5f9058", ("C17", "a macro call expanded at definition time although the name was locally bound, and not inside ((lambda ...))"), ("C04", "a local function hidden by a global macro of the same name inside a defun body"))
fixed("765b959", ("C06", "return-from, go and throw reached an outer form of the same name, or one already left"))
fixed("a2f691f", ("C08", "handlers ran with themselves active, more than once, after unwinding, or not at all"))
fixed("f15b527", ("C23", "apply evaluated its arguments out of order"), ("C08", "cerror did not signal a continuable condition"))
fixed("32c5e69", ("C05", "closures over parameters of a self tail call shared one binding; wrong argument counts went unnoticed"), ("C04", "let* let a later binding change what an earlier closure saw"))
fixed("8b52c98", ("C21", "a library function first used under a local binding captured that binding for every later use, also in other interpreters"))
fixed("cf08b92", ("C21", "methods on report-condition defined in one interpreter leaked into all others"))
fixed("72e760c", ("C15", "the first matching method in definition order ran instead of the most specific; method bodies lost their defining scope"))
fixed("1edfccd", ("C14", "initargs and initforms of superclasses were lost or overrode those of the subclass; class predicates disagreed with class-of"))
fixed("3f8aee8", ("C16", "eq and equal panicked on some values, were not reflexive on NaN-free values and ignored array elements"), ("C01", "comparing functions panicked the process"))
fixed("ba627e2", ("C10", "last, nreverse, subseq and create-list of empty lists or with bad indices crashed or were wrong"), ("C11", "0-dimensional arrays and negative or surplus indices crashed or went unnoticed"), ("C12", "convert returned nothing or panicked for some targets"))
fixed("c357453", ("C03", "truncated lists, strings and comments were accepted; #\\( and |a b| were misread"), ("C01", "malformed #2a(...) panicked"))
fixed("741b0b3", ("C02", "~s printed floats without a point, strings without escapes and symbols without bars"))
fixed("14714ed", ("C07", "dynamic-let bound in sequence and left changed values behind"))
fixed("7de4996", ("C17", "gensym returned symbols the reader could read; quasiquote ignored vectors"))
fixed("c8b7d13", ("C20", "~& and numeric parameters were ignored or wrong on some streams"), ("C19", "end of file, file-length, close and writing after close were not reported"))
fixed("afb58b4", ("C12", "string-index ignored its start position"), ("C27", "wildcard dropped or repeated files"), ("C17", "surplus macro arguments were silently dropped"))
fixed("6e595db", ("C26", "the first line of a script was skipped even when it was code; an empty script was an error"))
fixed("1f5d882", ("C08", "continue-condition of a non-continuable condition was not seen by the outer handlers"))
fixed("a245d21", ("C05", "surplus arguments were evaluated in tail calls but not in ordinary calls"), ("C23", "the error for too many arguments came before the surplus arguments were evaluated"))
fixed("95631b2", ("C18", "a first evaluation under a finished context left the interpreter without its library"))
fixed("689d410", ("C01", "a program that overwrote a class name made every new interpreter panic at start-up"))
fixed("4e53a4c", ("C02", "a symbol with #' in its name, |a#'b|, was read as two data"), ("C03", "#' inside |...| ended the symbol"))
fixed("8d7d715", ("C03", "a quotation mark right after a block comment was taken as part of a symbol, #||#'a"))
fixed("3148804", ("C03", "a dot in an array #(1 . 2) swallowed the array and (a ') was accepted"))
fixed("a43d73f", ("C09", "rem and mod reported a converted operand (4.0 for 4) in the division-by-zero condition"))
fixed("946a29b", ("C16", "equal of instances with different unbound slots was true and asymmetric"))
fixed("5ad2501", ("C12", "(convert 4294967393 <character>) was #\\a, (convert 1e300 <integer>) and (convert 1.5 <integer>) gave other numbers"))
fixed("bbefe35", ("C19","a read error in the middle of a line or datum was swallowed and the part read so far delivered as if complete"))
fixed("afdd7d1", ("C19","(catch 'k (with-open-output-file (s \"/dev/full\") (format s \"abc\") (throw 'k 1))) lost the output and returned 1"))
fixed("fe742be", ("C18", "an error raised while the context was already finished was returned instead of the context's error: (while t (ignore-errors (car 5))) under a timeout"))
fixed("8c65cf2", ("C21", "the startup library (property, set-property, remove-property) captured the functions of the derived World through which an interpreter was first used"))
fixed("a6baeab", ("C25","an error of a host function which a handler signals again (signal-condition c nil) is no longer found by errors.Is and errors.As: ErrorNode has no Unwrap"))
fixed("60b909c", ("C08", "(continue-condition c v) for a condition whose handlers are not running (already handled, or not a condition) was not an error any handler saw: it escaped with-handler and ignore-errors"))
fixed("af92d39", ("C08", "an outer handler was called for an error inside ignore-errors, which is the innermost handler for it, and could take it away"))
fixed("361deba", ("C28", "interpreters in different goroutines crashed with concurrent map writes in the table of symbols, gensyms could coincide"))
fixed("f15a970", ("C28", "defclass in different goroutines raced on the class counter: two classes could get one serial number"))
fixed("de4bdf6", ("C28", "trace was process-wide: functions of the same name were traced in every interpreter, and the table was written without a lock"))
fixed("77324aa", ("C28", "the table of global variables, which all interpreters share, was read and written without a lock"))
fixed("4aa84ba", ("C25", "World.Range went on with the enclosing scopes after its function had returned false"))
fixed("5ee2ac0", ("C08", "a float out of range was never reported by parse-number as <floating-point-overflow>, nor by read as <parse-error>: a plain error no condition class describes"))
fixed("01bb64a", ("C30", "trace reported '[0: f returned <nil>]' for calls that were left by an error, a throw or a return-from"))
fixed("60819e7", ("C30", "(expand-defun 'f) left out the :rest parameter: the text it shows was another function"))
fixed("dc0539a", ("C30", "(trace ...) called inside a traced function: on return that function was traced (with depth -1) though the new list does not name it"))
fixed("8d4b3a1", ("C10", "mapcar, mapc, mapcan, maplist, mapl and mapcon with no list called the function for ever and kept what it returned"))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_more.py')).read())
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(root + '/known_findings.jsonl', 'w').write(''.join(json.dumps(r, ensure_ascii=False) + '\n' for r in rows))
print(len(rows))
